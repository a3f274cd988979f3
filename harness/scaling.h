#pragma once
// writes the lists of an SPS/PPS scaling matrix onto tape 0: present flags for
// n lists where only lists a and b are present (b == a, b == a + 1, or a == 0);
// each present list is "use default", ends after its second coefficient, or has
// an illegal delta
static int32_t se_of(uint32_t k) { uint32_t h = k >> 1; return (int32_t)((k & 1) ? h + 1 : 0u - h); }
static bool push_list(const char* n1, const char* n2, bool big) {
  uint32_t k = (uint32_t)vk_u(n1, 32); vk_assume(k != 0xffffffffu); vk_tape_ue(0, k);
  int32_t d = se_of(k);
  if (d < -128 || d > 127) return false;
  uint32_t nx = (uint32_t)(8 + d) & 255;
  if (nx == 0) return true;
  uint32_t k2 = (uint32_t)vk_u(n2, 32); vk_assume(k2 != 0xffffffffu);
  int32_t e = se_of(k2);
  if (e < -128 || e > 127) { if (!big) vk_skip(); vk_tape_ue(0, k2); return false; }
  vk_assume(((nx + (uint32_t)e) & 255) == 0);
  vk_tape_ue(0, k2);
  return true;
}
static bool push_lists(uint32_t n) {
  uint32_t a = (uint32_t)vk_concretize(vk_u("a", 4)), b = (uint32_t)vk_concretize(vk_u("b", 4));
  vk_assume(a < n && b < n && (a == b || b == a + 1 || (a == 0 && (b == 5 || b == 6 || b == n - 1))));
  for (uint32_t i = 0; i < n; i++) {
    bool p = i == a || i == b; vk_tape_u(0, 1, p);
    if (p && !push_list(i == a ? "d0" : "d1", i == a ? "e0" : "e1", i == a)) return false;
  }
  return true;
}
// list number `at` of n is present, with unconstrained content: the first and
// three deltas in a row anywhere are free and the rest zero (all free when `full`); the data may also end inside the list.
// returns false when the list is not complete
static bool push_one(uint32_t n, uint32_t at, bool full) {
  for (uint32_t i = 0; i < at; i++) vk_tape_u(0, 1, 0);
  vk_tape_u(0, 1, 1);
  uint32_t len = at < 6 ? 16 : 64, p = 0, win = len;
  if (!full) { uint64_t x = vk_u("p", 6); vk_assume(x < len); p = (uint32_t)vk_concretize(x); win = 3; }
  uint64_t y = vk_u("end", 7); vk_assume(y == 127 || (y < len && (full || y == p + 1))); uint32_t end = (uint32_t)vk_concretize(y);
  uint32_t last = 8, next = 8;
  for (uint32_t j = 0; j < len && next != 0; j++) {
    if (j == end) { vk_tape_end(0); return false; }
    bool fr = j == 0 || (j >= p && j < p + win); uint32_t k = 0;
    if (fr) { k = (uint32_t)vk_u("k", 32); vk_assume(k != 0xffffffffu); }
    vk_tape_ue(0, k);
    int32_t d = se_of(k);
    if (d < -128 || d > 127) return false;
    next = (uint32_t)((int32_t)last + d + 256) & 255;
    if (next) last = next;
  }
  if (end != 127 && next) vk_skip();
  for (uint32_t i = at + 1; i < n; i++) vk_tape_u(0, 1, 0);
  return true;
}
