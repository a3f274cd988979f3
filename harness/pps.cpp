#include "vk.h"
#include "ref_pps.h"
using namespace h264nal;
static void go() {
  uint32_t c = (uint32_t)vk_u("chroma_format_idc", 2);
  VkStream st(0);
  auto s = H264PpsParser::ParsePps(st.bb, c);
  Ref r(0);
  ref_pps(r, s.get(), c);
  VK_END(s, st, false, "pps");
}
extern "C" void h_pps_main() { go(); }
// slice groups: every count and map type, with lists of every length the count asks for and a few of slice_group_id's
extern "C" void h_pps_groups() {
  static const uint32_t len[] = {1, 2, 8, 9, 16, 17, 99, 255, 256, 300}; uint32_t n = (uint32_t)vk_concretize(vk_u("n", 3)), t = (uint32_t)vk_concretize(vk_u("t", 3)), k = 0;
  vk_assume(t != 7); if (t == 6 && n) { k = (uint32_t)vk_u("k", 4); vk_assume(k < 10); k = (uint32_t)vk_concretize(k); vk_assume(k < 7 || n == 1 || n == 7); }
  auto v = [](uint32_t hi) { uint32_t x = (uint32_t)vk_u("v", 32); vk_assume(x <= hi); return x; };
  vk_tape_ue(0, v(255)); vk_tape_ue(0, v(31)); vk_tape_u(0, 2, vk_u("f", 2)); vk_tape_ue(0, n);
  if (n) {
    vk_tape_ue(0, t);
    if (t == 0) for (uint32_t i = 0; i <= n; i++) vk_tape_ue(0, v(0xfffffffe));
    if (t == 2) for (uint32_t i = 0; i < 2 * n; i++) vk_tape_ue(0, v(0xfffffffe));
    if (t >= 3 && t <= 5) { vk_tape_u(0, 1, vk_u("d", 1)); vk_tape_ue(0, v(0xfffffffe)); }
    if (t == 6) { vk_tape_ue(0, len[k] - 1); for (uint32_t i = 0; i < len[k]; i++) vk_tape_u(0, n >= 4 ? 3 : n >= 2 ? 2 : 1, vk_u("id", n >= 4 ? 3 : n >= 2 ? 2 : 1)); }
  }
  vk_tape_ue(0, v(31)); vk_tape_ue(0, v(31)); vk_tape_u(0, 3, vk_u("w", 3)); for (int i = 0; i < 3; i++) vk_tape_ue(0, v(40)); vk_tape_u(0, 3, vk_u("x", 3)); vk_tape_u(0, 2, 0); vk_tape_ue(0, v(40)); vk_tape_u(0, 1, 1);
  go();
}
#include "scaling.h"
static uint32_t pre(uint32_t t8, uint32_t c) {
  vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_u(0, 2, 0); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_u(0, 3, 0);
  vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_u(0, 3, 0); vk_tape_u(0, 1, t8); vk_tape_u(0, 1, 1);
  return 6 + t8 * (c == 3 ? 6 : 2);
}
static void run(uint32_t c) {
  VkStream st(0);
  auto s = H264PpsParser::ParsePps(st.bb, c);
  Ref r(0);
  ref_pps(r, s.get(), c);
  VK_END(s, st, false, "pps");
}
extern "C" void h_pps_scaling() {
  uint32_t t8 = (uint32_t)vk_concretize(vk_u("t8", 1)), c = vk_concretize(vk_u("c3", 1)) ? 3 : 1;
  if (push_lists(pre(t8, c))) vk_tape_ue(0, (uint32_t)vk_u("sc", 8));
  run(c);
}
static void one(uint32_t at, bool full) { uint32_t c = at >= 8 ? 3 : 1; if (push_one(pre(at >= 6, c), at, full)) vk_tape_ue(0, (uint32_t)vk_u("sc", 8)); run(c); }
extern "C" void h_pscaling16() { one((uint32_t)vk_concretize(vk_u("at", 1)) * 5, false); }
extern "C" void h_pscaling64() { one(6, false); }
extern "C" void h_pscaling64_full() { one(11, true); }
extern "C" void h_pscaling16_full() { one(5, true); }
// slice group ids of the largest pictures: real bytes, two of the ids and everything after them symbolic
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
extern "C" void h_pps_far() {
  static const uint32_t len[] = {1023, 1024, 4096, 32768, 65535, 65536, 65537, 100000, 131072, 139263, 139264, 139265}; uint32_t k = (uint32_t)pick("k", 4, 0, 11), n = len[k], g = (uint32_t)pick("g", 2, 0, 2); g = g == 0 ? 1 : g == 1 ? 3 : 7; unsigned w = g == 1 ? 1 : g == 3 ? 2 : 3;
  size_t size = ((size_t)n * w + 128) / 8, at = 0; uint8_t* d = new uint8_t[size](); auto put = [&](unsigned b, uint64_t v) { for (unsigned i = b; i-- > 0; at++) d[at / 8] = (uint8_t)(d[at / 8] | ((v >> i) & 1) << (7 - at % 8)); };
  auto ue = [&](uint32_t v) { unsigned b = 0; while (((uint64_t)v + 1) >> (b + 1)) b++; put(b, 0); put(b + 1, (uint64_t)v + 1); };
  uint64_t a = vk_u("first", w), z = vk_u("last", w), t = vk_u("t", 2), f = vk_u("f", 3); ue(2); ue(1); put(2, 0); ue(g); ue(6); ue(n - 1); size_t ids = at; put(w, a); at = ids + (size_t)(n - 1) * w; put(w, z);
  ue(3); put(3, 1); put(2, t & 3);  // 001xx: num_ref_idx_l1_default_active_minus1 3 to 6
  put(3, 0); ue(0); ue(0); ue(0); put(3, f); put(1, 1); size_t bytes = (at + 7) / 8;
  BitBuffer bb(d, bytes); auto s = H264PpsParser::ParsePps(&bb, 1); vk_assert((s != nullptr) == (n <= 139264), "pps: one slice group id per map unit, up to the largest picture");
  if (s) {
    vk_assert(s->pic_size_in_map_units_minus1 == n - 1 && s->slice_group_id.size() == n, "pps: one slice group id per map unit"); if (s->slice_group_id.size() == n) vk_assert(s->slice_group_id[0] == a && s->slice_group_id[n - 1] == z && s->slice_group_id[n / 2] == 0, "pps: slice group ids in order");
    vk_assert(s->num_ref_idx_l0_default_active_minus1 == 3 && s->num_ref_idx_l1_default_active_minus1 == 3 + t && s->deblocking_filter_control_present_flag == (f >> 2) && s->constrained_intra_pred_flag == ((f >> 1) & 1) && s->redundant_pic_cnt_present_flag == (f & 1), "pps: the elements after the slice group ids");
    vk_reach("done");
  }
  delete[] d;
}
