#include "vk.h"
#include "ref_sps.h"
using namespace h264nal;
static void go(const SpsBound& b) {
  VkStream st(0);
  auto s = H264SpsDataParser::ParseSpsData(st.bb);
  Ref r(0);
  ref_sps_data(r, s.get(), b);
  VK_END(s, st, true, "sps_data");
}
extern "C" void h_sps_main() { SpsBound b; b.scaling = false; b.vui = false; b.poc_cycle = 2; g_add_resolution = false; go(b); }
// an otherwise fixed SPS with an arbitrary end: size, interlacing, cropping, and the start of the VUI
extern "C" void h_sps_end() {
  vk_tape_u(0, 8, 66); vk_tape_u(0, 8, 0); vk_tape_u(0, 8, 30); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_ue(0, 2); vk_tape_ue(0, 1); vk_tape_u(0, 1, 0); uint32_t w = (uint32_t)vk_u("w", 8), h = (uint32_t)vk_u("h", 8); vk_tape_ue(0, w); vk_tape_ue(0, h);
  SpsBound b; b.vui = false; go(b);
}
// long picture order count cycles: the length is one of a few, every offset is symbolic
extern "C" void h_sps_cycle() {
  static const uint32_t len[] = {0, 1, 3, 15, 16, 17, 31, 32, 63, 64, 127, 128, 200, 254, 255, 256}; uint32_t n = len[vk_concretize(vk_u("n", 4))];
  vk_tape_u(0, 8, 77); vk_tape_u(0, 8, 0); vk_tape_u(0, 8, 40); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_ue(0, 1); vk_tape_u(0, 1, vk_u("dz", 1));
  auto v = [] { uint32_t x = (uint32_t)vk_u("v", 32); vk_assume(x != 0xffffffffu); return x; };
  vk_tape_ue(0, v()); vk_tape_ue(0, v()); vk_tape_ue(0, n); for (uint32_t i = 0; i < n && n < 256; i++) vk_tape_ue(0, v());
  vk_tape_ue(0, 1); vk_tape_u(0, 1, 0); vk_tape_ue(0, 10); vk_tape_ue(0, 10); vk_tape_u(0, 4, 12);
  SpsBound b; b.poc_cycle = 255; b.vui = false; g_add_resolution = false; go(b);
}
#include "scaling.h"
// an otherwise fixed SPS around a scaling matrix
static uint32_t pre(uint32_t c) {
  vk_tape_u(0, 8, 100); vk_tape_u(0, 8, 0); vk_tape_u(0, 8, 30); vk_tape_ue(0, 0); vk_tape_ue(0, c);
  if (c == 3) vk_tape_u(0, 1, vk_u("sep", 1));
  vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_u(0, 1, 0); vk_tape_u(0, 1, 1);
  return c == 3 ? 12 : 8;
}
static void post() { vk_tape_ue(0, 0); vk_tape_ue(0, 2); vk_tape_ue(0, 1); vk_tape_u(0, 1, 0); vk_tape_ue(0, 10); vk_tape_ue(0, 10); vk_tape_u(0, 4, 12); vk_tape_u(0, 1, 1); }
extern "C" void h_sps_scaling() {
  uint32_t n = pre(vk_concretize(vk_u("c3", 1)) ? 3 : 1);
  if (push_lists(n)) post();
  go(SpsBound());
}
// one list with arbitrary content
static void one(uint32_t at, bool full) { uint32_t n = pre(at >= 8 ? 3 : 1); if (push_one(n, at, full)) post(); go(SpsBound()); }
extern "C" void h_scaling16() { one((uint32_t)vk_concretize(vk_u("at", 1)) * 5, false); }
extern "C" void h_scaling64() { one(6, false); }
extern "C" void h_scaling64_full() { one(11, true); }
extern "C" void h_scaling16_full() { one(5, true); }
// an otherwise fixed SPS with a VUI whose first part is fixed
extern "C" void h_sps_vui() {
  vk_tape_u(0, 8, 66); vk_tape_u(0, 8, 0); vk_tape_u(0, 8, 30); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_ue(0, 2); vk_tape_ue(0, 1); vk_tape_u(0, 1, 0); vk_tape_ue(0, 10); vk_tape_ue(0, 10); vk_tape_u(0, 4, 13); vk_tape_u(0, 4, 0); vk_tape_u(0, 1, vk_u("timing", 1));
  go(SpsBound());
}
