// values derived from parsed parameter sets, and the NAL unit type classes
#include "vk.h"
#include <string.h>
#include <string>
#include "h264_common.h"
#include "h264_sps_parser.h"
#include "h264_vui_parameters_parser.h"
#include "h264_nal_unit_payload_parser.h"
using namespace h264nal;
typedef H264SpsDataParser::SpsDataState S;
static bool eq(const std::string& a, const char* b) { return a.size() == strlen(b) && memcmp(a.data(), b, a.size()) == 0; }
// A.2: the profile a decoder reports from profile_idc and the constraint flags
static ProfileType profile(const S& s) {
  bool c1 = s.constraint_set1_flag, c3 = s.constraint_set3_flag, c4 = s.constraint_set4_flag, c5 = s.constraint_set5_flag;
  switch (s.profile_idc) {
    case 66: return c1 ? CONSTRAINED_BASELINE : BASELINE;
    case 77: return MAIN;
    case 88: return EXTENDED;
    case 100: return c4 ? (c5 ? CONSTRAINED_HIGH : PROGRESSIVE_HIGH) : HIGH;
    case 110: return c3 ? HIGH_10_INTRA : c4 ? PROGRESSIVE_HIGH_10 : HIGH_10;
    case 122: return c3 ? HIGH_422_INTRA : HIGH_422;
    case 144: return c3 ? HIGH_444_INTRA : HIGH_444;
    case 244: return c3 ? HIGH_444_PRED_INTRA : HIGH_444_PRED;
    case 44: return CAVLC_444_INTRA;
    default: return UNSPECIFIED;
  }
}
extern "C" void h_profile() {
  S s; s.profile_idc = (uint32_t)vk_u("profile_idc", 8); s.constraint_set0_flag = (uint32_t)vk_u("c0", 1); s.constraint_set1_flag = (uint32_t)vk_u("c1", 1); s.constraint_set2_flag = (uint32_t)vk_u("c2", 1); s.constraint_set3_flag = (uint32_t)vk_u("c3", 1); s.constraint_set4_flag = (uint32_t)vk_u("c4", 1); s.constraint_set5_flag = (uint32_t)vk_u("c5", 1);
  s.level_idc = (uint32_t)vk_u("level", 8); s.chroma_format_idc = (uint32_t)vk_u("cf", 2);
  vk_assert(s.GetProfileType() == profile(s), "profile type");
}
// the parsed SPS carries the profile type
extern "C" void h_profile_parsed() {
  static const uint32_t tab[] = {66, 77, 88, 100, 110, 122, 244, 44, 83, 118}; uint32_t p = tab[vk_concretize(vk_u("p", 4)) % 10], cs = (uint32_t)vk_u("cs", 6);
  vk_tape_u(0, 8, p); vk_tape_u(0, 6, cs); vk_tape_u(0, 2, 0); vk_tape_u(0, 8, 30); vk_tape_ue(0, 0);
  if (p == 100 || p == 110 || p == 122 || p == 244 || p == 44 || p == 83 || p == 118) { vk_tape_ue(0, 1); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_u(0, 1, 0); vk_tape_u(0, 1, 0); }
  vk_tape_ue(0, 0); vk_tape_ue(0, 2); vk_tape_ue(0, 1); vk_tape_u(0, 1, 0); vk_tape_ue(0, 10); vk_tape_ue(0, 10); vk_tape_u(0, 4, 12); vk_tape_u(0, 1, 0);
  VkStream st(0); auto s = H264SpsDataParser::ParseSpsData(st.bb); vk_assert(s != nullptr, "a legal SPS is accepted"); if (!s) return;
  S q; q.profile_idc = p; q.constraint_set1_flag = (cs >> 4) & 1; q.constraint_set3_flag = (cs >> 2) & 1; q.constraint_set4_flag = (cs >> 1) & 1; q.constraint_set5_flag = cs & 1;
  vk_assert(s->profile_type == profile(q), "the parsed SPS carries its profile type"); vk_reach("accept");
}
extern "C" void h_profile_name() {
  static const char* n[] = {"Unspecified", "Baseline", "Constrained Baseline", "Main", "Extended", "High", "Progressive High", "Constrained High", "High 10", "Progressive High 10", "High 10 Intra", "High 4:2:2", "High 4:2:2 Intra", "High 4:4:4", "High 4:4:4 Intra", "High 4:4:4 Predictive", "High 4:4:4 Predictive Intra", "CAVLC 4:4:4 Intra"};
  uint64_t k = vk_u("k", 5); vk_assume(k < 18); k = vk_concretize(k); std::string o; profileTypeToString((ProfileType)k, o); vk_assert(eq(o, n[k]), "profile name");
}
// 6.2, 7.4.2.1.1: chroma geometry, cropping units, cropped frame size
extern "C" void h_chroma() {
  S s; s.chroma_format_idc = (uint32_t)vk_u("cf", 2); s.separate_colour_plane_flag = (uint32_t)vk_u("sep", 1); s.frame_mbs_only_flag = (uint32_t)vk_u("fmo", 1); uint32_t c = s.chroma_format_idc, sep = s.separate_colour_plane_flag;
  vk_assume(!sep || c == 3);
  uint32_t cat = sep ? 0 : c; vk_assert(s.getChromaArrayType() == cat, "ChromaArrayType");
  int sw = cat == 0 ? -1 : cat == 3 ? 1 : 2, sh = cat == 0 ? -1 : cat == 1 ? 2 : 1;
  vk_assert(s.getSubWidthC() == sw, "SubWidthC"); vk_assert(s.getSubHeightC() == sh, "SubHeightC");
  vk_assert(s.getCropUnitX() == (cat ? sw : 1), "CropUnitX"); vk_assert(s.getCropUnitY() == (cat ? sh : 1) * (s.frame_mbs_only_flag ? 1 : 2), "CropUnitY");
}
static void resolution(bool hor, bool ver, unsigned cb) {
  S s; s.chroma_format_idc = (uint32_t)vk_concretize(vk_u("cf", 2)); s.separate_colour_plane_flag = (uint32_t)vk_concretize(vk_u("sep", 1)); s.frame_mbs_only_flag = (uint32_t)vk_concretize(vk_u("fmo", 1)); vk_assume(!s.separate_colour_plane_flag || s.chroma_format_idc == 3);
  s.pic_width_in_mbs_minus1 = hor ? (uint32_t)vk_u("w", 11) : 19; s.pic_height_in_map_units_minus1 = ver ? (uint32_t)vk_u("h", 11) : 14;
  s.frame_cropping_flag = (uint32_t)vk_u("crop", 1);
  if (s.frame_cropping_flag) { if (hor) { s.frame_crop_left_offset = (uint32_t)vk_u("l", cb); s.frame_crop_right_offset = (uint32_t)vk_u("r", cb); } if (ver) { s.frame_crop_top_offset = (uint32_t)vk_u("t", cb); s.frame_crop_bottom_offset = (uint32_t)vk_u("b", cb); } }
  uint32_t cat = s.separate_colour_plane_flag ? 0 : s.chroma_format_idc; int sw = cat == 1 || cat == 2 ? 2 : 1, sh = cat == 1 ? 2 : 1, f = s.frame_mbs_only_flag ? 1 : 2;
  int w = 16 * ((int)s.pic_width_in_mbs_minus1 + 1) - sw * (int)(s.frame_crop_left_offset + s.frame_crop_right_offset);
  int h = 16 * f * ((int)s.pic_height_in_map_units_minus1 + 1) - sh * f * (int)(s.frame_crop_top_offset + s.frame_crop_bottom_offset);
  int a = 7, b = 7; int rc = s.getResolution(&a, &b); bool ok = w > 0 && h > 0;
  vk_assert((rc == 0) == ok, "resolution: success exactly when something is left to show");
  if (ok) { vk_assert(a == w, "resolution: width"); vk_assert(b == h, "resolution: height"); vk_reach("accept"); } else { vk_assert(a == -1 && b == -1, "resolution: -1 x -1 on failure"); vk_reach("reject"); }
  vk_assert(s.getResolution(nullptr, &b) < 0 && s.getResolution(&a, nullptr) < 0, "resolution: null output");
}
extern "C" void h_resolution_w() { resolution(true, false, 20); }
extern "C" void h_resolution_h() { resolution(false, true, 20); }
extern "C" void h_resolution() { resolution(true, true, 12); }
static void fr(uint32_t ts, uint32_t nu) { H264VuiParametersParser::VuiParametersState v; v.timing_info_present_flag = 1; v.time_scale = ts; v.num_units_in_tick = nu; float a = v.getFramerate(); double e = ts / (2.0 * nu); float g = (float)e; uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &g, 4); vk_assert(x == y, "frame rate is time_scale / (2 * num_units_in_tick)"); }
extern "C" void h_framerate() { static const uint32_t t[] = {1, 2, 25, 1000, 1001, 1200, 90000, 0x80000000u}; fr((uint32_t)vk_u("ts", 32), t[vk_concretize(vk_u("nu", 3))]); }
// Table 7-1
extern "C" void h_types() {
  static const char* n[] = {"unspecified", "coded_slice_of_non_idr_picture", "coded_slice_data_partition_a", "coded_slice_data_partition_b", "coded_slice_data_partition_c", "coded_slice_of_idr_picture", "sei", "sps", "pps", "aud", "eoseq", "eostream", "filler_data", "sps_extension", "prefix", "subset_sps", "rsv16", "rsv17", "rsv18", "coded_slice_of_auxiliary_coded_picture", "coded_slice_extension", "rsv21", "rsv22", "rsv23", "unspec24", "unspec25", "unspec26", "unspec27", "unspec28", "unspec29", "unspec30", "unspec31"};
  uint32_t t = (uint32_t)vk_concretize(vk_u("t", 5));
  vk_assert(eq(NalUnitTypeToString(t), n[t]), "nal_unit_type name");
  vk_assert(IsSliceSegment(t) == ((t >= 1 && t <= 5) || t == 19 || t == 20), "slice types"); vk_assert(IsNalUnitTypeReserved(t) == ((t >= 16 && t <= 18) || (t >= 21 && t <= 23)), "reserved types"); vk_assert(IsNalUnitTypeUnspecified(t) == (t >= 24), "unspecified types");
}
