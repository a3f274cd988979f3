#pragma once
#include "h264_sps_parser.h"
#include "ref_vui.h"
// 7.3.2.1.1.1 scaling_list(): ghost copy of the list and its use-default flag
struct RefScaling { uint32_t list[64]; bool use_default; int32_t delta = 0; };
// what the dump says of a set of scaling lists
struct RefMatrix {
  std::vector<uint32_t> present, ud4, ud8; int32_t delta = 0;
  void add(uint32_t i, const RefScaling& l) { std::vector<uint32_t>& u = i < 6 ? ud4 : ud8; uint32_t k = i < 6 ? i : i - 6; while (u.size() <= k) u.push_back(0); u[k] = l.use_default; delta = l.delta; }
  void print(Ref& r, const char* name, const RefScaling* l4, const RefScaling* l8) {
    if (!r.on()) return;
    std::vector<uint32_t> a, b; if (l4) a.assign(l4->list, l4->list + 16); if (l8) b.assign(l8->list, l8->list + 64);
    r.list(name, present); r.list("ScalingList4x4", a); r.list("UseDefaultScalingMatrix4x4Flag", ud4); r.list("ScalingList8x8", b); r.list("UseDefaultScalingMatrix8x8Flag", ud8); r.pi("delta_scale", delta);
  }
};
static void ref_scaling_list(Ref& r, RefScaling& o, uint32_t n) {
  uint32_t last = 8, next = 8; o.use_default = false;
  for (uint32_t j = 0; j < n && !r.bad; j++) {
    if (next != 0) {
      int32_t d = r.se(); r.srange(d, -128, 127); if (r.bad) return; o.delta = d;
      next = (uint32_t)((int32_t)last + d + 256) & 255;
      if (j == 0 && next == 0) o.use_default = true;
    }
    o.list[j] = next == 0 ? last : next;
    last = o.list[j];
  }
}
// what the caller may cut: bounds of one run, everything outside is skipped
struct SpsBound { bool scaling = true, vui = true, scaling_all = false; uint32_t poc_cycle = 255; uint32_t hrd = 31; };
static bool has_chroma_info(uint32_t p) {
  switch (p) { case 100: case 110: case 122: case 244: case 44: case 83: case 86: case 118: case 128: case 138: case 139: case 134: case 135: return true; }
  return false;
}
// 7.3.2.1.1 seq_parameter_set_data()
static void ref_sps_data(Ref& r, const h264nal::H264SpsDataParser::SpsDataState* s, const SpsBound& b) {
  r.open("sps_data");
  U(profile_idc, 8);
  U(constraint_set0_flag, 1); U(constraint_set1_flag, 1); U(constraint_set2_flag, 1);
  U(constraint_set3_flag, 1); U(constraint_set4_flag, 1); U(constraint_set5_flag, 1);
  U(reserved_zero_2bits, 2);
  if (VK_DUMPING && s && r.on()) { std::string p; h264nal::profileTypeToString(s->profile_type, p); r.ps("profile", p.c_str()); }  // C09 decides the name
  U(level_idc, 8);
  UE(seq_parameter_set_id, 0, 31);
  bool ci = !r.bad && has_chroma_info(profile_idc);
  UEC(ci, chroma_format_idc, 0, 3, 1);
  UC(ci && chroma_format_idc == 3, separate_colour_plane_flag, 1, 0);
  UEC(ci, bit_depth_luma_minus8, 0, 6, 0);
  UEC(ci, bit_depth_chroma_minus8, 0, 6, 0);
  UC(ci, qpprime_y_zero_transform_bypass_flag, 1, 0);
  UC(ci, seq_scaling_matrix_present_flag, 1, 0);
  RefMatrix mx;
  if (!r.bad && seq_scaling_matrix_present_flag) {
    if (!b.scaling) vk_skip();
    uint32_t n = chroma_format_idc != 3 ? 8 : 12; RefScaling l4, l8; bool h4 = false, h8 = false;
    for (uint32_t i = 0; i < n && !r.bad; i++) {
      uint32_t f = (uint32_t)r.u(1); VAT(s->seq_scaling_list_present_flag, i, f, "seq_scaling_list_present_flag"); if (VK_DUMPING) mx.present.push_back(f);
      if (r.bad || !f) continue;
      RefScaling& l = i < 6 ? l4 : l8; (i < 6 ? h4 : h8) = true;
      ref_scaling_list(r, l, i < 6 ? 16 : 64); if (VK_DUMPING) mx.add(i, l);
      if (i < 6) VAT(s->UseDefaultScalingMatrix4x4Flag, i, (uint32_t)l.use_default, "UseDefaultScalingMatrix4x4Flag");
      else VAT(s->UseDefaultScalingMatrix8x8Flag, i - 6, (uint32_t)l.use_default, "UseDefaultScalingMatrix8x8Flag");
    }
    VSZ(s->seq_scaling_list_present_flag, n, "seq_scaling_list_present_flag");
    mx.print(r, "seq_scaling_list_present_flag", h4 ? &l4 : nullptr, h8 ? &l8 : nullptr);
    // the state keeps the most recently transmitted list of each size
    if (h4) { VSZ(s->ScalingList4x4, 16, "ScalingList4x4"); for (uint32_t j = 0; j < 16; j++) VAT(s->ScalingList4x4, j, l4.list[j], "ScalingList4x4"); } else VSZ(s->ScalingList4x4, 0, "ScalingList4x4");
    if (h8) { VSZ(s->ScalingList8x8, 64, "ScalingList8x8"); for (uint32_t j = 0; j < 64; j++) VAT(s->ScalingList8x8, j, l8.list[j], "ScalingList8x8"); } else VSZ(s->ScalingList8x8, 0, "ScalingList8x8");
  } else if (ci && VK_DUMPING) mx.print(r, "seq_scaling_list_present_flag", nullptr, nullptr);
  else VSZ(s->seq_scaling_list_present_flag, 0, "seq_scaling_list_present_flag");
  UE(log2_max_frame_num_minus4, 0, 12);
  UE(pic_order_cnt_type, 0, 2);
  UEC(pic_order_cnt_type == 0, log2_max_pic_order_cnt_lsb_minus4, 0, 12, 0);
  bool p1 = pic_order_cnt_type == 1;
  UC(p1, delta_pic_order_always_zero_flag, 1, 0);
  SEC(p1, offset_for_non_ref_pic, SMIN, SMAX, 0);
  SEC(p1, offset_for_top_to_bottom_field, SMIN, SMAX, 0);
  UEC(p1, num_ref_frames_in_pic_order_cnt_cycle, 0, 255, 0);
  if (!r.bad && num_ref_frames_in_pic_order_cnt_cycle > b.poc_cycle) vk_skip();
  std::vector<int32_t> off;
  for (uint32_t i = 0; p1 && !r.bad && i < num_ref_frames_in_pic_order_cnt_cycle; i++) { int32_t v = r.se(); VAT(s->offset_for_ref_frame, i, v, "offset_for_ref_frame"); if (VK_DUMPING) off.push_back(v); }
  if (p1) r.list("offset_for_ref_frame", off);
  VSZ(s->offset_for_ref_frame, num_ref_frames_in_pic_order_cnt_cycle, "offset_for_ref_frame");
  UE(max_num_ref_frames, 0, 16);
  U(gaps_in_frame_num_value_allowed_flag, 1);
  UE(pic_width_in_mbs_minus1, 0, 1055);
  UE(pic_height_in_map_units_minus1, 0, 1055);
  U(frame_mbs_only_flag, 1);
  UC(!frame_mbs_only_flag, mb_adaptive_frame_field_flag, 1, 0);
  U(direct_8x8_inference_flag, 1);
  U(frame_cropping_flag, 1);
  UEC(frame_cropping_flag, frame_crop_left_offset, 0, 16880, 0);
  UEC(frame_cropping_flag, frame_crop_right_offset, 0, 16880, 0);
  UEC(frame_cropping_flag, frame_crop_top_offset, 0, 16880, 0);
  UEC(frame_cropping_flag, frame_crop_bottom_offset, 0, 16880, 0);
  if (frame_cropping_flag && !r.bad) {
    // 7-19..7-22 and Table 6-1
    uint64_t cux = 1, cuy = 1;
    if (!separate_colour_plane_flag) { if (chroma_format_idc == 1) { cux = 2; cuy = 2; } else if (chroma_format_idc == 2) cux = 2; }
    cuy *= 2 - frame_mbs_only_flag;
    uint64_t w = 16ull * (pic_width_in_mbs_minus1 + 1), h = 16ull * (2 - frame_mbs_only_flag) * (pic_height_in_map_units_minus1 + 1);
    if (cux * ((uint64_t)frame_crop_left_offset + frame_crop_right_offset) >= w || cuy * ((uint64_t)frame_crop_top_offset + frame_crop_bottom_offset) >= h) r.bad = true;
  }
  U(vui_parameters_present_flag, 1);
  if (s && !r.bad) vk_assert((s->vui_parameters != nullptr) == (vui_parameters_present_flag == 1), "vui_parameters presence");
  if (!r.bad && vui_parameters_present_flag) { if (!b.vui) vk_skip(); r.sep(); ref_vui(r, s ? s->vui_parameters.get() : nullptr, b.hrd); }
  if (VK_DUMPING && g_add_resolution && s && r.on()) { int w = -1, h = -1; s->getResolution(&w, &h); r.pi("width", w); r.pi("height", h); }  // C09 decides the values
  r.close();
}
