#pragma once
#include "h264_pps_parser.h"
#include "ref_sps.h"
static uint32_t ceil_log2(uint64_t v) { uint32_t n = 0; while (n < 63 && (1ull << n) < v) n++; return n; }
// 7.3.2.2 pic_parameter_set_rbsp(), up to rbsp_trailing_bits()
static void ref_pps(Ref& r, const h264nal::H264PpsParser::PpsState* s, uint32_t chroma_format_idc) {
  VEQ(s->chroma_format_idc, chroma_format_idc, "chroma_format_idc");
  r.open("pps"); std::vector<uint32_t> rl, tl, br, id;
  UE(pic_parameter_set_id, 0, 255);
  UE(seq_parameter_set_id, 0, 31);
  U(entropy_coding_mode_flag, 1);
  U(bottom_field_pic_order_in_frame_present_flag, 1);
  UE(num_slice_groups_minus1, 0, 7);
  bool g = !r.bad && num_slice_groups_minus1 > 0;
  UEC(g, slice_group_map_type, 0, 6, 0);
  uint32_t nrl = 0, ntl = 0, nid = 0;
  if (g && !r.bad && slice_group_map_type == 0) for (nrl = 0; !r.bad && nrl <= num_slice_groups_minus1; nrl++) { uint32_t v = r.ue(); VAT(s->run_length_minus1, nrl, v, "run_length_minus1"); if (VK_DUMPING) rl.push_back(v); }
  if (g && !r.bad && slice_group_map_type == 2) for (ntl = 0; !r.bad && ntl < num_slice_groups_minus1; ntl++) {
    uint32_t v = r.ue(); VAT(s->top_left, ntl, v, "top_left"); if (VK_DUMPING) tl.push_back(v);
    v = r.ue(); VAT(s->bottom_right, ntl, v, "bottom_right"); if (VK_DUMPING) br.push_back(v);
  }
  if (g && VK_DUMPING) { if (slice_group_map_type == 0) r.list("run_length_minus1", rl); if (slice_group_map_type == 2) { r.list("top_left", tl); r.list("bottom_right", br); } }
  bool ch = g && (slice_group_map_type == 3 || slice_group_map_type == 4 || slice_group_map_type == 5);
  UC(ch, slice_group_change_direction_flag, 1, 0);
  UEC(ch, slice_group_change_rate_minus1, 0, 0xfffffffeull, 0);
  bool six = g && slice_group_map_type == 6;
  UEC(six, pic_size_in_map_units_minus1, 0, 139263, 0);
  if (six && !r.bad) {
    uint32_t len = (uint32_t)vk_concretize(ceil_log2(num_slice_groups_minus1 + 1));
    for (nid = 0; !r.bad && nid <= pic_size_in_map_units_minus1; nid++) { uint32_t v = (uint32_t)r.u(len); VAT(s->slice_group_id, nid, v, "slice_group_id"); if (VK_DUMPING) id.push_back(v); }
    r.list("slice_group_id", id);
  }
  VSZ(s->run_length_minus1, nrl, "run_length_minus1");
  VSZ(s->top_left, ntl, "top_left"); VSZ(s->bottom_right, ntl, "bottom_right");
  VSZ(s->slice_group_id, nid, "slice_group_id");
  UE(num_ref_idx_l0_default_active_minus1, 0, 31);
  UE(num_ref_idx_l1_default_active_minus1, 0, 31);
  U(weighted_pred_flag, 1);
  U(weighted_bipred_idc, 2);
  SE(pic_init_qp_minus26, SMIN, SMAX);
  SE(pic_init_qs_minus26, SMIN, SMAX);
  SE(chroma_qp_index_offset, SMIN, SMAX);
  U(deblocking_filter_control_present_flag, 1);
  U(constrained_intra_pred_flag, 1);
  U(redundant_pic_cnt_present_flag, 1);
  if (r.bad) return;
  bool more = r.more();
  UCA(more, transform_8x8_mode_flag, 1, 0);
  UCA(more, pic_scaling_matrix_present_flag, 1, 0); RefMatrix mx;
  if (!r.bad && pic_scaling_matrix_present_flag) {
    uint32_t n = 6 + (transform_8x8_mode_flag ? (chroma_format_idc != 3 ? 2 : 6) : 0); RefScaling l4, l8; bool h4 = false, h8 = false;
    for (uint32_t i = 0; i < n && !r.bad; i++) {
      uint32_t f = (uint32_t)r.u(1); VAT(s->pic_scaling_list_present_flag, i, f, "pic_scaling_list_present_flag"); if (VK_DUMPING) mx.present.push_back(f);
      if (r.bad || !f) continue;
      RefScaling& l = i < 6 ? l4 : l8; (i < 6 ? h4 : h8) = true;
      ref_scaling_list(r, l, i < 6 ? 16 : 64); if (VK_DUMPING) mx.add(i, l);
      if (i < 6) VAT(s->UseDefaultScalingMatrix4x4Flag, i, (uint32_t)l.use_default, "UseDefaultScalingMatrix4x4Flag");
      else VAT(s->UseDefaultScalingMatrix8x8Flag, i - 6, (uint32_t)l.use_default, "UseDefaultScalingMatrix8x8Flag");
    }
    VSZ(s->pic_scaling_list_present_flag, n, "pic_scaling_list_present_flag");
    if (h4) { VSZ(s->ScalingList4x4, 16, "ScalingList4x4"); for (uint32_t j = 0; j < 16; j++) VAT(s->ScalingList4x4, j, l4.list[j], "ScalingList4x4"); } else VSZ(s->ScalingList4x4, 0, "ScalingList4x4");
    if (h8) { VSZ(s->ScalingList8x8, 64, "ScalingList8x8"); for (uint32_t j = 0; j < 64; j++) VAT(s->ScalingList8x8, j, l8.list[j], "ScalingList8x8"); } else VSZ(s->ScalingList8x8, 0, "ScalingList8x8");
    mx.print(r, "pic_scaling_list_present_flag", h4 ? &l4 : nullptr, h8 ? &l8 : nullptr);
  } else if (VK_DUMPING) mx.print(r, "pic_scaling_list_present_flag", nullptr, nullptr);
  else VSZ(s->pic_scaling_list_present_flag, 0, "pic_scaling_list_present_flag");
  int32_t sc = more ? r.se() : chroma_qp_index_offset; r.pi("second_chroma_qp_index_offset", sc); r.close();
  VEQ(s->second_chroma_qp_index_offset, sc, "second_chroma_qp_index_offset");
}
