// Annex G syntax, written from the standard
#pragma once
#include "ref_slice.h"
#include "h264_nal_unit_header_parser.h"
#include "h264_nal_unit_header_svc_extension_parser.h"
#include "h264_sps_svc_extension_parser.h"
#include "h264_subset_sps_parser.h"
#include "h264_prefix_nal_unit_parser.h"
#include "h264_slice_header_in_scalable_extension_parser.h"
#include "h264_slice_layer_extension_rbsp_parser.h"
#include "h264_sps_extension_parser.h"
// G.7.3.1.1
static void ref_svc_header(Ref& r, const h264nal::H264NalUnitHeaderSvcExtensionParser::NalUnitHeaderSvcExtensionState* s) {
  r.open("nal_unit_header_svc_extension");
  U(idr_flag, 1); U(priority_id, 6); U(no_inter_layer_pred_flag, 1); U(dependency_id, 3); U(quality_id, 4); U(temporal_id, 3); U(use_ref_base_pic_flag, 1); U(discardable_flag, 1); U(output_flag, 1); U(reserved_three_2bits, 2);
  r.close();
}
// 7.3.1; MVC and 3D-AVC header extensions are not supported and given up
static void ref_nal_header(Ref& r, const h264nal::H264NalUnitHeaderParser::NalUnitHeaderState* s) {
  r.open("nal_unit_header");
  U(forbidden_zero_bit, 1); U(nal_ref_idc, 2); U(nal_unit_type, 5);
  bool ext = nal_unit_type == 14 || nal_unit_type == 20 || nal_unit_type == 21;
  UC(ext && nal_unit_type != 21, svc_extension_flag, 1, 0);
  UC(ext && nal_unit_type == 21, avc_3d_extension_flag, 1, 0);
  if (ext && !svc_extension_flag) r.unsupported();
  if (s && !r.bad) vk_assert((s->nal_unit_header_svc_extension != nullptr) == (svc_extension_flag == 1), "svc extension header present exactly when signalled");
  if (svc_extension_flag && !r.bad) { r.sep(); ref_svc_header(r, s ? s->nal_unit_header_svc_extension.get() : nullptr); }
  r.close();
}
// G.7.3.2.1.4
static void ref_sps_svc(Ref& r, const h264nal::H264SpsSvcExtensionParser::SpsSvcExtensionState* s, uint32_t cat) {
  r.open("seq_parameter_set_svc_extension");
  U(inter_layer_deblocking_filter_control_present_flag, 1); U(extended_spatial_scalability_idc, 2);
  if (cat == 1 || cat == 2) { U(chroma_phase_x_plus1_flag, 1); }
  if (cat == 1) { U(chroma_phase_y_plus1, 2); }
  if (!r.bad && extended_spatial_scalability_idc == 1) {
    if (cat > 0) { U(seq_ref_layer_chroma_phase_x_plus1_flag, 1); U(seq_ref_layer_chroma_phase_y_plus1, 2); }
    SE(seq_scaled_ref_layer_left_offset, SMIN, SMAX); SE(seq_scaled_ref_layer_top_offset, SMIN, SMAX); SE(seq_scaled_ref_layer_right_offset, SMIN, SMAX); SE(seq_scaled_ref_layer_bottom_offset, SMIN, SMAX);
  }
  U(seq_tcoeff_level_prediction_flag, 1); UC(seq_tcoeff_level_prediction_flag, adaptive_tcoeff_level_prediction_flag, 1, 0);
  U(slice_header_restriction_flag, 1);
  r.close();
}
// 7.3.2.1.2 (without rbsp_trailing_bits)
static void ref_sps_ext(Ref& r, const h264nal::H264SpsExtensionParser::SpsExtensionState* s) {
  r.open("sps_extension");
  UE(seq_parameter_set_id, 0, 31); UE(aux_format_idc, 0, NOMAX);
  bool x = !r.bad && aux_format_idc != 0;
  UEC(x, bit_depth_aux_minus8, 0, 4, 0); if (r.bad) return;
  UC(x, alpha_incr_flag, 1, 0); unsigned n = x ? (unsigned)vk_concretize(bit_depth_aux_minus8 + 9) : 9;
  UC(x, alpha_opaque_value, n, 0); UC(x, alpha_transparent_value, n, 0);
  U(additional_extension_flag, 1);
  r.close();
}
struct ActiveSvc { uint32_t idr_flag = 0, no_inter_layer_pred_flag = 1, quality_id = 0, use_ref_base_pic_flag = 0, slice_header_restriction_flag = 1, inter_layer_deblocking_filter_control_present_flag = 0, extended_spatial_scalability_idc = 0, adaptive_tcoeff_level_prediction_flag = 0; };
static std::shared_ptr<h264nal::H264SubsetSpsParser::SubsetSpsState> mk_ssps(const Active& a, const ActiveSvc& v, uint32_t id, bool svc = true) {
  auto t = mk_sps(a, id); auto s = std::make_shared<h264nal::H264SubsetSpsParser::SubsetSpsState>(); s->seq_parameter_set_data = std::move(t->sps_data); s->seq_parameter_set_data->profile_idc = 83;
  if (svc) {
    s->seq_parameter_set_svc_extension = std::make_unique<h264nal::H264SpsSvcExtensionParser::SpsSvcExtensionState>(); auto& e = *s->seq_parameter_set_svc_extension;
    e.slice_header_restriction_flag = v.slice_header_restriction_flag; e.inter_layer_deblocking_filter_control_present_flag = v.inter_layer_deblocking_filter_control_present_flag; e.extended_spatial_scalability_idc = v.extended_spatial_scalability_idc; e.adaptive_tcoeff_level_prediction_flag = v.adaptive_tcoeff_level_prediction_flag;
    e.seq_tcoeff_level_prediction_flag = v.adaptive_tcoeff_level_prediction_flag;
  }
  return s;
}
static void mk_header(h264nal::H264NalUnitHeaderParser::NalUnitHeaderState& h, const ActiveSvc& v, uint32_t ref_idc, uint32_t type = 20) {
  h.nal_ref_idc = ref_idc; h.nal_unit_type = type; h.svc_extension_flag = 1; h.nal_unit_header_svc_extension = std::make_unique<h264nal::H264NalUnitHeaderSvcExtensionParser::NalUnitHeaderSvcExtensionState>(); auto& e = *h.nal_unit_header_svc_extension;
  e.idr_flag = v.idr_flag; e.no_inter_layer_pred_flag = v.no_inter_layer_pred_flag; e.quality_id = v.quality_id; e.use_ref_base_pic_flag = v.use_ref_base_pic_flag;
}
// G.7.3.3.4.  dec_ref_base_pic_marking() is not supported and given up
template <class F> static void ref_shise(Ref& r, h264nal::H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState* s, uint32_t nal_ref_idc, const ActiveSvc& v, F pick) {
  r.open("slice_header_in_scalable_extension");
  UE(first_mb_in_slice, 0, 139263); UE(slice_type, 0, 9); UE(pic_parameter_set_id, 0, 255);
  if (r.bad) return;
  const Active* a = pick(pic_parameter_set_id); if (!a) { r.bad = true; return; }
  uint32_t k = (uint32_t)vk_concretize(slice_type); k = k >= 5 ? k - 5 : k; if (k > 2) vk_skip();  // only EP, EB and EI exist in Annex G
  bool P = k == 0, B = k == 1, I = k == 2, idr = v.idr_flag;
  UC(a->separate_colour_plane_flag, colour_plane_id, 2, 0);
  U(frame_num, (unsigned)vk_concretize(a->log2_max_frame_num_minus4 + 4));
  UC(!a->frame_mbs_only_flag, field_pic_flag, 1, 0); UC(field_pic_flag, bottom_field_flag, 1, 0);
  UEC(idr, idr_pic_id, 0, 65535, 0);
  UC(a->pic_order_cnt_type == 0, pic_order_cnt_lsb, (unsigned)vk_concretize(a->log2_max_pic_order_cnt_lsb_minus4 + 4), 0);
  SEC(a->pic_order_cnt_type == 0 && a->bottom_field_pic_order_in_frame_present_flag && !field_pic_flag, delta_pic_order_cnt_bottom, SMIN, SMAX, 0);
  { size_t n = 0;
    if (a->pic_order_cnt_type == 1 && !a->delta_pic_order_always_zero_flag) {
      int32_t d0 = r.se(); VAT(s->delta_pic_order_cnt, 0, d0, "delta_pic_order_cnt"); n = 1; std::vector<int32_t> dl; if (VK_DUMPING) dl.push_back(d0);
      if (a->bottom_field_pic_order_in_frame_present_flag && !field_pic_flag) { int32_t d1 = r.se(); VAT(s->delta_pic_order_cnt, 1, d1, "delta_pic_order_cnt"); n = 2; if (VK_DUMPING) dl.push_back(d1); }
      r.list("delta_pic_order_cnt", dl);
    }
    VSZ(s->delta_pic_order_cnt, n, "delta_pic_order_cnt"); }
  UEC(a->redundant_pic_cnt_present_flag, redundant_pic_cnt, 0, 127, 0);
  bool q0 = v.quality_id == 0;
  UC(q0 && B, direct_spatial_mv_pred_flag, 1, 0);
  UC(q0 && (P || B), num_ref_idx_active_override_flag, 1, 0);
  uint32_t n0 = a->l0_default, n1 = a->l1_default;
  if (num_ref_idx_active_override_flag) { n0 = r.ue(); r.range(n0, 0, 31); r.pu("num_ref_idx_l0_active_minus1", n0); if (B) { n1 = r.ue(); r.range(n1, 0, 31); r.pu("num_ref_idx_l1_active_minus1", n1); } }
  if (q0 && (P || B)) VEQ(s->num_ref_idx_l0_active_minus1, n0, "num_ref_idx_l0_active_minus1");
  if (q0 && B) VEQ(s->num_ref_idx_l1_active_minus1, n1, "num_ref_idx_l1_active_minus1");
  if (r.bad) return;
  if (s) vk_assert((s->ref_pic_list_modification != nullptr) == q0, "ref_pic_list_modification present exactly in quality layer 0");
  if (q0) { r.sep(); ref_rplm(r, s ? s->ref_pic_list_modification.get() : nullptr, slice_type); if (r.bad) return; }
  bool wp = q0 && ((a->weighted_pred_flag && P) || (a->weighted_bipred_idc == 1 && B));
  UC(wp && !v.no_inter_layer_pred_flag, base_pred_weight_table_flag, 1, 0); if (r.bad) return;
  bool pwt = wp && (v.no_inter_layer_pred_flag || !base_pred_weight_table_flag);
  if (s) vk_assert((s->pred_weight_table != nullptr) == pwt, "pred_weight_table present exactly when signalled");
  if (pwt) { r.sep(); ref_pwt(r, s ? s->pred_weight_table.get() : nullptr, a->separate_colour_plane_flag ? 0 : a->chroma_format_idc, slice_type, n0, n1); if (r.bad) return; }
  bool mark = q0 && nal_ref_idc != 0;
  if (s) vk_assert((s->dec_ref_pic_marking != nullptr) == mark, "dec_ref_pic_marking present exactly in quality layer 0 reference slices");
  if (mark) { r.sep(); ref_drpm(r, s ? s->dec_ref_pic_marking.get() : nullptr, idr); if (r.bad) return; }
  UC(mark && !v.slice_header_restriction_flag, store_ref_base_pic_flag, 1, 0);
  if (!r.bad && mark && !v.slice_header_restriction_flag && (v.use_ref_base_pic_flag || store_ref_base_pic_flag) && !idr) { r.unsupported(); return; }
  UEC(a->entropy_coding_mode_flag && !I, cabac_init_idc, 0, 2, 0);
  SE(slice_qp_delta, SMIN, SMAX);
  UEC(a->deblocking_filter_control_present_flag, disable_deblocking_filter_idc, 0, 6, 0);
  bool off = a->deblocking_filter_control_present_flag && disable_deblocking_filter_idc != 1;
  SEC(off, slice_alpha_c0_offset_div2, SMIN, SMAX, 0); SEC(off, slice_beta_offset_div2, SMIN, SMAX, 0);
  UC(a->num_slice_groups_minus1 > 0 && a->slice_group_map_type >= 3 && a->slice_group_map_type <= 5, slice_group_change_cycle, (unsigned)vk_concretize(cycle_len(*a)), 0);
  bool il = !v.no_inter_layer_pred_flag, l0 = il && q0;
  UEC(l0, ref_layer_dq_id, 0, NOMAX, 0);
  bool ild = l0 && v.inter_layer_deblocking_filter_control_present_flag;
  UEC(ild, disable_inter_layer_deblocking_filter_idc, 0, NOMAX, 0);
  SEC(ild && disable_inter_layer_deblocking_filter_idc != 1, inter_layer_slice_alpha_c0_offset_div2, SMIN, SMAX, 0); SEC(ild && disable_inter_layer_deblocking_filter_idc != 1, inter_layer_slice_beta_offset_div2, SMIN, SMAX, 0);
  UC(l0, constrained_intra_resampling_flag, 1, 0);
  bool ess = l0 && v.extended_spatial_scalability_idc == 2;
  if (ess && !a->separate_colour_plane_flag && a->chroma_format_idc > 0) { U(ref_layer_chroma_phase_x_plus1_flag, 1); U(ref_layer_chroma_phase_y_plus1, 2); }
  SEC(ess, scaled_ref_layer_left_offset, SMIN, SMAX, 0); SEC(ess, scaled_ref_layer_top_offset, SMIN, SMAX, 0); SEC(ess, scaled_ref_layer_right_offset, SMIN, SMAX, 0); SEC(ess, scaled_ref_layer_bottom_offset, SMIN, SMAX, 0);
  UC(il, slice_skip_flag, 1, 0); UEC(slice_skip_flag, num_mbs_in_slice_minus1, 0, NOMAX, 0);
  bool mo = il && !slice_skip_flag;
  UC(mo, adaptive_base_mode_flag, 1, 0); UC(mo && !adaptive_base_mode_flag, default_base_mode_flag, 1, 0);
  UC(mo && !default_base_mode_flag, adaptive_motion_prediction_flag, 1, 0); UC(mo && !default_base_mode_flag && !adaptive_motion_prediction_flag, default_motion_prediction_flag, 1, 0);
  UC(mo, adaptive_residual_prediction_flag, 1, 0); UC(mo && !adaptive_residual_prediction_flag, default_residual_prediction_flag, 1, 0);
  UC(il && v.adaptive_tcoeff_level_prediction_flag, tcoeff_level_prediction_flag, 1, 0);
  bool sc = !v.slice_header_restriction_flag && !slice_skip_flag;
  if (sc) { U(scan_idx_start, 4); U(scan_idx_end, 4); }
  r.close();
}
