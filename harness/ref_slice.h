// 7.3.3 slice_header() and its parts, written from the standard
#pragma once
#include "vk.h"
#include "h264_common.h"
#include "h264_bitstream_parser_state.h"
#include "h264_slice_header_parser.h"
#include "h264_ref_pic_list_modification_parser.h"
#include "h264_dec_ref_pic_marking_parser.h"
#include "h264_pred_weight_table_parser.h"

// 7.3.3.1; slice type classes: 0 P 1 B 2 I 3 SP 4 SI (modulo 5)
static void ref_rplm(Ref& r, h264nal::H264RefPicListModificationParser::RefPicListModificationState* s, uint32_t slice_type, bool svc = false) {
  uint32_t k = slice_type >= 5 ? slice_type - 5 : slice_type; size_t n = 0, na = 0, nl = 0; std::vector<uint32_t> vi, va, vl; r.open("ref_pic_list_modification");
  auto list = [&]() {
    for (;;) {
      uint32_t idc = r.ue(); r.range(idc, 0, 3); if (r.bad) return;
      if (s) VAT(s->modification_of_pic_nums_idc, n, idc, "modification_of_pic_nums_idc"); if (VK_DUMPING) vi.push_back(idc); n++;
      if (idc == 3) return;
      uint32_t v = r.ue(); if (r.bad) return;
      if (idc == 2) { if (s) VAT(s->long_term_pic_num, nl, v, "long_term_pic_num"); if (VK_DUMPING) vl.push_back(v); nl++; }
      else { if (s) VAT(s->abs_diff_pic_num_minus1, na, v, "abs_diff_pic_num_minus1"); if (VK_DUMPING) va.push_back(v); na++; }
    }
  };
  UCA(k != 2 && k != 4, ref_pic_list_modification_flag_l0, 1, 0);
  if (ref_pic_list_modification_flag_l0) list();
  UCA(k == 1, ref_pic_list_modification_flag_l1, 1, 0);
  if (ref_pic_list_modification_flag_l1) list();
  if (VK_DUMPING) { if (n) r.list("modification_of_pic_nums_idc", vi); if (na) r.list("abs_diff_pic_num_minus1", va); if (nl) r.list("long_term_pic_num", vl); r.close(); }
  VSZ(s->modification_of_pic_nums_idc, n, "modification_of_pic_nums_idc"); VSZ(s->abs_diff_pic_num_minus1, na, "abs_diff_pic_num_minus1"); VSZ(s->long_term_pic_num, nl, "long_term_pic_num");
}
// 7.3.3.3
static void ref_drpm(Ref& r, h264nal::H264DecRefPicMarkingParser::DecRefPicMarkingState* s, bool idr) {
  r.open("dec_ref_pic_marking"); std::vector<uint32_t> vo, vd, vl, vf, vm;
  UC(idr, no_output_of_prior_pics_flag, 1, 0); UC(idr, long_term_reference_flag, 1, 0);
  UC(!idr, adaptive_ref_pic_marking_mode_flag, 1, 0);
  size_t n = 0, nd = 0, nl = 0, nf = 0, nm = 0;
  while (adaptive_ref_pic_marking_mode_flag) {
    uint32_t op = r.ue(); r.range(op, 0, 6); if (r.bad) return;
    VAT(s->memory_management_control_operation, n, op, "memory_management_control_operation"); if (VK_DUMPING) vo.push_back(op); n++;
    if (op == 1 || op == 3) { uint32_t v = r.ue(); VAT(s->difference_of_pic_nums_minus1, nd, v, "difference_of_pic_nums_minus1"); if (VK_DUMPING) vd.push_back(v); nd++; }
    if (op == 2) { uint32_t v = r.ue(); VAT(s->long_term_pic_num, nl, v, "mmco long_term_pic_num"); if (VK_DUMPING) vl.push_back(v); nl++; }
    if (op == 3 || op == 6) { uint32_t v = r.ue(); VAT(s->long_term_frame_idx, nf, v, "long_term_frame_idx"); if (VK_DUMPING) vf.push_back(v); nf++; }
    if (op == 4) { uint32_t v = r.ue(); VAT(s->max_long_term_frame_idx_plus1, nm, v, "max_long_term_frame_idx_plus1"); if (VK_DUMPING) vm.push_back(v); nm++; }
    if (r.bad || op == 0) break;
  }
  if (VK_DUMPING) { if (adaptive_ref_pic_marking_mode_flag) { r.list("memory_management_control_operation", vo); r.list("difference_of_pic_nums_minus1", vd); r.list("long_term_pic_num", vl); r.list("long_term_frame_idx", vf); r.list("max_long_term_frame_idx_plus1", vm); } r.close(); }
  VSZ(s->memory_management_control_operation, n, "memory_management_control_operation"); VSZ(s->difference_of_pic_nums_minus1, nd, "difference_of_pic_nums_minus1");
  VSZ(s->long_term_pic_num, nl, "mmco long_term_pic_num"); VSZ(s->long_term_frame_idx, nf, "long_term_frame_idx"); VSZ(s->max_long_term_frame_idx_plus1, nm, "max_long_term_frame_idx_plus1");
}
// 7.3.3.2; the state keeps the transmitted weights, in order, per list
static void ref_pwt(Ref& r, h264nal::H264PredWeightTableParser::PredWeightTableState* s, uint32_t cat, uint32_t slice_type, uint32_t n0, uint32_t n1) {
  r.open("pred_weight_table");
  UE(luma_log2_weight_denom, 0, 7); UEC(cat != 0, chroma_log2_weight_denom, 0, 7, 0);
  typedef std::vector<uint32_t> V; typedef std::vector<int32_t> W; typedef std::vector<std::vector<int32_t>> WW;
  auto list = [&](bool l1, uint32_t n, V* lf, W* lw, W* lo, V* cf, WW* cw, WW* co) {
    size_t nl = 0, nc = 0; uint32_t i = 0; V df, dc; W dw, dof; WW dcw, dco;
    for (;; i++) {
      uint32_t f = (uint32_t)r.u(1); if (r.bad) return; if (s) VAT(*lf, i, f, "luma_weight_flag"); if (VK_DUMPING) df.push_back(f);
      if (f) { int32_t w = r.se(); if (s) VAT(*lw, nl, w, "luma_weight"); int32_t o = r.se(); if (s) VAT(*lo, nl, o, "luma_offset"); if (VK_DUMPING) { dw.push_back(w); dof.push_back(o); } nl++; }
      if (cat != 0) {
        uint32_t c = (uint32_t)r.u(1); if (r.bad) return; if (s) VAT(*cf, i, c, "chroma_weight_flag"); if (VK_DUMPING) dc.push_back(c);
        if (c) {
          W pw, po;
          for (int j = 0; j < 2; j++) {
            int32_t w = r.se(), o = r.se(); if (r.bad) return; if (VK_DUMPING) { pw.push_back(w); po.push_back(o); }
            if (s) { vk_assert(nc < cw->size() && nc < co->size(), "chroma weights: list length"); VAT((*cw)[nc], j, w, "chroma_weight"); VAT((*co)[nc], j, o, "chroma_offset"); }
          }
          if (s) { VSZ((*cw)[nc], 2, "chroma_weight"); VSZ((*co)[nc], 2, "chroma_offset"); }
          if (VK_DUMPING) { dcw.push_back(pw); dco.push_back(po); }
          nc++;
        }
      }
      if (i >= n) break;
    }
    if (VK_DUMPING) {
      r.list(l1 ? "luma_weight_l1_flag" : "luma_weight_l0_flag", df); r.list(l1 ? "luma_weight_l1" : "luma_weight_l0", dw); r.list(l1 ? "luma_offset_l1" : "luma_offset_l0", dof);
      if (cat != 0) { r.list(l1 ? "chroma_weight_l1_flag" : "chroma_weight_l0_flag", dc); r.list(l1 ? "chroma_weight_l1" : "chroma_weight_l0", dcw); r.list(l1 ? "chroma_offset_l1" : "chroma_offset_l0", dco); }
    }
    if (s) { VSZ(*lf, i + 1, "luma_weight_flag"); VSZ(*lw, nl, "luma_weight"); VSZ(*lo, nl, "luma_offset"); VSZ(*cf, cat != 0 ? i + 1 : 0, "chroma_weight_flag"); VSZ(*cw, nc, "chroma_weight"); VSZ(*co, nc, "chroma_offset"); }
  };
  bool B = slice_type == 1 || slice_type == 6;
  list(false, n0, s ? &s->luma_weight_l0_flag : nullptr, s ? &s->luma_weight_l0 : nullptr, s ? &s->luma_offset_l0 : nullptr, s ? &s->chroma_weight_l0_flag : nullptr, s ? &s->chroma_weight_l0 : nullptr, s ? &s->chroma_offset_l0 : nullptr);
  if (r.bad) return;
  if (B) list(true, n1, s ? &s->luma_weight_l1_flag : nullptr, s ? &s->luma_weight_l1 : nullptr, s ? &s->luma_offset_l1 : nullptr, s ? &s->chroma_weight_l1_flag : nullptr, s ? &s->chroma_weight_l1 : nullptr, s ? &s->chroma_offset_l1 : nullptr);
  else if (s && !r.bad) vk_assert(s->luma_weight_l1_flag.empty() && s->luma_weight_l1.empty() && s->chroma_weight_l1_flag.empty() && s->chroma_weight_l1.empty(), "no list 1 weights outside B slices");
  r.close();
}
// what slice_header() needs to know of the active parameter sets
struct Active {
  uint32_t separate_colour_plane_flag = 0, chroma_format_idc = 1, log2_max_frame_num_minus4 = 0, frame_mbs_only_flag = 1, pic_order_cnt_type = 2, log2_max_pic_order_cnt_lsb_minus4 = 0, delta_pic_order_always_zero_flag = 0;
  uint32_t bit_depth_luma_minus8 = 0, pic_width_in_mbs_minus1 = 0, pic_height_in_map_units_minus1 = 0;
  uint32_t bottom_field_pic_order_in_frame_present_flag = 0, redundant_pic_cnt_present_flag = 0, l0_default = 0, l1_default = 0, weighted_pred_flag = 0, weighted_bipred_idc = 0, entropy_coding_mode_flag = 0, deblocking_filter_control_present_flag = 0;
  uint32_t num_slice_groups_minus1 = 0, slice_group_map_type = 0, slice_group_change_rate_minus1 = 0;
};
static std::shared_ptr<h264nal::H264SpsParser::SpsState> mk_sps(const Active& a, uint32_t id) {
  auto s = std::make_shared<h264nal::H264SpsParser::SpsState>(); s->sps_data = std::make_unique<h264nal::H264SpsDataParser::SpsDataState>();
  auto& d = *s->sps_data; d.seq_parameter_set_id = id; d.profile_idc = 100; d.separate_colour_plane_flag = a.separate_colour_plane_flag; d.chroma_format_idc = a.chroma_format_idc; d.log2_max_frame_num_minus4 = a.log2_max_frame_num_minus4;
  d.frame_mbs_only_flag = a.frame_mbs_only_flag; d.pic_order_cnt_type = a.pic_order_cnt_type; d.log2_max_pic_order_cnt_lsb_minus4 = a.log2_max_pic_order_cnt_lsb_minus4; d.delta_pic_order_always_zero_flag = a.delta_pic_order_always_zero_flag;
  d.bit_depth_luma_minus8 = a.bit_depth_luma_minus8; d.pic_width_in_mbs_minus1 = a.pic_width_in_mbs_minus1; d.pic_height_in_map_units_minus1 = a.pic_height_in_map_units_minus1;
  return s;
}
static std::shared_ptr<h264nal::H264PpsParser::PpsState> mk_pps(const Active& a, uint32_t id, uint32_t sps) {
  auto p = std::make_shared<h264nal::H264PpsParser::PpsState>(); p->pic_parameter_set_id = id; p->seq_parameter_set_id = sps;
  p->bottom_field_pic_order_in_frame_present_flag = a.bottom_field_pic_order_in_frame_present_flag; p->redundant_pic_cnt_present_flag = a.redundant_pic_cnt_present_flag; p->num_ref_idx_l0_default_active_minus1 = a.l0_default; p->num_ref_idx_l1_default_active_minus1 = a.l1_default;
  p->weighted_pred_flag = a.weighted_pred_flag; p->weighted_bipred_idc = a.weighted_bipred_idc; p->entropy_coding_mode_flag = a.entropy_coding_mode_flag; p->deblocking_filter_control_present_flag = a.deblocking_filter_control_present_flag;
  p->num_slice_groups_minus1 = a.num_slice_groups_minus1; p->slice_group_map_type = a.slice_group_map_type; p->slice_group_change_rate_minus1 = a.slice_group_change_rate_minus1;
  return p;
}
// Ceil(Log2(PicSizeInMapUnits / SliceGroupChangeRate + 1)), exact
static unsigned cycle_len(const Active& a) {
  uint64_t P = (uint64_t)(a.pic_width_in_mbs_minus1 + 1) * (a.pic_height_in_map_units_minus1 + 1), R = (uint64_t)a.slice_group_change_rate_minus1 + 1; unsigned n = 0;
  while ((R << n) < P + R) n++;
  return n;
}
struct SliceRef { uint32_t type, n0, n1; };
// `pick` maps a pic_parameter_set_id to the active parameter sets, or nullptr
template <class F> static void ref_slice_header(Ref& r, h264nal::H264SliceHeaderParser::SliceHeaderState* s, uint32_t nal_ref_idc, uint32_t nal_unit_type, F pick) {
  r.open("slice_header");
  UE(first_mb_in_slice, 0, 139263); UE(slice_type, 0, 9); UE(pic_parameter_set_id, 0, 255);
  if (r.bad) return;
  const Active* a = pick(pic_parameter_set_id); if (!a) { r.bad = true; return; }
  uint32_t k = (uint32_t)vk_concretize(slice_type); k = k >= 5 ? k - 5 : k; bool P = k == 0, B = k == 1, I = k == 2, SP = k == 3, SI = k == 4, idr = nal_unit_type == 5;
  UC(a->separate_colour_plane_flag, colour_plane_id, 2, 0);
  U(frame_num, (unsigned)vk_concretize(a->log2_max_frame_num_minus4 + 4));
  UC(!a->frame_mbs_only_flag, field_pic_flag, 1, 0); UC(field_pic_flag, bottom_field_flag, 1, 0);
  UEC(idr, idr_pic_id, 0, 65535, 0);
  UC(a->pic_order_cnt_type == 0, pic_order_cnt_lsb, (unsigned)vk_concretize(a->log2_max_pic_order_cnt_lsb_minus4 + 4), 0);
  SEC(a->pic_order_cnt_type == 0 && a->bottom_field_pic_order_in_frame_present_flag && !field_pic_flag, delta_pic_order_cnt_bottom, SMIN, SMAX, 0);
  { size_t n = 0;
    if (a->pic_order_cnt_type == 1 && !a->delta_pic_order_always_zero_flag) {
      int32_t d0 = r.se(); VAT(s->delta_pic_order_cnt, 0, d0, "delta_pic_order_cnt"); n = 1; std::vector<int32_t> dl; if (VK_DUMPING) dl.push_back(d0);
      if (a->bottom_field_pic_order_in_frame_present_flag && !field_pic_flag) { int32_t d1 = r.se(); VAT(s->delta_pic_order_cnt, 1, d1, "delta_pic_order_cnt"); n = 2; if (VK_DUMPING) dl.push_back(d1); }
      r.list("delta_pic_order_cnt", dl);
    }
    VSZ(s->delta_pic_order_cnt, n, "delta_pic_order_cnt"); }
  UEC(a->redundant_pic_cnt_present_flag, redundant_pic_cnt, 0, 127, 0);
  UC(B, direct_spatial_mv_pred_flag, 1, 0);
  UC(P || SP || B, num_ref_idx_active_override_flag, 1, 0);
  uint32_t n0 = a->l0_default, n1 = a->l1_default;
  if (num_ref_idx_active_override_flag) { n0 = r.ue(); r.range(n0, 0, 31); r.pu("num_ref_idx_l0_active_minus1", n0); if (B) { n1 = r.ue(); r.range(n1, 0, 31); r.pu("num_ref_idx_l1_active_minus1", n1); } }
  if (P || SP || B) VEQ(s->num_ref_idx_l0_active_minus1, n0, "num_ref_idx_l0_active_minus1");
  if (B) VEQ(s->num_ref_idx_l1_active_minus1, n1, "num_ref_idx_l1_active_minus1");
  if (r.bad) return;
  if (nal_unit_type == 20 || nal_unit_type == 21) { r.unsupported(); return; }  // ref_pic_list_mvc_modification(): not supported, given up
  if (s) vk_assert(s->ref_pic_list_modification != nullptr, "ref_pic_list_modification present");
  r.sep(); ref_rplm(r, s ? s->ref_pic_list_modification.get() : nullptr, slice_type); if (r.bad) return;
  bool pwt = (a->weighted_pred_flag && (P || SP)) || (a->weighted_bipred_idc == 1 && B);
  if (s) vk_assert((s->pred_weight_table != nullptr) == pwt, "pred_weight_table present exactly when signalled");
  if (pwt) { r.sep(); ref_pwt(r, s ? s->pred_weight_table.get() : nullptr, a->separate_colour_plane_flag ? 0 : a->chroma_format_idc, slice_type, n0, n1); if (r.bad) return; }
  if (s) vk_assert((s->dec_ref_pic_marking != nullptr) == (nal_ref_idc != 0), "dec_ref_pic_marking present exactly in reference slices");
  if (nal_ref_idc != 0) { r.sep(); ref_drpm(r, s ? s->dec_ref_pic_marking.get() : nullptr, idr); if (r.bad) return; }
  UEC(a->entropy_coding_mode_flag && !I && !SI, cabac_init_idc, 0, 2, 0);
  int32_t q = 51 + 6 * (int32_t)a->bit_depth_luma_minus8;
  SE(slice_qp_delta, -q, q);
  UC(SP, sp_for_switch_flag, 1, 0); SEC(SP || SI, slice_qs_delta, SMIN, SMAX, 0);
  UEC(a->deblocking_filter_control_present_flag, disable_deblocking_filter_idc, 0, 2, 0);
  bool off = a->deblocking_filter_control_present_flag && disable_deblocking_filter_idc != 1;
  SEC(off, slice_alpha_c0_offset_div2, SMIN, SMAX, 0); SEC(off, slice_beta_offset_div2, SMIN, SMAX, 0);
  UC(a->num_slice_groups_minus1 > 0 && a->slice_group_map_type >= 3 && a->slice_group_map_type <= 5, slice_group_change_cycle, (unsigned)vk_concretize(cycle_len(*a)), 0);
  r.close();
  VEQ(s->nal_ref_idc, nal_ref_idc, "nal_ref_idc"); VEQ(s->nal_unit_type, nal_unit_type, "nal_unit_type");
}
