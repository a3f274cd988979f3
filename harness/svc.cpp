#include "ref_svc.h"
#include "ref_sps.h"
using namespace h264nal;
#define END(name) VK_END(s, st, true, name)
#define ENDV(name) VK_END(s, st, false, name)
extern "C" void h_nalhdr() {
  VkStream st(0); auto s = H264NalUnitHeaderParser::ParseNalUnitHeader(st.bb);
  Ref r(0); ref_nal_header(r, s.get()); END("nal_unit_header");
}
extern "C" void h_svchdr() {
  VkStream st(0); auto s = H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(st.bb);
  Ref r(0); ref_svc_header(r, s.get()); END("nal_unit_header_svc_extension");
}
extern "C" void h_spssvc() {
  uint32_t cat = (uint32_t)vk_u("cat", 2); VkStream st(0); auto s = H264SpsSvcExtensionParser::ParseSpsSvcExtension(st.bb, cat);
  Ref r(0); ref_sps_svc(r, s.get(), cat); END("sps_svc_extension");
}
extern "C" void h_spsext() {
  VkStream st(0); auto s = H264SpsExtensionParser::ParseSpsExtension(st.bb);
  Ref r(0); ref_sps_ext(r, s.get()); ENDV("sps_extension");
}
// subset SPS: fixed seq_parameter_set_data, arbitrary extension
extern "C" void h_ssps() {
  static const uint32_t pr[] = {83, 86, 100, 66}; uint32_t p = pr[vk_concretize(vk_u("p", 2))], c = (uint32_t)vk_concretize(vk_u("c", 2)), sep = (c == 3 && p != 66) ? (uint32_t)vk_concretize(vk_u("sep", 1)) : 0;
  vk_tape_u(0, 8, p); vk_tape_u(0, 8, 0); vk_tape_u(0, 8, 30); uint32_t id = (uint32_t)vk_u("id", 5); vk_tape_ue(0, id);
  if (p != 66) { vk_tape_ue(0, c); if (c == 3) vk_tape_u(0, 1, sep); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_u(0, 1, 0); vk_tape_u(0, 1, 0); } else c = 1;
  vk_tape_ue(0, 0); vk_tape_ue(0, 2); vk_tape_ue(0, 1); vk_tape_u(0, 1, 0); vk_tape_ue(0, 10); vk_tape_ue(0, 10); vk_tape_u(0, 4, 12);
  VkStream st(0); auto S = H264SubsetSpsParser::ParseSubsetSps(st.bb);
  Ref r(0); r.open("subset_sps"); r.sep();
  if (S) vk_assert(S->seq_parameter_set_data != nullptr, "subset SPS data present");
  ref_sps_data(r, S ? S->seq_parameter_set_data.get() : nullptr, SpsBound());
  bool svc = p == 83 || p == 86; auto s = S.get();
  if (s) vk_assert((s->seq_parameter_set_svc_extension != nullptr) == svc, "SVC extension present exactly in the scalable profiles");
  if (svc && !r.bad) { r.sep(); ref_sps_svc(r, s ? s->seq_parameter_set_svc_extension.get() : nullptr, sep ? 0 : c); UC(true, svc_vui_parameters_present_flag, 1, 0); if (!r.bad && svc_vui_parameters_present_flag) vk_skip(); }
  U(additional_extension2_flag, 1); uint32_t d = 0; if (additional_extension2_flag) while (!r.bad && r.more()) d = (uint32_t)r.u(1); if (VK_DUMPING && additional_extension2_flag) r.pu("additional_extension2_data_flag", d); r.close(); VEQ(s->additional_extension2_data_flag, d, "additional_extension2_data_flag");
  ENDV("subset_sps");
}
// profiles with an MVC, MVCD or 3D-AVC extension: the extension itself is not parsed, what precedes it is
extern "C" void h_ssps_mvc() {
  static const uint32_t pr[] = {118, 128, 134, 135, 138, 139, 139, 139}; uint32_t p = pr[vk_concretize(vk_u("p", 3))], id = (uint32_t)vk_u("id", 5);
  vk_tape_u(0, 8, p); vk_tape_u(0, 8, 0); vk_tape_u(0, 8, 30); vk_tape_ue(0, id); vk_tape_ue(0, 1); vk_tape_ue(0, 0); vk_tape_ue(0, 0); vk_tape_u(0, 1, 0); vk_tape_u(0, 1, 0);
  vk_tape_ue(0, 0); vk_tape_ue(0, 2); vk_tape_ue(0, 1); vk_tape_u(0, 1, 0); vk_tape_ue(0, 10); vk_tape_ue(0, 10); vk_tape_u(0, 4, 12);
  VkStream st(0); auto s = H264SubsetSpsParser::ParseSubsetSps(st.bb);
  Ref r(0); r.open("subset_sps"); r.sep();
  if (s) vk_assert(s->seq_parameter_set_data != nullptr, "subset SPS data present");
  ref_sps_data(r, s ? s->seq_parameter_set_data.get() : nullptr, SpsBound());
  uint32_t one = (uint32_t)r.u(1);
#if VK_DUMPING  // what follows the marker is not claimed: the dump shows what the state holds
  r.pu("bit_equal_to_one", one);
  if (s) { if (p <= 134) r.pu("mvc_vui_parameters_present_flag", s->mvc_vui_parameters_present_flag); r.pu("additional_extension2_flag", s->additional_extension2_flag); if (s->additional_extension2_flag) r.pu("additional_extension2_data_flag", s->additional_extension2_data_flag); }
  r.close(); ENDV("subset_sps"); return;
#endif
  if (r.bad) { vk_assert(s == nullptr, "subset_sps: truncated data is rejected"); vk_reach("reject"); return; }
  if (s == nullptr) { vk_reach("reject"); return; }
  vk_assert(s->seq_parameter_set_svc_extension == nullptr, "SVC extension present exactly in the scalable profiles");
  vk_assert(s->bit_equal_to_one == one, "bit_equal_to_one"); vk_reach("accept");
}
extern "C" void h_prefix() {
  uint32_t idc = (uint32_t)vk_u("nal_ref_idc", 2), u = (uint32_t)vk_u("use_ref", 1), idr = (uint32_t)vk_u("idr", 1), svc = (uint32_t)vk_u("svc", 1); uint32_t un = get_unimplemented_count();
  VkStream st(0); auto S = H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(st.bb, svc, idc, u, idr);
  Ref r(0); r.open("prefix_nal_unit_rbsp"); auto s = S ? S->prefix_nal_unit_svc.get() : nullptr;
  if (S) vk_assert((s != nullptr) == (svc == 1), "prefix_nal_unit_svc present exactly when signalled");
  if (svc) {
    r.nest("prefix_nal_unit_svc");
    if (idc) {
      U(store_ref_base_pic_flag, 1); if (!r.bad && (u || store_ref_base_pic_flag) && !idr) r.unsupported();
      U(additional_prefix_nal_unit_extension_flag, 1);
      uint32_t d = 0; bool any = false;
      if (!r.bad && additional_prefix_nal_unit_extension_flag) while (r.more() && !r.bad) { d = (uint32_t)r.u(1); any = true; }
      if (any) VEQ(s->additional_prefix_nal_unit_extension_data_flag, d, "extension data"); else VEQ(s->additional_prefix_nal_unit_extension_data_flag, 0u, "no extension data");
      r.pu("additional_prefix_nal_unit_extension_data_flag", d);
    } else { uint32_t d = 0; while (r.more() && !r.bad) d = (uint32_t)r.u(1); VEQ(s->additional_prefix_nal_unit_extension_data_flag, d, "extension data"); }
    if (s && !r.bad) vk_assert(s->nal_ref_idc == idc && s->use_ref_base_pic_flag == u && s->idr_flag == idr, "prefix_nal_unit_svc keeps its inputs");
    r.close();
  }
  r.close(); VK_END(S, st, false, "prefix_nal_unit");
  vk_assert(get_unimplemented_count() - un == (r.unimp ? 1u : 0u), "unsupported marking syntax is reported");
}
enum { POS = 1, REFS = 2, WP = 4, MARK = 8, IL = 16, IL2 = 32, CABAC = 64, DEBLOCK = 128, IDS = 256, GROUPS = 512 };
static void shise(unsigned m, unsigned types, bool layer) {
  Active a; ActiveSvc v; a.log2_max_frame_num_minus4 = 2; a.log2_max_pic_order_cnt_lsb_minus4 = 3;
  if (m & POS) {
    a.separate_colour_plane_flag = (uint32_t)vk_u("sep", 1); a.chroma_format_idc = a.separate_colour_plane_flag ? 3 : 1; a.frame_mbs_only_flag = (uint32_t)vk_u("fmo", 1); a.pic_order_cnt_type = (uint32_t)vk_u("poc", 2); vk_assume(a.pic_order_cnt_type < 3);
    a.delta_pic_order_always_zero_flag = (uint32_t)vk_u("dpz", 1); a.bottom_field_pic_order_in_frame_present_flag = (uint32_t)vk_u("bfp", 1); a.redundant_pic_cnt_present_flag = (uint32_t)vk_u("red", 1);
    a.log2_max_frame_num_minus4 = (uint32_t)vk_concretize(vk_u("fnl", 4)); vk_assume(a.log2_max_frame_num_minus4 <= 12); a.log2_max_pic_order_cnt_lsb_minus4 = 12 - a.log2_max_frame_num_minus4;
    v.idr_flag = (uint32_t)vk_u("idr", 1);
  }
  if (m & REFS) { a.l0_default = (uint32_t)vk_u("l0d", 5); a.l1_default = (uint32_t)vk_u("l1d", 5); v.quality_id = (uint32_t)vk_u("q", 4); }
  if (m & WP) { a.weighted_pred_flag = (uint32_t)vk_u("wp", 1); a.weighted_bipred_idc = (uint32_t)vk_u("wb", 2); vk_assume(a.weighted_bipred_idc < 3); v.no_inter_layer_pred_flag = (uint32_t)vk_u("nil", 1); a.chroma_format_idc = (uint32_t)vk_u("cfi", 2); if (m & REFS) { v.quality_id &= 1; a.l0_default &= 1; a.l1_default = 0; } }
  uint32_t ref_idc = 0;
  if (m & MARK) { ref_idc = (uint32_t)vk_u("nal_ref_idc", 2); v.idr_flag = (uint32_t)vk_u("idr", 1); v.use_ref_base_pic_flag = (uint32_t)vk_u("urb", 1); v.slice_header_restriction_flag = (uint32_t)vk_u("shr", 1); v.quality_id = (uint32_t)vk_u("q", 1); }
  if (m & IL) { v.no_inter_layer_pred_flag = (uint32_t)vk_u("nil", 1); v.quality_id = (uint32_t)vk_u("q", 4); v.inter_layer_deblocking_filter_control_present_flag = (uint32_t)vk_u("ild", 1); v.extended_spatial_scalability_idc = (uint32_t)vk_u("ess", 2); a.chroma_format_idc = (uint32_t)vk_u("cfi", 2); a.separate_colour_plane_flag = (uint32_t)vk_u("sep", 1); vk_assume(!a.separate_colour_plane_flag || a.chroma_format_idc == 3); }
  if (m & IL2) { v.no_inter_layer_pred_flag = (uint32_t)vk_u("nil", 1); v.slice_header_restriction_flag = (uint32_t)vk_u("shr", 1); v.adaptive_tcoeff_level_prediction_flag = (uint32_t)vk_u("atl", 1); if (!(m & MARK)) v.quality_id = 1; }
  if (m & CABAC) a.entropy_coding_mode_flag = (uint32_t)vk_u("cabac", 1);
  if (m & DEBLOCK) a.deblocking_filter_control_present_flag = (uint32_t)vk_u("dbl", 1);
  if (m & GROUPS) { a.num_slice_groups_minus1 = (uint32_t)vk_u("nsg", 3); a.slice_group_map_type = (uint32_t)vk_u("sgm", 3); vk_assume(a.slice_group_map_type < 7); static const uint32_t g[][3] = {{1055, 1055, 0}, {3, 1, 6}, {3, 1, 7}, {255, 255, 1}}; const uint32_t* q = g[vk_concretize(vk_u("g", 2))]; a.pic_width_in_mbs_minus1 = q[0]; a.pic_height_in_map_units_minus1 = q[1]; a.slice_group_change_rate_minus1 = q[2]; }
  H264BitstreamParserState bs; uint32_t pid = 0; Active b; b.log2_max_frame_num_minus4 = 9;
  if (m & IDS) { pid = 77; bs.subset_sps[0] = mk_ssps(b, v, 0); bs.pps[3] = mk_pps(b, 3, 0); bs.pps[200] = mk_pps(b, 200, 9); bs.sps[9] = mk_sps(b, 9); bs.subset_sps[5] = mk_ssps(b, v, 5, false); bs.pps[6] = mk_pps(b, 6, 5); bs.sps[2] = mk_sps(b, 2); }
  bs.subset_sps[2] = mk_ssps(a, v, 2); bs.pps[pid] = mk_pps(a, pid, 2);
  H264NalUnitHeaderParser::NalUnitHeaderState h; mk_header(h, v, ref_idc);
  if (types) { uint32_t k = (uint32_t)vk_concretize(vk_u("slice_type", 4)); vk_assume(k < 8 && ((types >> k) & 1)); vk_tape_ue(0, (uint32_t)vk_u("mb", 17)); vk_tape_ue(0, k); vk_tape_ue(0, pid); }
  auto pick = [&](uint32_t id) -> const Active* { if (id == pid) return &a; if ((m & IDS) && id == 3) return &b; return nullptr; };
  VkStream st(0); Ref r(0);
  if (!layer) { auto s = H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(st.bb, h, &bs); ref_shise(r, s.get(), ref_idc, v, pick); END("slice_header_in_scalable_extension"); }
  else {
    auto s = H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(st.bb, h, &bs);
    if (s) vk_assert(s->slice_header_in_scalable_extension != nullptr && s->slice_header == nullptr && s->svc_extension_flag == 1 && s->nal_ref_idc == ref_idc && s->nal_unit_type == 20, "slice layer extension carries the scalable slice header");
    r.open("slice_layer_extension_rbsp"); r.sep(); ref_shise(r, s ? s->slice_header_in_scalable_extension.get() : nullptr, ref_idc, v, pick); r.close(); END("slice_layer_extension");
  }
}
extern "C" void h_shise_ids() { shise(IDS, 0, false); }
extern "C" void h_shise_pos() { shise(POS, 1 << 7, false); }
extern "C" void h_shise_refs() { shise(REFS | CABAC, 0xe7, false); }
extern "C" void h_shise_wp() { shise(REFS | WP, 0x43, false); }
extern "C" void h_shise_mark() { shise(MARK | IL2, 0x84, false); }
extern "C" void h_shise_il() { shise(IL | DEBLOCK, 0x80, false); }
extern "C" void h_shise_il2() { shise(IL2 | CABAC | GROUPS, 0xa0, false); }
extern "C" void h_layer() { shise(MARK | DEBLOCK | IDS, 0x80, true); }
extern "C" void h_shise_wpd() { shise(WP, 0x42, false); }
