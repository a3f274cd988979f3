#include "ref_slice.h"
using namespace h264nal;
#define END(name) VK_END(s, st, true, name)
extern "C" void h_rplm() {
  uint32_t t = (uint32_t)vk_u("slice_type", 4); vk_assume(t < 10);
  VkStream st(0); auto s = H264RefPicListModificationParser::ParseRefPicListModification(st.bb, t);
  Ref r(0); ref_rplm(r, s.get(), t); END("ref_pic_list_modification");
}
extern "C" void h_drpm() {
  uint32_t idr = (uint32_t)vk_u("idr", 1);
  VkStream st(0); auto s = H264DecRefPicMarkingParser::ParseDecRefPicMarking(st.bb, idr);
  Ref r(0); ref_drpm(r, s.get(), idr); END("dec_ref_pic_marking");
}
extern "C" void h_pwt() {
  uint32_t t = (uint32_t)vk_u("slice_type", 4), cat = (uint32_t)vk_u("cat", 2), n0 = (uint32_t)vk_u("n0", 5), n1 = (uint32_t)vk_u("n1", 5); vk_assume(t < 10);
  VkStream st(0); auto s = H264PredWeightTableParser::ParsePredWeightTable(st.bb, cat, t, n0, n1);
  Ref r(0); ref_pwt(r, s.get(), cat, t, n0, n1); END("pred_weight_table");
}
// long lists: the shape (which codes, how many) is one of a few patterns, every value is symbolic
static uint32_t val(uint32_t hi = 0xfffffffeu) { uint32_t v = (uint32_t)vk_u("v", 32); vk_assume(v <= hi); return v; }
extern "C" void h_rplm_long() {
  uint32_t t = vk_u("b", 1) ? 1 : 5; uint32_t n = (uint32_t)vk_concretize(vk_u("n", 6)), ph = (uint32_t)vk_concretize(vk_u("ph", 2));
  for (int l = 0; l < (t == 1 ? 2 : 1); l++) {
    vk_tape_u(0, 1, 1);
    for (uint32_t i = 0; i < n; i++) { vk_tape_ue(0, ph == 3 ? 0 : (i + ph + (uint32_t)l) % 3); vk_tape_ue(0, val()); }
    vk_tape_ue(0, 3);
  }
  VkStream st(0); auto s = H264RefPicListModificationParser::ParseRefPicListModification(st.bb, t);
  Ref r(0); ref_rplm(r, s.get(), t); END("ref_pic_list_modification");
}
extern "C" void h_drpm_long() {
  uint32_t n = (uint32_t)vk_concretize(vk_u("n", 6)), ph = (uint32_t)vk_concretize(vk_u("ph", 3));
  vk_tape_u(0, 1, 1);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t op = ph == 7 ? 1 : ph == 6 ? 3 : 1 + (i + ph) % 6; vk_tape_ue(0, op);
    if (op != 5) vk_tape_ue(0, val()); if (op == 3) vk_tape_ue(0, val());
  }
  vk_tape_ue(0, 0);
  VkStream st(0); auto s = H264DecRefPicMarkingParser::ParseDecRefPicMarking(st.bb, 0);
  Ref r(0); ref_drpm(r, s.get(), 0); END("dec_ref_pic_marking");
}
extern "C" void h_pwt_long() {
  uint32_t t = vk_u("b", 1) ? 6 : 0, n0 = (uint32_t)vk_concretize(vk_u("n0", 5)), n1 = 31 - n0, ph = (uint32_t)vk_concretize(vk_u("ph", 2)), cat = vk_u("c", 1) ? 3 : 0;
  vk_tape_ue(0, val(7)); if (cat) vk_tape_ue(0, val(7));
  for (int l = 0; l < (t == 6 ? 2 : 1); l++) for (uint32_t i = 0; i <= (l ? n1 : n0); i++) {
    bool y = ph == 0 || (ph == 1 && i % 2) || (ph == 2 && i % 3 == 0), c = ph == 0 || (ph == 1 && !(i % 2)) || (ph == 2 && i % 2);
    vk_tape_u(0, 1, y); if (y) { vk_tape_ue(0, val()); vk_tape_ue(0, val()); }
    if (cat) { vk_tape_u(0, 1, c); if (c) for (int j = 0; j < 4; j++) vk_tape_ue(0, val()); }
  }
  VkStream st(0); auto s = H264PredWeightTableParser::ParsePredWeightTable(st.bb, cat, t, n0, n1);
  Ref r(0); ref_pwt(r, s.get(), cat, t, n0, n1); END("pred_weight_table");
}
enum { COLOUR = 1, FIELD = 2, POC = 4, RED = 8, REFS = 16, WP = 32, MARK = 64, CABAC = 128, DEBLOCK = 256, GROUPS = 512, IDS = 1024, LENS = 2048, ONE = 4096 };
static Active active(unsigned m, const char* const* nm) {
  Active a; (void)nm;
  if (m & COLOUR) { a.separate_colour_plane_flag = (uint32_t)vk_u("sep", 1); a.chroma_format_idc = (uint32_t)vk_u("cfi", 2); vk_assume(!a.separate_colour_plane_flag || a.chroma_format_idc == 3); }
  if (m & FIELD) a.frame_mbs_only_flag = (uint32_t)vk_u("fmo", 1);
  if (m & POC) { a.pic_order_cnt_type = (uint32_t)vk_u("poc", 2); vk_assume(a.pic_order_cnt_type < 3); a.delta_pic_order_always_zero_flag = (uint32_t)vk_u("dpz", 1); a.bottom_field_pic_order_in_frame_present_flag = (uint32_t)vk_u("bfp", 1); }
  if (m & LENS) { a.log2_max_frame_num_minus4 = (uint32_t)vk_u("fnl", 4); a.log2_max_pic_order_cnt_lsb_minus4 = (uint32_t)vk_u("pol", 4); vk_assume(a.log2_max_frame_num_minus4 <= 12 && a.log2_max_pic_order_cnt_lsb_minus4 <= 12); }
  else { a.log2_max_frame_num_minus4 = 3; a.log2_max_pic_order_cnt_lsb_minus4 = 5; }
  if (m & RED) a.redundant_pic_cnt_present_flag = (uint32_t)vk_u("red", 1);
  if (m & REFS) { a.l0_default = (uint32_t)vk_u("l0d", 5); a.l1_default = (uint32_t)vk_u("l1d", 5); }
  if (m & WP) { a.weighted_pred_flag = (uint32_t)vk_u("wp", 1); a.weighted_bipred_idc = (uint32_t)vk_u("wb", 2); vk_assume(a.weighted_bipred_idc < 3); }
  if (m & CABAC) { a.entropy_coding_mode_flag = (uint32_t)vk_u("cabac", 1); a.bit_depth_luma_minus8 = (uint32_t)vk_u("bdl", 3); vk_assume(a.bit_depth_luma_minus8 <= 6); }
  if (m & DEBLOCK) a.deblocking_filter_control_present_flag = (uint32_t)vk_u("dbl", 1);
  if (m & GROUPS) {
    a.num_slice_groups_minus1 = (uint32_t)vk_u("nsg", 3); a.slice_group_map_type = (uint32_t)vk_u("sgm", 3); vk_assume(a.slice_group_map_type < 7);
    // map units and change rates around the powers of two, and the largest picture
    static const uint32_t g[][3] = {{0, 0, 0}, {1, 0, 0}, {1055, 1055, 0}, {3, 0, 0}, {3, 1, 2}, {3, 1, 3}, {3, 1, 6}, {3, 1, 7}, {255, 255, 0}, {4, 2, 6}, {10, 8, 0}, {10, 8, 98}, {119, 67, 1}, {119, 67, 8159}, {511, 271, 4}, {1055, 1055, 1115134}};
    const uint32_t* q = g[vk_concretize(vk_u("g", 4))];
    a.pic_width_in_mbs_minus1 = q[0]; a.pic_height_in_map_units_minus1 = q[1]; a.slice_group_change_rate_minus1 = q[2];
  }
  return a;
}
enum { TP = 1, TB = 2, TI = 4, TSP = 8, TSI = 16 };
static void slice(unsigned m, unsigned types) {
  Active a = active(m, nullptr), b; b.entropy_coding_mode_flag = 1; b.log2_max_frame_num_minus4 = 1; b.deblocking_filter_control_present_flag = 1;
  // three PPSs: the one of interest, one that differs, one whose SPS is missing
  H264BitstreamParserState bs;
  uint32_t pid = 0;
  if (m & IDS) { pid = 9; bs.sps[0] = mk_sps(b, 0); bs.pps[5] = mk_pps(b, 5, 0); bs.pps[200] = mk_pps(b, 200, 7); }
  bs.sps[2] = mk_sps(a, 2); bs.pps[pid] = mk_pps(a, pid, 2);
  uint32_t ref_idc = (m & MARK) ? (uint32_t)vk_u("nal_ref_idc", 2) : 0, type = 1;
  if (m & (POC | MARK)) type = vk_u("idr", 1) ? 5 : 1;
  if (m & IDS) { static const uint32_t ty[] = {1, 5, 20, 21, 2, 19}; uint64_t k = vk_u("nut", 3); vk_assume(k < 6); type = ty[vk_concretize(k)]; }
  if (types) {  // only these slice types (bit k: types k and k+5), in both spellings
    uint32_t k = (uint32_t)vk_concretize(vk_u("slice_type", 4)); vk_assume(k < 10 && ((types >> (k % 5)) & 1) && (!(m & ONE) || k >= 5));
    vk_tape_ue(0, val()); vk_tape_ue(0, k); vk_tape_ue(0, pid);
  }
  VkStream st(0); uint32_t un = get_unimplemented_count();
  auto s = H264SliceHeaderParser::ParseSliceHeader(st.bb, ref_idc, type, &bs);
  Ref r(0);
  ref_slice_header(r, s.get(), ref_idc, type, [&](uint32_t id) -> const Active* { if (id == pid) return &a; if ((m & IDS) && id == 5) return &b; return nullptr; });
  END("slice_header"); (void)un;
}
extern "C" void h_slice_ids() { slice(IDS | RED, 0); }
extern "C" void h_slice_pos() { slice(COLOUR | FIELD | POC | MARK | ONE, TI); }
extern "C" void h_slice_len() { slice(LENS | POC | ONE, TI); }
extern "C" void h_slice_refs() { slice(RED | REFS | FIELD, 31); }
extern "C" void h_slice_wp() { slice(WP | COLOUR | ONE, TP | TB | TSP | TI); }
extern "C" void h_slice_mark() { slice(MARK | CABAC | ONE, TP | TI | TSI | TB); }
extern "C" void h_slice_groups() { slice(GROUPS | ONE, TI | TB); }
extern "C" void h_slice_qp() { slice(CABAC | DEBLOCK, 31); }
extern "C" void h_slice_x1() { slice(FIELD | WP | ONE, TB); }
extern "C" void h_slice_x2() { slice(POC | DEBLOCK | MARK | RED | ONE, TSP | TI); }
extern "C" void h_slice_wpd() { slice(WP | ONE, TP | TB | TSP); }
