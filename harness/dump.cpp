// dumps of the containers: NAL units, payloads, RTP packets and streams, at several indentation
// levels; what the parts themselves dump is decided by the dump_*.cpp harnesses
#define VK_DUMP 1
#include <string.h>
#include <string>
#include "vk.h"
#include "h264_bitstream_parser.h"
#include "h264_nal_unit_parser.h"
#include "h264_rtp_parser.h"
using namespace h264nal;
typedef H264NalUnitHeaderParser::NalUnitHeaderState Hdr;
typedef H264NalUnitPayloadParser::NalUnitPayloadState Pay;
static int level() { static const int l[] = {-1, 0, 1, 4}; return l[vk_concretize(vk_u("lvl", 2))]; }
static ParsingOptions opts() { ParsingOptions o; o.add_offset = vk_u("ao", 1); o.add_length = vk_u("al", 1); o.add_parsed_length = vk_u("ap", 1); o.add_checksum = vk_u("ac", 1); o.add_resolution = vk_u("ar", 1); return o; }
static std::unique_ptr<Hdr> header(const char* n, uint32_t type) {
  auto h = std::make_unique<Hdr>(); h->forbidden_zero_bit = 0; h->nal_ref_idc = (uint32_t)vk_u(n, 2); h->nal_unit_type = type; return h;
}
// every kind of content at once, so that only the type can select what is shown
static std::unique_ptr<Pay> payload(const char* n) {
  auto p = std::make_unique<Pay>();
  p->sps = std::make_shared<H264SpsParser::SpsState>(); p->sps->sps_data = std::make_unique<H264SpsDataParser::SpsDataState>(); p->sps->sps_data->profile_idc = 66; p->sps->sps_data->seq_parameter_set_id = (uint32_t)vk_u(n, 5); p->sps->sps_data->pic_width_in_mbs_minus1 = 10;
  p->pps = std::make_shared<H264PpsParser::PpsState>(); p->pps->pic_parameter_set_id = (uint32_t)vk_u(n, 8);
  p->prefix_nal_unit = std::make_unique<H264PrefixNalUnitRbspParser::PrefixNalUnitRbspState>();
  p->subset_sps = std::make_shared<H264SubsetSpsParser::SubsetSpsState>(); p->subset_sps->seq_parameter_set_data = std::make_unique<H264SpsDataParser::SpsDataState>(); p->subset_sps->seq_parameter_set_data->profile_idc = 66;
  p->subset_sps->seq_parameter_set_data->level_idc = (uint32_t)vk_u(n, 8);
  auto slice = [&] { auto s = std::make_unique<H264SliceHeaderParser::SliceHeaderState>(); s->slice_type = 7; s->first_mb_in_slice = (uint32_t)vk_u(n, 16); s->ref_pic_list_modification = std::make_unique<H264RefPicListModificationParser::RefPicListModificationState>(); return s; };
  p->slice_layer_without_partitioning_rbsp = std::make_unique<H264SliceLayerWithoutPartitioningRbspParser::SliceLayerWithoutPartitioningRbspState>(); p->slice_layer_without_partitioning_rbsp->slice_header = slice();
  p->slice_layer_extension_rbsp = std::make_unique<H264SliceLayerExtensionRbspParser::SliceLayerExtensionRbspState>(); p->slice_layer_extension_rbsp->slice_header = slice();
  return p;
}
static void same(FILE* a, Ref& r) { vk_reach("done"); vk_same_output(a, r.out, "container dump"); }
static void sub(Ref& r, const Hdr& h) { r.sep(); h.fdump(r.out, r.lvl); }
static void sub(Ref& r, const Pay& p, uint32_t t, ParsingOptions o) { r.sep(); p.fdump(r.out, r.lvl, t, o); }
extern "C" void h_dump_payload() {
  uint32_t t = (uint32_t)vk_u("type", 5); bool have = vk_u("have", 1); auto p = have ? payload("v") : std::make_unique<Pay>(); ParsingOptions o; o.add_resolution = vk_u("ar", 1);
  Ref r(0); r.lvl = level(); FILE* f = vk_file(0); p->fdump(f, r.lvl, t, o);
  r.open("nal_unit_payload"); r.sep(); t = (uint32_t)vk_concretize(t);
  if (have) switch (t) {
    case 1: case 5: p->slice_layer_without_partitioning_rbsp->fdump(r.out, r.lvl); break;
    case 7: p->sps->fdump(r.out, r.lvl, o); break;
    case 8: p->pps->fdump(r.out, r.lvl); break;
    case 14: p->prefix_nal_unit->fdump(r.out, r.lvl); break;
    case 15: p->subset_sps->fdump(r.out, r.lvl, o); break;
    case 20: p->slice_layer_extension_rbsp->fdump(r.out, r.lvl); break;
  }
  r.close(); same(f, r);
}
extern "C" void h_dump_parts() {
  auto p = payload("v"); Ref r(0); r.lvl = level(); FILE* f = vk_file(0); ParsingOptions o; o.add_resolution = vk_u("ar", 1); unsigned k = (unsigned)vk_concretize(vk_u("k", 2));
  if (k == 0) { p->sps->fdump(f, r.lvl, o); r.open("sps"); r.sep(); p->sps->sps_data->fdump(r.out, r.lvl, o); }
  else if (k == 1) { p->slice_layer_without_partitioning_rbsp->fdump(f, r.lvl); r.open("slice_layer_without_partitioning_rbsp"); r.sep(); p->slice_layer_without_partitioning_rbsp->slice_header->fdump(r.out, r.lvl); }
  else if (k == 2) { p->slice_layer_extension_rbsp->fdump(f, r.lvl); r.open("slice_layer_extension_rbsp"); r.sep(); p->slice_layer_extension_rbsp->slice_header->fdump(r.out, r.lvl); }
  else { o.add_resolution = false; p->subset_sps->fdump(f, r.lvl, o); r.open("subset_sps"); r.sep(); p->subset_sps->seq_parameter_set_data->fdump(r.out, r.lvl, o); r.pu("additional_extension2_flag", p->subset_sps->additional_extension2_flag); }
  r.close(); same(f, r);
}
static void unit_line(Ref& r, const H264NalUnitParser::NalUnitState& u, ParsingOptions o, const char* checksum) {
  r.open("nal_unit");
  if (o.add_offset) { r.sep(); fprintf(r.out, "offset: 0x%08zx", u.offset); }
  if (o.add_length) { r.sep(); fprintf(r.out, "length: %zu", u.length); }
  if (o.add_parsed_length) { r.sep(); fprintf(r.out, "parsed_length: 0x%08zx", u.parsed_length); }
  if (o.add_checksum && checksum) r.ps("checksum", checksum);
  sub(r, *u.nal_unit_header); sub(r, *u.nal_unit_payload, u.nal_unit_header->nal_unit_type, o);
  r.close();
}
static std::unique_ptr<H264NalUnitParser::NalUnitState> unit(bool checksum) {
  auto u = std::make_unique<H264NalUnitParser::NalUnitState>(); u->offset = (size_t)vk_u("off", 64); u->length = (size_t)vk_u("len", 64); u->parsed_length = (size_t)vk_u("pl", 64);
  u->nal_unit_header = header("ri", vk_u("pps", 1) ? 8 : 7); u->nal_unit_payload = payload("v");
  static const uint8_t d[] = {0x01, 0x02, 0xab}; if (checksum) { BitBuffer b(d, 3); u->checksum = NaluChecksum::GetNaluChecksum(&b); }
  return u;
}
extern "C" void h_dump_unit() {
  bool cs = vk_u("cs", 1); auto u = unit(cs); ParsingOptions o = opts(); Ref r(0); r.lvl = level(); FILE* f = vk_file(0);
  u->fdump(f, r.lvl, o); std::string c; if (cs) c = "0x" + u->checksum->GetPrintableChecksum(); unit_line(r, *u, o, cs ? c.c_str() : nullptr); same(f, r);
}
extern "C" void h_dump_stream() {
  unsigned n = (unsigned)vk_concretize(vk_u("n", 2)); H264BitstreamParser::BitstreamState s; ParsingOptions o = opts(); s.parsing_options_ = o; Ref r(0); int l = level(); FILE* f = vk_file(0);
  vk_assume(n < 3); for (unsigned i = 0; i < n; i++) s.nal_units.push_back(unit(false));
  s.fdump(f, l, o); for (unsigned i = 0; i < n; i++) { r.lvl = l; unit_line(r, *s.nal_units[i], o, nullptr); fprintf(r.out, "\n"); }
  same(f, r);
}
static std::unique_ptr<H264RtpSingleParser::RtpSingleState> single() { auto s = std::make_unique<H264RtpSingleParser::RtpSingleState>(); s->nal_unit_header = header("sri", 8); s->nal_unit_payload = payload("sv"); return s; }
static std::unique_ptr<H264RtpStapAParser::RtpStapAState> stapa() {
  auto s = std::make_unique<H264RtpStapAParser::RtpStapAState>(); s->header = header("ari", 24); unsigned n = (unsigned)vk_concretize(vk_u("n", 2)); vk_assume(n < 3);
  for (unsigned i = 0; i < n; i++) { s->nal_unit_sizes.push_back((size_t)vk_u("size", 64)); s->nal_unit_headers.push_back(header("hri", i ? 8 : 15)); s->nal_unit_payloads.push_back(payload("av")); } return s;
}
static std::unique_ptr<H264RtpFuAParser::RtpFuAState> fua() {
  auto s = std::make_unique<H264RtpFuAParser::RtpFuAState>(); s->header = header("fri", 28); s->s_bit = (uint32_t)vk_u("s", 1); s->e_bit = (uint32_t)vk_u("e", 1); s->r_bit = (uint32_t)vk_u("r", 1); s->fu_type = vk_u("ft", 1) ? 8 : 5; if (s->s_bit) s->nal_unit_payload = payload("fv"); return s;
}
extern "C" void h_dump_rtp() {
  static const uint32_t ty[] = {1, 23, 24, 28, 25, 31, 8, 27}; uint32_t t = ty[vk_concretize(vk_u("t", 3))]; ParsingOptions o; o.add_resolution = vk_u("ar", 1); H264RtpParser::RtpState s; s.nal_unit_header = header("ri", t);
  if (t <= 23) s.rtp_single = single(); else if (t == 24) s.rtp_stapa = stapa(); else if (t == 28) s.rtp_fua = fua();
  Ref r(0); r.lvl = level(); FILE* f = vk_file(0); s.fdump(f, r.lvl, o);
  r.open("rtp"); sub(r, *s.nal_unit_header);
  if (t <= 23) { r.nest("rtp_single"); sub(r, *s.rtp_single->nal_unit_header); sub(r, *s.rtp_single->nal_unit_payload, 8, o); r.close(); }
  else if (t == 24) {
    r.nest("rtp_stapa"); sub(r, *s.rtp_stapa->header);
    for (size_t i = 0; i < s.rtp_stapa->nal_unit_sizes.size(); i++) { r.sep(); fprintf(r.out, "nal_unit_size: %zu", s.rtp_stapa->nal_unit_sizes[i]); sub(r, *s.rtp_stapa->nal_unit_headers[i]); sub(r, *s.rtp_stapa->nal_unit_payloads[i], i ? 8 : 15, o); }
    r.close();
  } else if (t == 28) {
    auto& u = *s.rtp_fua; r.nest("rtp_fua"); sub(r, *u.header); r.pu("s_bit", u.s_bit); r.pu("e_bit", u.e_bit); r.pu("r_bit", u.r_bit); r.pu("fu_type", u.fu_type); if (u.s_bit) sub(r, *u.nal_unit_payload, u.fu_type, o); r.close();
  }
  r.close(); same(f, r);
}
// the indentation helpers, for every level
extern "C" void h_dump_indent() {
  int l = (int)vk_concretize(vk_u("l", 5)) - 1; Ref r(0); FILE* f = vk_file(0);
  vk_assert(indent_level_incr(l) == (l < 0 ? -1 : l + 1), "one level in"); vk_assert(l == 0 || indent_level_decr(l) == (l < 0 ? -1 : l - 1), "one level out");
  fdump_indent_level(f, l); r.lvl = l; r.sep(); same(f, r);
}
