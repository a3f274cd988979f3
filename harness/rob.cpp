// arbitrary bytes into every entry point: parse, dump, destroy (C19)
#define VK_ROB 1
#include "ref_svc.h"
#include <string.h>
#include "h264_nal_unit_parser.h"
#include "h264_bitstream_parser.h"
#include "h264_rtp_parser.h"
using namespace h264nal;
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
// a decoder that has seen SPS 2, PPS 0 and 1 (1 names a missing SPS), a scalable subset SPS 2 and an unscalable one 3, named by PPS 2
static void seed(H264BitstreamParserState& bs) {
  Active a; ActiveSvc v; bs.sps[2] = mk_sps(a, 2); bs.pps[0] = mk_pps(a, 0, 2); bs.pps[1] = mk_pps(a, 1, 7); bs.subset_sps[2] = mk_ssps(a, v, 2); bs.subset_sps[3] = mk_ssps(a, v, 3, false); bs.pps[2] = mk_pps(a, 2, 3);
}
struct Bytes { uint8_t* d; size_t n; Bytes(size_t n_) : d(new uint8_t[n_ ? n_ : 1]), n(n_) { if (n) vk_bytes(d, n, "d"); } ~Bytes() { delete[] d; } };
static ParsingOptions opts() { ParsingOptions o; o.add_checksum = vk_u("cs", 1); return o; }
static void done(bool acc) { vk_reach(acc ? "accept" : "reject"); }
static void nal(size_t lo, size_t hi, int type) {
  Bytes b(pick("n", 3, lo, hi)); if (type >= 0) vk_assume((b.d[0] & 31) == type); H264BitstreamParserState bs; if (vk_u("seed", 1)) seed(bs); ParsingOptions o = opts();
  auto u = H264NalUnitParser::ParseNalUnit(b.d, b.n, &bs, o); if (u) u->fdump(vk_file(0), 0, o); done(u != nullptr);
}
extern "C" void r_nal() { nal(0, 2, -1); }
extern "C" void r_nal_slice() { nal(3, 4, 1); }
extern "C" void r_nal_idr() { nal(3, 4, 5); }
extern "C" void r_nal_sps() { nal(3, 5, 7); }
extern "C" void r_nal_pps() { nal(3, 3, 8); }
extern "C" void r_nal_pps4() { nal(4, 4, 8); }
extern "C" void r_nal_prefix() { nal(3, 6, 14); }
extern "C" void r_nal_ssps() { nal(3, 5, 15); }
extern "C" void r_nal_ext() { nal(4, 6, 20); }
extern "C" void r_stream() {
  Bytes b(pick("n", 3, 0, 5)); ParsingOptions o = opts(); o.add_resolution = vk_u("ar", 1);
  if (vk_u("own", 1)) { H264BitstreamParserState bs; seed(bs); auto s = H264BitstreamParser::ParseBitstream(b.d, b.n, &bs, o); if (s) s->fdump(vk_file(0), -1, o); done(s != nullptr); }
  else { auto s = H264BitstreamParser::ParseBitstream(b.d, b.n, o); if (s) s->fdump(vk_file(0), -1, o); done(s != nullptr); }
}
static void lenstream(size_t hi) {
  Bytes b(pick("n", 3, 0, hi)); ParsingOptions o = opts(); uint64_t w0 = vk_u("w", 5); vk_assume(w0 < 6 || w0 == 8 || w0 == 9 || w0 == 17); size_t w = (size_t)vk_concretize(w0);
  if (vk_u("own", 1)) { H264BitstreamParserState bs; seed(bs); auto s = H264BitstreamParser::ParseBitstreamNALULength(b.d, b.n, w, &bs, o); if (s) s->fdump(vk_file(0), 0, o); done(s != nullptr); }
  else { auto s = H264BitstreamParser::ParseBitstreamNALULength(b.d, b.n, w, o); if (s) s->fdump(vk_file(0), 0, o); done(s != nullptr); }
}
extern "C" void r_lenstream() { lenstream(3); }
extern "C" void r_lenstream5() { lenstream(5); }
static void rtp(size_t lo, size_t hi, int type) {
  Bytes b(pick("n", 3, lo, hi)); if (type >= 0) vk_assume((b.d[0] & 31) == type); else if (b.n) vk_assume((b.d[0] & 31) != 24 && (b.d[0] & 31) != 28); H264BitstreamParserState bs; if (vk_u("seed", 1)) seed(bs);
  auto s = H264RtpParser::ParseRtp(b.d, b.n, &bs); if (s) s->fdump(vk_file(0), 0, ParsingOptions()); done(s != nullptr);
}
extern "C" void r_rtp() { rtp(0, 3, -1); }
extern "C" void r_rtp_stapa() { rtp(1, 6, 24); }
extern "C" void r_rtp_fua() { rtp(1, 4, 28); }
// every bit string as the payload of every type that is parsed; the tape has no fixed length
static void pay(uint32_t type, bool seeded) {
  H264BitstreamParserState bs; if (seeded) seed(bs); H264NalUnitHeaderParser::NalUnitHeaderState h; h.nal_ref_idc = (uint32_t)vk_u("ref", 2); h.nal_unit_type = type;
  if (type == 14 || type == 20) { ActiveSvc v; v.idr_flag = (uint32_t)vk_u("idr", 1); v.no_inter_layer_pred_flag = (uint32_t)vk_u("nil", 1); v.quality_id = (uint32_t)vk_u("q", 4); v.use_ref_base_pic_flag = (uint32_t)vk_u("u", 1); mk_header(h, v, h.nal_ref_idc, type); }
  VkStream st(0); auto p = H264NalUnitPayloadParser::ParseNalUnitPayload(st.bb, h, &bs); if (p) p->fdump(vk_file(0), 0, type, ParsingOptions()); done(p != nullptr && p->IsPayloadParsed(type));
}
extern "C" void r_pay_slice() { pay(vk_u("idrt", 1) ? 5 : 1, true); }
extern "C" void r_pay_pps() { pay(8, false); }
extern "C" void r_pay_prefix() { pay(14, false); }
extern "C" void r_pay_ext() { pay(20, true); }
extern "C" void r_unescape() { Bytes b(pick("n", 4, 0, 10)); auto v = UnescapeRbsp(b.d, b.n); done(v.size() <= b.n); }
extern "C" void r_checksum() { Bytes b(pick("n", 4, 0, 10)); BitBuffer bb(b.d, b.n); auto c = NaluChecksum::GetNaluChecksum(&bb); if (c) { int len = (int)pick("len", 6, 0, 40); char* o = new char[len ? len : 1]; c->fdump(o, len); delete[] o; } done(c != nullptr); }
// long inputs: mostly concrete, with symbolic bytes where the interesting decisions are
static const size_t far_len[] = {63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 100000};
extern "C" void r_nal_far() {
  static const uint8_t hd[] = {0x41, 0x67, 0x68, 0x06, 0x6f, 0x09, 0x65, 0x0c}; size_t n = far_len[pick("n", 4, 0, 15)]; uint8_t* d = new uint8_t[n]; memset(d, pick("fill", 1, 0, n < 5000) ? 0x5a : 0xff, n); d[0] = hd[pick("k", 3, 0, 7)]; vk_assume(d[0] != 0x6f || n < 3000); d[1] = 0xb8; d[n - 3] = d[n - 2] = 0; d[n - 1] = (uint8_t)vk_u("z", 2);
  { H264BitstreamParserState bs; seed(bs); ParsingOptions o; o.add_checksum = n < 5000; auto u = H264NalUnitParser::ParseNalUnit(d, n, &bs, o); if (u) u->fdump(vk_file(0), 0, o); done(u != nullptr); } delete[] d;
}
extern "C" void r_rtp_far() {
  size_t n = far_len[pick("n", 4, 0, 15)]; uint8_t* d = new uint8_t[n]; memset(d, 0x5a, n); unsigned k = (unsigned)pick("k", 2, 0, 2); d[0] = k == 0 ? 0x41 : k == 1 ? 0x7c : 0x78; size_t z = n - 3 < 65535 ? n - 3 : 65535; d[1] = k == 2 ? (uint8_t)(z >> 8) : 0x85; d[2] = k == 2 ? (uint8_t)(z ^ vk_u("e", 1)) : 0xb8; d[3] = 0x06;
  { H264BitstreamParserState bs; seed(bs); auto s = H264RtpParser::ParseRtp(d, n, &bs); if (s) s->fdump(vk_file(0), 0, ParsingOptions()); done(s != nullptr); } delete[] d;
}
// many units in one stream, either framing
extern "C" void r_stream_many() {
  size_t m = pick("m", 10, 255, 258), l = 2 + pick("l", 1, 0, 1), n = 0; uint8_t* d = new uint8_t[m * 8 + 8]; bool len = pick("len", 1, 0, 1);
  for (size_t i = 0; i < m; i++) { d[n++] = 0; d[n++] = 0; if (len) { d[n++] = 0; d[n++] = (uint8_t)l; } else d[n++] = 1; d[n++] = i % 3 ? 0x68 : 0x09; d[n++] = i % 2 ? 0xce : 0x12; if (l == 3) d[n++] = 0x80; } d[n - 1] = (uint8_t)vk_u("z", 3);
  { H264BitstreamParserState bs; ParsingOptions o; auto s = len ? H264BitstreamParser::ParseBitstreamNALULength(d, n, 4, &bs, o) : H264BitstreamParser::ParseBitstream(d, n, &bs, o); if (s && l == 2) s->fdump(vk_file(0), -1, o); done(s != nullptr); } delete[] d;
}
