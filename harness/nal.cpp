// NAL unit dispatch, arbitrary-byte robustness, stream parsing, RTP packetisation: real bytes, real bit reader
#include "ref_svc.h"
#include <string.h>
#include "h264_nal_unit_parser.h"
#include "h264_bitstream_parser.h"
#include "h264_slice_layer_without_partitioning_rbsp_parser.h"
#include "h264_rtp_parser.h"
#include "h264_rtp_single_parser.h"
#include "h264_rtp_stapa_parser.h"
#include "h264_rtp_fua_parser.h"
using namespace h264nal;
typedef H264NalUnitPayloadParser::NalUnitPayloadState Payload;
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
// a decoder that has seen SPS 2, PPS 0 (and their scalable counterparts)
static void seed(H264BitstreamParserState& bs) { Active a; a.log2_max_frame_num_minus4 = 0; ActiveSvc v; bs.sps[2] = mk_sps(a, 2); bs.pps[0] = mk_pps(a, 0, 2); bs.subset_sps[2] = mk_ssps(a, v, 2); }
static int nsub(const Payload* p) { return (p->sps != nullptr) + (p->pps != nullptr) + (p->subset_sps != nullptr) + (p->prefix_nal_unit != nullptr) + (p->slice_layer_without_partitioning_rbsp != nullptr) + (p->slice_layer_extension_rbsp != nullptr); }
// the payload of one NAL unit parsed directly by the parser its type calls for
struct Direct {
  std::shared_ptr<H264SpsParser::SpsState> sps; std::shared_ptr<H264PpsParser::PpsState> pps; std::shared_ptr<H264SubsetSpsParser::SubsetSpsState> ssps;
  std::unique_ptr<H264PrefixNalUnitRbspParser::PrefixNalUnitRbspState> pre; std::unique_ptr<H264SliceLayerWithoutPartitioningRbspParser::SliceLayerWithoutPartitioningRbspState> sl; std::unique_ptr<H264SliceLayerExtensionRbspParser::SliceLayerExtensionRbspState> se;
  bool parses = true;
  bool ok() const { return sps || pps || ssps || pre || sl || se; }
  void parse(BitBuffer* b, H264NalUnitHeaderParser::NalUnitHeaderState& h, H264BitstreamParserState* bs) {
    switch (h.nal_unit_type) {
      case 1: case 5: sl = H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(b, h.nal_ref_idc, h.nal_unit_type, bs); break;
      case 7: sps = H264SpsParser::ParseSps(b); break;
      case 8: pps = H264PpsParser::ParsePps(b, 1); break;
      case 14: if (h.nal_unit_header_svc_extension) pre = H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(b, 1, h.nal_ref_idc, h.nal_unit_header_svc_extension->use_ref_base_pic_flag, h.nal_unit_header_svc_extension->idr_flag); break;
      case 15: ssps = H264SubsetSpsParser::ParseSubsetSps(b); break;
      case 20: se = H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(b, h, bs); break;
      default: parses = false;
    }
  }
  void same(const Payload* p, uint32_t type) {
    vk_assert(p->IsPayloadParsed(type) == (!parses || ok()), "IsPayloadParsed() says whether the payload was understood");
    vk_assert(nsub(p) == (ok() ? 1 : 0), "exactly the structure of the NAL unit type is present");
    vk_assert((p->sps != nullptr) == (sps != nullptr) && (p->pps != nullptr) == (pps != nullptr) && (p->subset_sps != nullptr) == (ssps != nullptr) && (p->prefix_nal_unit != nullptr) == (pre != nullptr) && (p->slice_layer_without_partitioning_rbsp != nullptr) == (sl != nullptr) && (p->slice_layer_extension_rbsp != nullptr) == (se != nullptr), "the payload is parsed by the parser of its type");
    FILE *a = vk_file(0), *b = vk_file(1); ParsingOptions o;
    if (sps) { p->sps->fdump(a, 0, o); sps->fdump(b, 0, o); } if (pps) { p->pps->fdump(a, 0); pps->fdump(b, 0); } if (ssps) { p->subset_sps->fdump(a, 0, o); ssps->fdump(b, 0, o); }
    if (pre) { p->prefix_nal_unit->fdump(a, 0); pre->fdump(b, 0); } if (sl) { p->slice_layer_without_partitioning_rbsp->fdump(a, 0); sl->fdump(b, 0); } if (se) { p->slice_layer_extension_rbsp->fdump(a, 0); se->fdump(b, 0); }
    vk_same_output(a, b, "the payload holds what its own parser reads");
  }
};
// what the decoder must remember after one NAL unit
static void state_after(const H264BitstreamParserState& bs, const Payload* p) {
  bool s7 = p && p->sps, s8 = p && p->pps, s15 = p && p->subset_sps;
  uint32_t i7 = s7 ? p->sps->sps_data->seq_parameter_set_id : 2, i8 = s8 ? p->pps->pic_parameter_set_id : 0, i15 = s15 ? p->subset_sps->seq_parameter_set_data->seq_parameter_set_id : 2;
  if (s7) vk_assert(bs.GetSps(i7) == p->sps, "an SPS is remembered under its id"); if (s8) vk_assert(bs.GetPps(i8) == p->pps, "a PPS is remembered under its id"); if (s15) vk_assert(bs.GetSubsetSps(i15) == p->subset_sps, "a subset SPS is remembered under its id");
  vk_assert(bs.GetSps(2) != nullptr && bs.GetPps(0) != nullptr && bs.GetSubsetSps(2) != nullptr, "parameter sets stay");
  vk_assert(bs.sps.size() == (i7 == 2 ? 1u : 2u) && bs.pps.size() == (i8 == 0 ? 1u : 2u) && bs.subset_sps.size() == (i15 == 2 ? 1u : 2u), "nothing else is remembered");
}
static void dispatch(uint8_t* d, size_t n) {
  H264BitstreamParserState bs, bs2; seed(bs); seed(bs2);
  {
    ParsingOptions o; o.add_checksum = false;
    auto u = H264NalUnitParser::ParseNalUnit(d, n, &bs, o);
    std::vector<uint8_t> rb = UnescapeRbsp(d, n); BitBuffer b(rb.data(), rb.size());
    auto h = H264NalUnitHeaderParser::ParseNalUnitHeader(&b);
    vk_assert((u != nullptr) == (h != nullptr), "a NAL unit is returned exactly when its header can be parsed");
    if (!u) { vk_reach("reject"); state_after(bs, nullptr); return; }
    vk_assert(u->nal_unit_header && u->nal_unit_payload, "a NAL unit has header and payload");
    FILE *x = vk_file(2), *y = vk_file(3); u->nal_unit_header->fdump(x, 0); h->fdump(y, 0); vk_same_output(x, y, "the header is the header of the unit");
    vk_assert(u->checksum == nullptr, "no checksum unless asked for");
    Direct D; D.parse(&b, *h, &bs2); uint32_t type = (uint32_t)vk_concretize(h->nal_unit_type);
    D.same(u->nal_unit_payload.get(), type);
    size_t y0 = 0, i0 = 0; b.GetCurrentOffset(&y0, &i0); vk_assert(u->parsed_length == y0 + (i0 ? 1 : 0), "parsed_length counts the bytes that were parsed");
    state_after(bs, u->nal_unit_payload.get()); vk_reach(D.ok() ? "accept" : "other");
  }
}
static void unit(uint32_t type, const uint8_t* fix, size_t nf, size_t nsym) {
  size_t n = 1 + nf + nsym; uint8_t* d = new uint8_t[n]; d[0] = (uint8_t)(vk_u("hdr", 3) << 5 | type); memcpy(d + 1, fix, nf); vk_bytes(d + 1 + nf, nsym, "d"); dispatch(d, n); delete[] d;
}
static const uint8_t sps66[] = {66, 0, 30}, pps0[] = {0xce}, sps83[] = {83, 0, 30}, svc0[] = {0x80 | 0x40 | 1, 0x80 >> 1, 7}, svcsl[] = {0xc0, 0x80, 0x07, 0x8c};
extern "C" void h_nal_sps() { unit(7, sps66, 3, 2); }
extern "C" void h_nal_pps() { unit(8, pps0, 0, 2); }
extern "C" void h_nal_slice() { unit(vk_u("idr", 1) ? 5 : 1, pps0, 0, 3); }
extern "C" void h_nal_ssps() { unit(15, vk_u("p", 1) ? sps66 : sps83, 3, 2); }
extern "C" void h_nal_prefix() { unit(14, pps0, 0, 4); }
extern "C" void h_nal_ext() { unit(20, svcsl, 3, 3); }
extern "C" void h_nal_other() { uint32_t t = (uint32_t)pick("type", 5, 0, 31); vk_assume(t != 1 && t != 5 && t != 7 && t != 8 && t != 14 && t != 15 && t != 20); unit(t, pps0, 0, pick("n", 2, 0, 3)); }
extern "C" void h_nal_short() { uint32_t t = (uint32_t)pick("type", 5, 0, 31); unit(t, pps0, 0, pick("n", 1, 0, 1)); }
// ---- RTP (RFC 6184)
typedef H264NalUnitHeaderParser::NalUnitHeaderState Hdr;
static void remember(H264BitstreamParserState& bs, Direct& D) { if (D.sps) bs.sps[D.sps->sps_data->seq_parameter_set_id] = D.sps; if (D.pps) bs.pps[D.pps->pic_parameter_set_id] = D.pps; if (D.ssps) bs.subset_sps[D.ssps->seq_parameter_set_data->seq_parameter_set_id] = D.ssps; }
static void same_state(const H264BitstreamParserState& a, const H264BitstreamParserState& b) {
  vk_assert(a.sps.size() == b.sps.size() && a.pps.size() == b.pps.size() && a.subset_sps.size() == b.subset_sps.size(), "the parameter sets remembered are those of the packet's units");
  for (auto& x : b.sps) vk_assert(a.GetSps(x.first) != nullptr, "SPS remembered"); for (auto& x : b.pps) vk_assert(a.GetPps(x.first) != nullptr, "PPS remembered"); for (auto& x : b.subset_sps) vk_assert(a.GetSubsetSps(x.first) != nullptr, "subset SPS remembered");
}
static void same_header(const Hdr* h, const Hdr* g, const char* what) { vk_assert((h != nullptr) == (g != nullptr), what); if (!h || !g) return; FILE *x = vk_file(2), *y = vk_file(3); h->fdump(x, 0); g->fdump(y, 0); vk_same_output(x, y, what); }
static void rtp(const uint8_t* d, size_t n) {
  H264BitstreamParserState bs, bs2; seed(bs); seed(bs2);
  auto p = H264RtpParser::ParseRtp(d, n, &bs);
  std::vector<uint8_t> rb = UnescapeRbsp(d, n); BitBuffer b(rb.data(), rb.size()); auto h = H264NalUnitHeaderParser::ParseNalUnitHeader(&b);
  if (!h) { vk_assert(!p, "a packet without a NAL unit header is rejected"); vk_reach("reject"); return; }
  uint32_t type = (uint32_t)vk_concretize(h->nal_unit_type); if (p) { same_header(p->nal_unit_header.get(), h.get(), "packet header"); vk_assert((p->rtp_single != nullptr) == (type <= 23) && (p->rtp_stapa != nullptr) == (type == 24) && (p->rtp_fua != nullptr) == (type == 28), "the packet is unpacked by its packetisation type"); }
  if (type <= 23) {
    Direct D; D.parse(&b, *h, &bs2); remember(bs2, D); vk_assert(p != nullptr, "a single NAL unit packet is returned"); if (!p) return;
    same_header(p->rtp_single->nal_unit_header.get(), h.get(), "single NAL unit: header"); vk_assert(p->rtp_single->nal_unit_payload != nullptr, "single NAL unit: payload"); D.same(p->rtp_single->nal_unit_payload.get(), type); vk_reach(D.ok() ? "accept" : "other");
  } else if (type == 24) {
    size_t pos = 1, k = 0; bool bad = false; const H264RtpStapAParser::RtpStapAState* s = p ? p->rtp_stapa.get() : nullptr;
    if (s) same_header(s->header.get(), h.get(), "STAP-A header");
    while (pos < n && !bad) {
      if (n - pos < 2) { bad = true; break; } size_t z = (size_t)d[pos] << 8 | d[pos + 1]; pos += 2; if (z > n - pos) { bad = true; break; } z = (size_t)vk_concretize(z); if (n - pos - z == 1) vk_skip();  // a stray byte after the last unit: the library takes it as part of that unit
      std::vector<uint8_t> u = UnescapeRbsp(d + pos, z); BitBuffer c(u.data(), u.size()); auto g = H264NalUnitHeaderParser::ParseNalUnitHeader(&c); if (!g) { bad = true; break; }
      Direct D; D.parse(&c, *g, &bs2); remember(bs2, D); uint32_t t = (uint32_t)vk_concretize(g->nal_unit_type);
      if (s) { vk_assert(k < s->nal_unit_sizes.size() && k < s->nal_unit_headers.size() && k < s->nal_unit_payloads.size(), "STAP-A: every NAL unit is returned"); vk_assert(s->nal_unit_sizes[k] == z, "STAP-A: size"); same_header(s->nal_unit_headers[k].get(), g.get(), "STAP-A: NAL unit header"); vk_assert(s->nal_unit_payloads[k] != nullptr, "STAP-A: payload"); D.same(s->nal_unit_payloads[k].get(), t); }
      pos += z; k++;
    }
    vk_assert((p != nullptr) == !bad, "STAP-A: accepted exactly when its sizes fill the packet"); if (s) vk_assert(s->nal_unit_sizes.size() == k && s->nal_unit_headers.size() == k && s->nal_unit_payloads.size() == k, "STAP-A: nothing else is returned");
    vk_reach(bad ? "reject" : "accept"); if (bad) return; if (k > 1) vk_reach("two");
  } else if (type == 28) {
    if (n < 2) { vk_assert(!p, "FU-A without FU header is rejected"); vk_reach("reject"); return; }
    vk_assert(p != nullptr, "FU-A is returned"); if (!p) return; auto& f = *p->rtp_fua; uint32_t t = d[1] & 31; same_header(f.header.get(), h.get(), "FU-A indicator");
    vk_assert(f.s_bit == (uint32_t)(d[1] >> 7) && f.e_bit == ((d[1] >> 6) & 1u) && f.r_bit == ((d[1] >> 5) & 1u) && f.fu_type == t && f.nal_ref_idc == h->nal_ref_idc, "FU-A header fields");
    if (!(d[1] >> 7)) { vk_assert(f.nal_unit_payload == nullptr, "FU-A: only the first fragment is parsed"); vk_reach("fragment"); }
    else {
      t = (uint32_t)vk_concretize(t); Hdr g; g.nal_ref_idc = h->nal_ref_idc; g.nal_unit_type = t; uint64_t fu; vk_assert(b.ReadBits(8, fu), "FU header"); Direct D; D.parse(&b, g, &bs2); remember(bs2, D);
      vk_assert(f.nal_unit_payload != nullptr, "FU-A: payload"); D.same(f.nal_unit_payload.get(), t); vk_reach(D.ok() ? "accept" : "other");
    }
  } else { vk_assert(p != nullptr, "other packetisation types are returned with their header only"); vk_reach("header"); }
  same_state(bs, bs2);
}
static void rtp_pkt(const uint8_t* fix, size_t nf, size_t nsym) { size_t n = nf + nsym; uint8_t* d = new uint8_t[n]; memcpy(d, fix, nf); vk_bytes(d + nf, nsym, "d"); rtp(d, n); delete[] d; }
extern "C" void h_rtp_single() { uint8_t f[1] = {(uint8_t)(vk_u("hdr", 3) << 5 | pick("type", 5, 0, 23))}; vk_assume((f[0] & 31) != 1 && (f[0] & 31) != 5); rtp_pkt(f, 1, pick("n", 2, 0, 2)); }
extern "C" void h_rtp_slice() { uint8_t f[2] = {(uint8_t)(vk_u("hdr", 3) << 5 | (vk_u("idr", 1) ? 5 : 1)), 0xb8}; rtp_pkt(f, 2, 2); }
extern "C" void h_rtp_other() { uint8_t f[1] = {(uint8_t)(vk_u("hdr", 3) << 5 | pick("type", 5, 25, 31))}; vk_assume(f[0] % 32 != 28); rtp_pkt(f, 1, pick("n", 2, 0, 3)); }
extern "C" void h_rtp_fua() { uint8_t f[2] = {(uint8_t)(vk_u("hdr", 3) << 5 | 28), (uint8_t)(vk_u("ser", 3) << 5 | pick("type", 5, 0, 31))}; uint32_t t = f[1] & 31; vk_assume(t != 14 && t != 20 && t != 21); rtp_pkt(f, pick("nf", 2, 1, 2), pick("n", 2, 0, 2)); }
// STAP-A: symbolic sizes and contents; the unit types are chosen
static void stapa(unsigned n, unsigned long types) { uint8_t* d = new uint8_t[n]; d[0] = (uint8_t)(vk_u("hdr", 3) << 5 | 24); vk_bytes(d + 1, n - 1, "d");
  if (n > 3) { uint8_t t = d[3] & 31; vk_assume((types >> t) & 1); }
  rtp(d, n); delete[] d; }
extern "C" void h_stapa_short() { stapa((unsigned)pick("n", 3, 1, 5), 1ul << 8 | 1ul << 6 | 1ul << 9); }
// two and three units: sizes 2+2, 3+1, 1+3 ...; every content
extern "C" void h_stapa_two() {
  unsigned a = (unsigned)pick("a", 2, 0, 3), c = (unsigned)pick("c", 2, 0, a == 3 ? 1 : 2), n = 1 + 2 + a + 2 + c; static const uint8_t tt[] = {8, 6, 7, 1}; uint8_t* d = new uint8_t[n]; d[0] = 24 | 3 << 5; d[1] = 0; d[2] = (uint8_t)a; vk_bytes(d + 3, a, "u"); d[3 + a] = 0; d[4 + a] = (uint8_t)c; vk_bytes(d + 5 + a, c, "v");
  if (a) { uint8_t t = tt[pick("t", 2, 0, 3)]; vk_assume((d[3] & 31) == t); } if (c) { uint8_t t = tt[pick("t2", 1, 0, 1)]; vk_assume((d[5 + a] & 31) == t); }
  rtp(d, n); delete[] d;
}
// three to five small units, the last ones with symbolic contents
extern "C" void h_stapa_many() {
  unsigned k = (unsigned)pick("k", 3, 3, 5), n = 1; uint8_t d[32] = {24 | 3 << 5};
  for (unsigned i = 0; i < k; i++) {
    unsigned z = i + 1 == k ? 3 : i + 2 == k ? (unsigned)pick("z", 1, 1, 1) + 1 : 1 + i % 2; d[n] = 0; d[n + 1] = (uint8_t)z; n += 2; uint8_t* q = d + n; q[0] = i % 2 ? 0x69 : 0x06; q[1] = (uint8_t)(i + 1); q[2] = 0x80;
    if (i + 1 == k) { q[0] = 0x68; vk_bytes(q + 1, 2, "v"); } else if (i + 2 == k) vk_bytes(q + 1, 1, "u");
    n += z;
  }
  uint8_t* e = new uint8_t[n]; memcpy(e, d, n); rtp(e, n); delete[] e;
}
// a unit whose escaping must not reach into the next one's size field
extern "C" void h_stapa_escape() {
  uint8_t d[12] = {24 | 3 << 5, 0, 3, 6, 0, 0, 0, 3, 8}; vk_bytes(d + 9, 2, "v"); uint8_t k = (uint8_t)pick("k", 1, 0, 1); if (k) { d[2] = 4; d[6] = 3; d[7] = 0; d[8] = 2; d[9] = 8; uint8_t* e = new uint8_t[11]; memcpy(e, d, 11); rtp(e, 11); delete[] e; return; }
  uint8_t* e = new uint8_t[11]; memcpy(e, d, 11); rtp(e, 11); delete[] e;
}
// an SPS with an emulation prevention byte inside: its size counts that byte, its contents do not
extern "C" void h_stapa_sps() {
  uint8_t d[17] = {24 | 3 << 5, 0, 8, 0x67, 66, 0, 0, 3, 0, 0xff, 0xf0, 0, 4, 0x68, 0x4c, 0xe3, 0x88}; vk_bytes(d + 8, 1, "v"); uint8_t* e = new uint8_t[17]; memcpy(e, d, 17); rtp(e, 17); delete[] e;
}
// a slice that needs the PPS carried earlier in the same packet
extern "C" void h_stapa_dep() {
  uint8_t d[13] = {24 | 3 << 5, 0, 4, 0x68, 0x4c, 0xe3, 0x88, 0, 4, 0x41, 0x88}; if (pick("id", 1, 0, 1)) d[4] = 0x6c; vk_bytes(d + 11, 2, "v"); uint8_t* e = new uint8_t[13]; memcpy(e, d, 13); rtp(e, 13); delete[] e;
}

// ---- long units
static const size_t far_len[] = {127, 128, 255, 256, 257, 300, 4095, 4096, 32767, 32768, 65535, 65536};
// units far longer than what is parsed of them, with emulation prevention bytes in the part that is
extern "C" void h_nal_far() {
  static const uint8_t head[][6] = {{0x41, 0xb8, 0, 0, 3, 1}, {0x06, 0, 0, 3, 1, 5}, {0x09, 0xf0, 0, 0, 3, 3}, {0x01, 0xb8, 0x80, 0, 0, 3}}; unsigned k = (unsigned)pick("k", 2, 0, 3); size_t n = far_len[pick("len", 4, 0, 11)] + pick("one", 1, 0, 1);
  uint8_t* d = new uint8_t[n]; memset(d, 0x5a, n); memcpy(d, head[k], 6); size_t q = k % 2 ? 2 : 1; d[q] = (uint8_t)(d[q] ^ vk_u("d", 4)); dispatch(d, n); delete[] d;
}
// a long first aggregated unit and a PPS after it
extern "C" void h_stapa_far() {
  size_t pre = 3 * pick("pre", 1, 0, 1), z = far_len[pick("len", 4, 0, 10)], o = 4 * pre, n = o + 1 + 2 + z + 2 + 3; uint8_t* d = new uint8_t[n]; memset(d, 0x5a, n); d[0] = 24 | 3 << 5; for (size_t i = 0; i < pre; i++) { uint8_t* q = d + 1 + 4 * i; q[0] = 0; q[1] = 2; q[2] = i % 2 ? 6 : 9; q[3] = 0xf0; }
  uint8_t* e = d + o; e[1] = (uint8_t)(z >> 8); e[2] = (uint8_t)z; e[3] = pick("k", 1, 0, 1) ? 0x41 : 0x06; e[4] = 0xb8; e[5] = (uint8_t)(0xf0 | vk_u("u", 1)); e[3 + z] = 0; e[4 + z] = (uint8_t)(3 + pick("over", 1, 0, 1)); e[5 + z] = 0x68; e[6 + z] = 0xce; e[7 + z] = (uint8_t)(0x80 | vk_u("v", 6)); rtp(d, n); delete[] d;
}
// packets of many units: the last is a PPS
extern "C" void h_stapa_count() {
  static const unsigned cnt[] = {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 256, 257}; unsigned k = cnt[pick("cnt", 4, 0, 15)]; size_t n = 1 + 4 * (k - 1) + 5; uint8_t* d = new uint8_t[n]; d[0] = 24 | 3 << 5;
  for (unsigned i = 0; i + 1 < k; i++) { uint8_t* q = d + 1 + 4 * i; q[0] = 0; q[1] = 2; q[2] = i % 2 ? 6 : 9; q[3] = (uint8_t)(0x10 | (i & 15)); }
  uint8_t* e = d + n - 5; e[0] = 0; e[1] = (uint8_t)(3 + pick("over", 1, 0, 1)); e[2] = 0x68; e[3] = 0xce; e[4] = (uint8_t)(0x80 | vk_u("v", 6)); rtp(d, n); delete[] d;
}
// the same id twice in one packet: the later one counts, and later units are read with it
extern "C" void h_stapa_order() {
  uint8_t d[19] = {24 | 3 << 5, 0, 4, 0x68, 0xce, 0x38, 0x80, 0, 2, 9, 0x10, 0, 4, 0x68, 0xce, 0x38, 0x80}; d[5] = (uint8_t)vk_u("u", 8); d[15] = (uint8_t)vk_u("v", 8);
  H264BitstreamParserState bs, bs2; seed(bs); seed(bs2); uint8_t* e = new uint8_t[17]; memcpy(e, d, 17); auto p = H264RtpParser::ParseRtp(e, 17, &bs); vk_assert(p != nullptr, "STAP-A: returned");
  std::shared_ptr<H264PpsParser::PpsState> last; const uint8_t* at[] = {d + 4, d + 14}; for (auto q : at) { BitBuffer b(q, 3); auto x = H264PpsParser::ParsePps(&b, 1); if (x) last = x; }
  auto got = bs.GetPps(0); if (!last) last = bs2.GetPps(0); vk_assert((got != nullptr) == (last != nullptr), "a PPS is remembered"); if (!got || !last) return;
  FILE *x = vk_file(2), *y = vk_file(3); got->fdump(x, 0); last->fdump(y, 0); vk_same_output(x, y, "the last valid PPS of the packet counts"); vk_reach("accept"); delete[] e;
}
extern "C" void h_rtp_far() {
  size_t n = far_len[pick("len", 4, 0, 11)]; uint8_t* d = new uint8_t[n]; memset(d, 0x5a, n); unsigned k = (unsigned)pick("k", 2, 0, 2); d[0] = k == 0 ? 0x41 : 0x7c; d[1] = k == 0 ? 0xb8 : k == 1 ? 0x81 : 0x05; d[2] = 0xb8; vk_bytes(d + 3, 1, "u"); rtp(d, n); delete[] d;
}
