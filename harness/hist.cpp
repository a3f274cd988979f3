// histories of NAL units: parameter-set memory, and whole streams
#include "ref_svc.h"
#include <string.h>
#include "h264_nal_unit_parser.h"
#include "h264_bitstream_parser.h"
#include "h264_slice_layer_without_partitioning_rbsp_parser.h"
using namespace h264nal;
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
struct BW {  // bit string of concrete length, symbolic content
  uint8_t d[32] = {0}; unsigned n = 0;
  void u(unsigned k, uint64_t v) { for (unsigned i = k; i-- > 0; n++) d[n / 8] = (uint8_t)(d[n / 8] | ((v >> i) & 1) << (7 - n % 8)); }
  void ue(uint32_t v) { unsigned k = 0; while (((uint64_t)v + 1) >> (k + 1)) k++; u(k, 0); u(k + 1, (uint64_t)v + 1); }  // concrete v
  bool wide = false;
  void ue3(uint32_t v) { if (wide) { ue(v); return; } u(2, 0); u(3, v + 1); }                                                                     // symbolic v in 3..6
  void end() { u(1, 1); while (n % 8) u(1, 0); }
};
// one SPS / subset SPS / PPS; `tag` marks the version
// `var` (1: sizes only, 2: all): everything else about it is symbolic too (profile, flags, frame_num size, reference frames, frame size)
static void put_sps(BW& w, bool sub, uint32_t id, uint32_t tag, bool bad, uint32_t fn = 0, int var = 0) {
  w.u(8, sub ? 0x6f : 0x67); w.u(8, sub ? 83 + (var > 1 ? 3 * vk_u("prof", 1) : 0) : 66 + (var > 1 ? 11 * vk_u("prof", 1) : 0)); w.u(8, var > 1 ? vk_u("flags", 6) << 2 : 0x40); w.u(8, 64 | tag); w.ue3(id);
  if (sub) { w.ue(1); w.ue(0); w.ue(0); w.u(1, 0); w.u(1, 0); }
  if (var && !bad) { w.ue3(3 + (uint32_t)vk_u("fn", 2)); w.ue(2); w.ue3(3 + (uint32_t)vk_u("refs", 2)); w.u(1, var > 1 ? vk_u("gaps", 1) : 0); w.ue3(3 + (uint32_t)vk_u("width", 2)); w.ue3(3 + (uint32_t)vk_u("height", 2)); w.u(1, 1); w.u(1, var > 1 ? vk_u("d8x8", 1) : 1); w.u(2, 0); }
  else { w.ue(bad ? 13 : fn); w.ue(2); w.ue(1); w.u(1, 0); w.ue(10); w.ue(10); w.u(4, 12); }
  if (sub) { w.u(1, 0); w.u(2, 0); w.u(1, 0); w.u(2, 0); w.u(1, 0); w.u(1, 1); w.u(1, 0); w.u(1, 0); }
  w.end();
}
static void put_pps(BW& w, uint32_t id, uint32_t sps, uint32_t tag, bool bad, int var = 0) {
  w.u(8, 0x68); w.ue3(id); w.ue3(sps); w.u(2, var > 1 ? vk_u("ent", 2) : 0); w.ue(bad ? 9 : 0); w.ue3(tag); if (var) w.ue3(3 + (uint32_t)vk_u("l1", 2)); else w.ue(0); w.u(1, var > 1 ? vk_u("wp", 1) : 0); w.u(2, var > 1 ? vk_u("bi", 1) : 0); if (var) w.ue3(3 + (uint32_t)vk_u("qp", 2)); else w.ue(0); w.ue(0); w.ue(0); w.u(3, var > 1 ? vk_u("fl", 3) : 0); w.end();
}
static std::unique_ptr<H264NalUnitParser::NalUnitState> feed(BW& w, H264BitstreamParserState& bs) {
  uint8_t* d = new uint8_t[w.n / 8]; memcpy(d, w.d, w.n / 8); ParsingOptions o; o.add_checksum = false; auto u = H264NalUnitParser::ParseNalUnit(d, w.n / 8, &bs, o);
  if (u) vk_assert(u->checksum == nullptr && u->nal_unit_header && u->nal_unit_payload && u->nal_unit_header->nal_unit_type == (d[0] & 31u) && u->nal_unit_header->nal_ref_idc == ((d[0] >> 5) & 3u), "unit: its own header, no checksum unless asked for");
  if (u && (u->nal_unit_payload->sps || u->nal_unit_payload->pps || u->nal_unit_payload->subset_sps)) vk_assert(u->parsed_length == UnescapeRbsp(d, w.n / 8).size(), "unit: a parameter set is parsed to its end");
  delete[] d; return u;
}
static uint32_t id4(const char* n) { return 3 + (uint32_t)vk_u(n, 2); }
// any history: the last valid parameter set of each id is the one remembered; ids are symbolic
static void history(int steps) {
  struct G { bool set = false; uint32_t tag = 0; }; G g[3][4]; H264BitstreamParserState bs;
  std::shared_ptr<H264SpsParser::SpsState> held; uint32_t held_tag = 0;
  for (int i = 0; i < steps; i++) {
    unsigned kind = (unsigned)pick("kind", 2, 0, 2); bool bad = pick("bad", 1, 0, 1); uint32_t id = id4("id"), tag = 3 + (uint32_t)vk_u("tag", 2); BW w;
    int var = steps > 2 ? 1 : 2; if (kind == 2) put_pps(w, id, id4("ref"), tag, bad, var); else put_sps(w, kind == 1, id, tag, bad, 0, var);
    auto u = feed(w, bs); vk_assert(u != nullptr, "history: the unit is returned"); if (!u) return;
    for (uint32_t k = 0; k < 4; k++) if (!bad && k + 3 == id) { g[kind][k].set = true; g[kind][k].tag = tag; }
    for (uint32_t k = 0; k < 4; k++) {
      auto a = bs.GetSps(k + 3); auto b = bs.GetSubsetSps(k + 3); auto c = bs.GetPps(k + 3);
      vk_assert((a != nullptr) == g[0][k].set, "history: exactly the SPSs received are remembered"); if (a) vk_assert(a->sps_data->level_idc == (64 | g[0][k].tag) && a->sps_data->seq_parameter_set_id == k + 3, "history: the last valid SPS of an id counts");
      vk_assert((b != nullptr) == g[1][k].set, "history: exactly the subset SPSs received are remembered"); if (b) vk_assert(b->seq_parameter_set_data->level_idc == (64 | g[1][k].tag) && b->seq_parameter_set_data->seq_parameter_set_id == k + 3, "history: the last valid subset SPS of an id counts");
      vk_assert((c != nullptr) == g[2][k].set, "history: exactly the PPSs received are remembered"); if (c) vk_assert(c->num_ref_idx_l0_default_active_minus1 == g[2][k].tag && c->pic_parameter_set_id == k + 3, "history: the last valid PPS of an id counts");
    }
    vk_assert(bs.GetSps(0) == nullptr && bs.GetPps(7) == nullptr && bs.GetSubsetSps(31) == nullptr && bs.GetPps(259) == nullptr, "history: unknown ids stay unknown");
    if (i == 0 && kind == 0) { held = u->nal_unit_payload->sps; held_tag = tag; }
    if (held) vk_assert(held->sps_data->level_idc == (64 | held_tag), "history: a parameter set already handed out does not change");
  }
  vk_reach("done");
}
extern "C" void h_hist2() { history(2); }
extern "C" void h_hist3() { history(3); }
extern "C" void h_hist4() { history(4); }
// boundary ids, two units of one kind: no id is mistaken for another
extern "C" void h_hist_ids() {
  static const uint32_t ids[] = {0, 1, 2, 7, 15, 16, 30, 31, 32, 63, 64, 127, 128, 254, 255, 256}; unsigned kind = (unsigned)pick("kind", 2, 0, 2); uint32_t id[2] = {ids[pick("a", 4, 0, 15)], ids[pick("b", 4, 0, 15)]}; H264BitstreamParserState bs; uint32_t max = kind == 2 ? 255 : 31;
  for (int i = 0; i < 2; i++) { BW w; w.wide = true; if (kind == 2) put_pps(w, id[i], 1, 3 + (uint32_t)i, false); else put_sps(w, kind == 1, id[i], (uint32_t)i, false); feed(w, bs); }
  for (uint32_t k : ids) {
    int want = k > max ? -1 : id[1] == k ? 1 : id[0] == k ? 0 : -1; int got = -1; bool any = false;
    if (kind == 0) { auto p = bs.GetSps(k); any = p != nullptr; if (p) got = (int)(p->sps_data->level_idc - 64); vk_assert(!bs.GetPps(k) && !bs.GetSubsetSps(k), "ids: kinds are separate"); }
    if (kind == 1) { auto p = bs.GetSubsetSps(k); any = p != nullptr; if (p) got = (int)(p->seq_parameter_set_data->level_idc - 64); vk_assert(!bs.GetPps(k) && !bs.GetSps(k), "ids: kinds are separate"); }
    if (kind == 2) { auto p = bs.GetPps(k); any = p != nullptr; if (p) got = (int)(p->num_ref_idx_l0_default_active_minus1 - 3); vk_assert(!bs.GetSps(k) && !bs.GetSubsetSps(k), "ids: kinds are separate"); }
    vk_assert(any == (want >= 0), "ids: exactly the legal ids received are known"); if (any) vk_assert(got == want, "ids: the last one received counts");
  }
  vk_reach("done");
}
// a slice is read with the PPS and SPS that are current when it arrives, whatever came before
extern "C" void h_hist_slice() {
  H264BitstreamParserState bs; bool sp[2] = {false, false}, pp[2] = {false, false}; uint32_t fn[2] = {0, 0}, ref[2] = {0, 0}, tg[2] = {0, 0};
  int steps = (int)pick("steps", 2, 2, 3);
  for (int i = 0; i < steps; i++) {
    BW w; unsigned k = (unsigned)pick("id", 1, 0, 1); bool bad = i == steps - 1 && pick("bad", 1, 0, 1);
    if (pick("kind", 1, 0, 1)) { uint32_t r = (uint32_t)pick("ref", 1, 0, 1), t = 3 + (uint32_t)vk_u("tag", 2); put_pps(w, 3 + k, 3 + r, t, bad); if (!bad) { pp[k] = true; ref[k] = r; tg[k] = t; } }
    else { uint32_t f = pick("fn", 1, 0, 1) ? 7 : 0; put_sps(w, false, 3 + k, 5, bad, f); if (!bad) { sp[k] = true; fn[k] = f; } }
    feed(w, bs);
  }
  unsigned q = (unsigned)pick("pps", 1, 0, 1); uint32_t v = (uint32_t)vk_u("frame_num", 11); BW w; w.u(8, 0x41); w.ue(0); w.ue(5); w.ue3(3 + q);
  bool ok = pp[q] && sp[ref[q]]; unsigned nb = ok ? fn[ref[q]] + 4 : 4; w.u(nb, v); w.u(1, 0); w.u(1, 0); w.u(1, 0); w.u(1, 0); w.ue(0); w.end();
  auto u = feed(w, bs); vk_assert(u != nullptr, "slice unit returned"); auto* s = u->nal_unit_payload->slice_layer_without_partitioning_rbsp.get();
  vk_assert((s != nullptr) == ok, "a slice is parsed exactly when its PPS and that PPS's SPS are known");
  if (s) { auto& h = *s->slice_header; vk_assert(h.frame_num == (v & ((1u << nb) - 1)), "the slice is read with the current SPS"); vk_assert(h.num_ref_idx_l0_active_minus1 == tg[q], "the slice is read with the current PPS"); vk_reach("accept"); } else vk_reach("reject");
}
// a slice, then parameter sets received again, then a slice: each is read with what is current when it arrives
static void put_slice(BW& w, uint32_t pps, unsigned nb, uint32_t v) { w.u(8, 0x41); w.ue(0); w.ue(5); w.ue3(pps); w.u(nb, v); w.u(1, 0); w.u(1, 0); w.u(1, 0); w.u(1, 0); w.ue(0); w.end(); }
extern "C" void h_hist_slices() {
  H264BitstreamParserState bs; uint32_t fn[2] = {0, 7}, ref[2] = {0, 1}, tg[2] = {3, 4}; for (uint32_t k = 0; k < 2; k++) { BW w; put_sps(w, false, 3 + k, 5, false, fn[k]); feed(w, bs); } for (uint32_t k = 0; k < 2; k++) { BW w; put_pps(w, 3 + k, 3 + k, tg[k], false); feed(w, bs); }
  int rounds = (int)pick("rounds", 1, 0, 1) + 2;
  for (int r = 0; r < rounds; r++) {
    if (r) { BW w; unsigned k = (unsigned)pick("id", 1, 0, 1); bool bad = pick("bad", 1, 0, 1);
      if (pick("kind", 1, 0, 1)) { uint32_t q = (uint32_t)pick("ref", 1, 0, 1), t = 3 + (uint32_t)vk_u("tag", 2); put_pps(w, 3 + k, 3 + q, t, bad); if (!bad) { ref[k] = q; tg[k] = t; } }
      else { uint32_t f = fn[k] ? 0 : 7; put_sps(w, false, 3 + k, 5, bad, f); if (!bad) fn[k] = f; }
      auto u = feed(w, bs); vk_assert(u != nullptr, "slices: parameter set returned"); }
    if (r == 1 && rounds == 3 && pick("aud", 1, 0, 1)) { static const uint8_t t[] = {9, 10, 11, 6}; BW w; w.u(8, t[pick("t", 2, 0, 3)]); w.u(8, 0x80); feed(w, bs); }
    unsigned q = (unsigned)pick("pps", 1, 0, 1); uint32_t v = (uint32_t)vk_u("frame_num", 11); BW w; unsigned nb = fn[ref[q]] + 4; put_slice(w, 3 + q, nb, v);
    auto u = feed(w, bs); vk_assert(u != nullptr, "slices: unit returned"); if (!u) return; auto* s = u->nal_unit_payload->slice_layer_without_partitioning_rbsp.get(); vk_assert(s != nullptr, "slices: a slice whose parameter sets are known is parsed"); if (!s) return;
    vk_assert(s->slice_header->frame_num == (v & ((1u << nb) - 1)), "slices: read with the current SPS"); vk_assert(s->slice_header->num_ref_idx_l0_active_minus1 == tg[q], "slices: read with the current PPS");
  }
  vk_reach("done");
}
// ---- whole streams: the units of the stream, each parsed on its own in order
static const uint8_t hdrs[] = {0x68, 0x06, 0x0e, 0x09};  // PPS, SEI, prefix (its header may be truncated), AUD
#ifdef VK_SMALL
static void same_unit(const H264NalUnitParser::NalUnitState* a, const H264NalUnitParser::NalUnitState* b, ParsingOptions) {
  vk_assert(a->nal_unit_header->nal_unit_type == b->nal_unit_header->nal_unit_type && a->nal_unit_header->nal_ref_idc == b->nal_unit_header->nal_ref_idc, "stream: unit header"); vk_assert(a->parsed_length == b->parsed_length, "stream: parsed length"); vk_assert((a->checksum != nullptr) == (b->checksum != nullptr), "stream: checksum");
  auto &p = a->nal_unit_payload->pps, &q = b->nal_unit_payload->pps; vk_assert((p != nullptr) == (q != nullptr), "stream: each unit is what it is on its own"); if (p && q) vk_assert(p->pic_parameter_set_id == q->pic_parameter_set_id && p->pic_init_qp_minus26 == q->pic_init_qp_minus26, "stream: each unit is what it is on its own");
}
#else
static void same_unit(const H264NalUnitParser::NalUnitState* a, const H264NalUnitParser::NalUnitState* b, ParsingOptions o) { FILE *x = vk_file(0), *y = vk_file(1); a->fdump(x, 0, o); b->fdump(y, 0, o); vk_same_output(x, y, "stream: each unit is what it is on its own"); }
#endif
static void check_stream(const H264BitstreamParser::BitstreamState* s, const uint8_t* d, const std::vector<std::pair<size_t, size_t>>& units, H264BitstreamParserState& bs, H264BitstreamParserState& bs2, ParsingOptions o) {
  vk_assert(s != nullptr, "stream: parsed"); if (!s) return; size_t k = 0;
  for (auto& x : units) {
    auto u = H264NalUnitParser::ParseNalUnit(d + x.first, x.second, &bs2, o); if (!u) { vk_reach("skipped"); continue; }
    vk_assert(k < s->nal_units.size(), "stream: every parseable NAL unit is returned, in order"); if (k >= s->nal_units.size()) return;
    vk_assert(s->nal_units[k]->offset == x.first, "stream: offset"); vk_assert(s->nal_units[k]->length == x.second, "stream: length");
    u->offset = x.first; u->length = x.second; same_unit(s->nal_units[k].get(), u.get(), o); k++;
  }
  vk_assert(s->nal_units.size() == k, "stream: nothing else is returned"); vk_assert(bs.pps.size() == bs2.pps.size() && bs.sps.size() == bs2.sps.size(), "stream: parameter sets are remembered"); vk_reach("done");
}
static size_t put_unit(uint8_t* d, size_t n, size_t len, bool first) {
  if (len) { d[n] = hdrs[pick("hdr", 2, first && len < 3 ? 0 : 1, 3)]; if (len > 1) vk_bytes(d + n + 1, len - 1, "u"); for (size_t i = 1; i < len; i++) vk_assume(d[n + i] != 0); } return n + len;
}
static ParsingOptions opts() { ParsingOptions o; o.add_checksum = pick("cs", 1, 0, 1); return o; }
static void stream(unsigned kmax) {
  uint8_t b[32]; size_t n = 0; std::vector<std::pair<size_t, size_t>> units; unsigned k = (unsigned)pick("k", 2, 0, kmax); ParsingOptions o = opts(); if (o.add_checksum) vk_assume(k < 2); if (k < 3 && pick("junk", 1, 0, 1)) b[n++] = 0xff;
  for (unsigned i = 0; i < k; i++) { if (pick("z", 1, 0, 1)) b[n++] = 0; b[n++] = 0; b[n++] = 0; b[n++] = 1; size_t l = pick("len", 2, i == k - 1 ? 1 : 0, k == 3 ? (i == 1 ? 1 : 2) : i == 0 ? 3 : 2); size_t m = put_unit(b, n, l, i == 0); units.push_back({n, l}); n = m; }
  uint8_t* d = new uint8_t[n]; memcpy(d, b, n);
  { H264BitstreamParserState bs, bs2; auto s = H264BitstreamParser::ParseBitstream(d, n, &bs, o); check_stream(s.get(), d, units, bs, bs2, o); }
  delete[] d;
}
extern "C" void h_stream() { stream(3); }
static void lenstream(unsigned kmax) {
  uint8_t b[64]; size_t n = 0, w = pick("w", 4, 0, 8); std::vector<std::pair<size_t, size_t>> units; unsigned k = w ? (unsigned)pick("k", 2, 0, kmax) : 1; ParsingOptions o; o.add_checksum = false; bool open = true;
  if (!w) { size_t l = pick("len", 2, 1, 3); put_unit(b, 0, l, true); units.push_back({0, l}); n = l; }
  for (unsigned i = 0; w && i < k; i++) {
    size_t l = pick("len", 2, 0, k == 3 ? (i == 1 ? 1 : 2) : i ? 2 : 3); for (size_t j = 0; j < w; j++) b[n + j] = (uint8_t)(j == w - 1 ? l : 0);
    unsigned how = (unsigned)pick("how", 2, 0, i == k - 1 ? 2 : 0);
    if (how == 1) { n += pick("cut", 3, 0, w - 1); break; }                                                    // truncated prefix
    if (how == 2) { vk_bytes(b + n, w, "pfx"); bool big = false; for (size_t j = 0; j + 1 < w; j++) big = big || b[n + j] != 0; vk_assume(big || b[n + w - 1] > l); n = put_unit(b, n + w, l, false); break; }  // more than there is
    n += w; if (l == 0) open = false; size_t m = put_unit(b, n, l, i == 0); if (open) units.push_back({n, l}); n = m;
  }
  uint8_t* d = new uint8_t[n]; memcpy(d, b, n);
  { H264BitstreamParserState bs, bs2; auto s = H264BitstreamParser::ParseBitstreamNALULength(d, n, w, &bs, o); check_stream(s.get(), d, units, bs, bs2, o); }
  delete[] d;
}
extern "C" void h_lenstream() { lenstream(3); }

// long length-prefixed units, widths that can express them
extern "C" void h_lenstream_far() {
  static const size_t len[] = {127, 128, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 70000}; size_t w = pick("w", 4, 1, 8), l = len[pick("len", 4, 0, 10)]; vk_assume(w <= 4 || w == 8); size_t z = pick("last", 1, 0, 1), n = 2 * w + l + 2 + z; vk_assume(w > 2 || l < (w == 1 ? 256u : 65536u)); ParsingOptions o; o.add_checksum = false;
  uint8_t* d = new uint8_t[n]; memset(d, 0x5a, n); auto put = [&](size_t at, size_t v) { for (size_t j = 0; j < w; j++) d[at + j] = (uint8_t)(w - 1 - j < 8 ? v >> 8 * (w - 1 - j) : 0); }; put(0, l); put(w + l, 2); d[w] = 6; d[2 * w + l] = 0x68; d[2 * w + l + 1] = (uint8_t)(0xc8 ^ vk_u("u", 3)); if (z) d[n - 1] = 0;
  std::vector<std::pair<size_t, size_t>> units = {{w, l}, {2 * w + l, 2}}; { H264BitstreamParserState bs, bs2; auto s = H264BitstreamParser::ParseBitstreamNALULength(d, n, w, &bs, o); check_stream(s.get(), d, units, bs, bs2, o); }
  delete[] d;
}
// hundreds of units in one stream
extern "C" void h_stream_many() {
  size_t m = pick("m", 10, 255, 258), n = 0; bool len = pick("len", 1, 0, 1); uint8_t* d = new uint8_t[m * 8 + 8]; std::vector<std::pair<size_t, size_t>> units; ParsingOptions o; o.add_checksum = false;
  for (size_t i = 0; i < m; i++) { size_t l = 1 + i % 3; if (i + 1 == m) l = 2; d[n++] = 0; d[n++] = 0; if (len) { d[n++] = 0; d[n++] = (uint8_t)l; } else d[n++] = 1; units.push_back({n, l}); for (size_t j = 0; j < l; j++) d[n++] = (uint8_t)(j ? 0x80 | i : i % 4 == 3 ? 0x68 : 0x09); }
  d[n - 1] = (uint8_t)(0x81 ^ vk_u("u", 2)); { H264BitstreamParserState bs, bs2; auto s = len ? H264BitstreamParser::ParseBitstreamNALULength(d, n, 4, &bs, o) : H264BitstreamParser::ParseBitstream(d, n, &bs, o); check_stream(s.get(), d, units, bs, bs2, o); }
  delete[] d;
}
#ifndef VK_SMALL
// every id of a kind in use, then one received again
extern "C" void h_hist_many() {
  unsigned kind = (unsigned)pick("kind", 2, 0, 2), up = (unsigned)pick("up", 1, 0, 1), n = kind == 2 ? 256 : 32; static const uint32_t ids[] = {0, 1, 6, 7, 8, 9, 15, 16, 30, 31, 32, 64, 127, 128, 254, 255}; uint32_t re = ids[pick("re", 4, 0, 15)]; vk_assume(re < n); bool bad = pick("bad", 1, 0, 1); uint32_t t = (uint32_t)vk_u("tag", 2);
  H264BitstreamParserState bs; std::shared_ptr<H264SpsParser::SpsState> h0; std::shared_ptr<H264SubsetSpsParser::SubsetSpsState> h1; std::shared_ptr<H264PpsParser::PpsState> h2;
  { BW w; w.wide = true; put_sps(w, false, 5, 9, false); feed(w, bs); } { BW w; w.wide = true; put_sps(w, true, 5, 9, false); feed(w, bs); } { BW w; w.wide = true; put_pps(w, 5, 5, 9, false); feed(w, bs); }
  for (unsigned i = 0; i <= n; i++) {
    uint32_t id = i == n ? re : up ? i : n - 1 - i, tag = i == n ? 3 + t : 8 + id % 5; BW w; w.wide = i < n; if (i == n) { w.wide = true; if (kind == 2) { w.u(8, 0x68); w.ue(id); w.ue(5); w.u(2, 0); w.ue(bad ? 9 : 0); w.u(2, 0); w.u(3, tag + 1); w.ue(0); w.u(1, 0); w.u(2, 0); w.ue(0); w.ue(0); w.ue(0); w.u(3, 0); w.end(); } else put_sps(w, kind == 1, id, tag, bad); }
    else if (kind == 2) put_pps(w, id, 5, tag, false); else put_sps(w, kind == 1, id, tag, false);
    auto u = feed(w, bs); vk_assert(u != nullptr, "many: the unit is returned"); if (i < n && id == re) { h0 = u->nal_unit_payload->sps; h1 = u->nal_unit_payload->subset_sps; h2 = u->nal_unit_payload->pps; }
  }
  for (uint32_t k = 0; k < 256; k++) {
    auto a = bs.GetSps(k); auto b = bs.GetSubsetSps(k); auto c = bs.GetPps(k); uint32_t tag = k == re && !bad ? 3 + t : 8 + k % 5;
    vk_assert((a != nullptr) == (kind == 0 ? k < n : k == 5) && (b != nullptr) == (kind == 1 ? k < n : k == 5) && (c != nullptr) == (kind == 2 ? k < n : k == 5), "many: exactly the ids received are known");
    if (a) vk_assert(a->sps_data->seq_parameter_set_id == k && a->sps_data->level_idc == (64 | (kind == 0 ? tag : 9)), "many: the last valid SPS of an id counts"); if (b) vk_assert(b->seq_parameter_set_data->seq_parameter_set_id == k && b->seq_parameter_set_data->level_idc == (64 | (kind == 1 ? tag : 9)), "many: the last valid subset SPS of an id counts");
    if (c) vk_assert(c->pic_parameter_set_id == k && c->num_ref_idx_l0_default_active_minus1 == (kind == 2 ? tag : 9), "many: the last valid PPS of an id counts");
  }
  if (h0) vk_assert(h0->sps_data->level_idc == (64 | (8 + re % 5)), "many: an SPS handed out does not change"); if (h1) vk_assert(h1->seq_parameter_set_data->level_idc == (64 | (8 + re % 5)), "many: a subset SPS handed out does not change"); if (h2) vk_assert(h2->num_ref_idx_l0_default_active_minus1 == 8 + re % 5, "many: a PPS handed out does not change");
  vk_reach("done");
}
#endif
