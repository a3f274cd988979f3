// two parses with parser states of their own: neither affects the other, in sequence or with one running inside the other (context switch at any access to a mutable global)
#include "ref_svc.h"
#include <string.h>
#include <string>
#include <thread>
#include <chrono>
#include "h264_nal_unit_parser.h"
#include "h264_bitstream_parser.h"
using namespace h264nal;
typedef H264BitstreamParser::BitstreamState Bits;
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
// streams of length-prefixed units (one byte each): parameter sets, then what uses them; `sym` is the offset of a symbolic byte
struct Menu { uint8_t d[48]; size_t n; size_t sym; };
static const Menu menu[] = {
  // SPS with a VUI-less tail and an emulation prevention byte; PPS
  {{9, 0x67, 66, 0, 10, 0x95, 0xa0, 0x42, 0, 0x80, 4, 0x68, 0xce, 0x38, 0x80}, 15, 5},
  // SPS, PPS, slice
  {{8, 0x67, 66, 0, 10, 0xf8, 0x41, 0xa2, 0x80, 4, 0x68, 0xce, 0x38, 0x80, 6, 0x65, 0xb8, 0x40, 0x5a, 0x5a, 0x80}, 21, 17},
  // an extension the library does not parse (MVC), a delimiter
  {{5, 0x74, 0x40, 0x00, 0x07, 0x80, 2, 0x09, 0x10}, 9, 8},
  // prefix unit and SEI with emulation prevention bytes
  {{7, 0x6e, 0xc0, 0x80, 0x0f, 0, 0, 3, 5, 0x06, 0, 0, 3, 1}, 14, 4},
  // broken SPS, PPS with another id
  {{3, 0x67, 66, 0, 4, 0x68, 0x4c, 0xe3, 0x88}, 9, 7},
};
struct Side { uint8_t* d; size_t n; H264BitstreamParserState bs; std::unique_ptr<Bits> r; };
static ParsingOptions opts() { ParsingOptions o; o.add_offset = o.add_length = o.add_parsed_length = o.add_checksum = o.add_resolution = true; return o; }
static void parse(Side& s) { s.r = H264BitstreamParser::ParseBitstreamNALULength(s.d, s.n, 1, &s.bs, opts()); }
static void show(const Side& s, FILE* f) {
  if (!s.r) { fprintf(f, "none"); return; }
  for (auto& u : s.r->nal_units) { u->fdump(f, -1, opts()); fprintf(f, "\n"); }
  fprintf(f, "%zu %zu %zu\n", s.bs.sps.size(), s.bs.pps.size(), s.bs.subset_sps.size());
  for (uint32_t i = 0; i < 3; i++) { auto a = s.bs.GetSps(i); if (a) a->fdump(f, -1, opts()); auto p = s.bs.GetPps(i); if (p) p->fdump(f, -1); }
}
static std::string text(const Side& s) { char* p = nullptr; size_t n = 0; FILE* f = open_memstream(&p, &n); show(s, f); fclose(f); std::string r(p, n); free(p); return r; }
static Side* g_b;
static void run_b() { parse(*g_b); }
// natively: both sides over and over, at the same time
static void stress(const uint8_t* da, size_t na, const uint8_t* db, size_t nb, uint32_t ca, uint32_t cb) {
  auto one = [](const uint8_t* d, size_t n) { Side s; s.d = (uint8_t*)d; s.n = n; parse(s); return text(s); };
  std::string ea = one(da, na), eb = one(db, nb); reset_unimplemented_count(); bool bad[2] = {false, false}; uint32_t k[2] = {0, 0};
  auto loop = [&](int i, const uint8_t* d, size_t n, const std::string& e) { auto t0 = std::chrono::steady_clock::now(); while (k[i] < 20000 && !bad[i]) { for (int j = 0; j < 20; j++) { Side s; s.d = (uint8_t*)d; s.n = n; parse(s); k[i]++; if (j == 0 && text(s) != e) bad[i] = true; } if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(1500)) break; } };
  std::thread t(loop, 1, db, nb, std::cref(eb)); loop(0, da, na, ea); t.join();
  vk_assert(!bad[0] && !bad[1], "at the same time in two threads: each parse reads as it does alone");
  vk_assert(get_unimplemented_count() == k[0] * ca + k[1] * cb, "unsupported structures of two threads are all counted");
}
static void iso(unsigned ka, unsigned kb) {
  const Menu *ma = &menu[ka], *mb = &menu[kb]; uint8_t *da = new uint8_t[ma->n], *db = new uint8_t[mb->n]; memcpy(da, ma->d, ma->n); memcpy(db, mb->d, mb->n); da[ma->sym] = (uint8_t)(da[ma->sym] ^ vk_u("u", 3)); db[mb->sym] = (uint8_t)(db[mb->sym] ^ vk_u("v", 3));
  uint64_t at = pick("at", 4, 0, 15);
  Side a0, b0, a1, b1; a0.d = a1.d = da; a0.n = a1.n = ma->n; b0.d = b1.d = db; b0.n = b1.n = mb->n;
  reset_unimplemented_count(); parse(a0); uint32_t ca = get_unimplemented_count(); FILE* fa0 = vk_file(0); show(a0, fa0);
  reset_unimplemented_count(); parse(b0); uint32_t cb = get_unimplemented_count(); FILE* fb0 = vk_file(1); show(b0, fb0);
  // what A returned is as it was
  FILE* fa = vk_file(2); show(a0, fa); vk_same_output(fa0, fa, "a later parse leaves an earlier result as it was");
  reset_unimplemented_count(); g_b = &b1; vk_preempt(run_b, at); parse(a1); vk_preempt(nullptr, 0); if (!b1.r) parse(b1);
  FILE *fa1 = vk_file(3), *fb1 = vk_file(4); show(a1, fa1); show(b1, fb1);
  vk_assert(get_unimplemented_count() == ca + cb, "unsupported structures of both parses are all counted");
  vk_same_output(fa0, fa1, "a parse reads the same with another one before it or inside it"); vk_same_output(fb0, fb1, "the other parse reads the same");
  if (vk_native()) stress(da, ma->n, db, mb->n, ca, cb);
  vk_reach("done"); delete[] da; delete[] db;
}
extern "C" void h_iso() { iso((unsigned)pick("a", 3, 0, 4), (unsigned)pick("b", 3, 0, 4)); }
// the count alone, and reading it
static bool g_ran;
static void one_more() { report_unimplemented("a", "b"); }
static void other() { g_ran = true; one_more(); }
extern "C" void h_iso_count() {
  uint64_t at = pick("at", 4, 0, 15); uint32_t n = (uint32_t)pick("n", 2, 0, 3); reset_unimplemented_count(); for (uint32_t i = 0; i < n; i++) one_more();
  g_ran = false; vk_preempt(other, at); for (uint32_t i = 0; i < 3; i++) one_more(); vk_preempt(nullptr, 0); uint32_t got = get_unimplemented_count(); vk_assert(got == n + 3 + g_ran, "every report is counted once");
  if (vk_native()) { reset_unimplemented_count(); auto loop = [] { for (int i = 0; i < 60000; i++) one_more(); }; std::thread t(loop); loop(); t.join(); vk_assert(get_unimplemented_count() == 120000, "reports of two threads are all counted"); }
  vk_reach("done");
}
