// the h264nal command line tool, main() included, over a virtual file system (C20, C23, C24)
#include "vk.h"
#include <getopt.h>
#include <stdio.h>
#include <stdlib.h>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <istream>
#ifdef VK_SYM
// standard input: the symbolic run replaces istream::read; the native run replaces std::cin's buffer
static const char* g_stdin; static std::streamsize g_stdin_n, g_stdin_pos;
extern "C" void* _ZNSi4readEPcl(void* self, char* p, long n) { long k = g_stdin_n - g_stdin_pos < n ? g_stdin_n - g_stdin_pos : n; __builtin_memcpy(p, g_stdin + g_stdin_pos, (size_t)k); g_stdin_pos += k; ((long*)self)[1] = k; return self; }  // [1]: _M_gcount
#endif
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include "h264_bitstream_parser.h"
#include "h264_common.h"
#include "h264_utils.h"
#include "h264_nal_unit_parser.h"
#include "rtc_common.h"
static int g_want_exit;              // what exit() must be called with, or NOEXIT
enum { NOEXIT = 1000 };
[[noreturn]] static void tool_exit(int c) { vk_assert(g_want_exit != NOEXIT, "tool: runs to its end on valid arguments"); vk_assert((c & 255) == (g_want_exit & 255), "tool: exit status"); vk_reach("exit"); for (;;) vk_skip(); }
#define main h264nal_tool_main
#define exit tool_exit
#include "tools/h264nal.cc"
#undef main
#undef exit
using namespace h264nal;
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
// ---- the virtual file system: one input file, one output file, faults chosen by the solver
struct VFile { const uint8_t* d = nullptr; size_t n = 0, pos = 0; bool open = false; const char* name = nullptr; bool nolen = false; size_t limit = (size_t)-1; long opened = 0, closed = 0; };
static VFile g_in; static const char* g_outname; static bool g_outfail; static long g_outopen;
static bool mine(void* f) { return f == (void*)&g_in; }
#ifdef VK_SYM
#define NAME(x) x
#define REAL(x, bad, ...) (bad)
#else
#define NAME(x) __wrap_##x
#define REAL(x, bad, ...) __real_##x(__VA_ARGS__)
#endif
extern "C" {
#ifndef VK_SYM
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); int __real_fseek(FILE*, long, int); long __real_ftell(FILE*); size_t __real_fread(void*, size_t, size_t, FILE*); int __real_feof(FILE*); int __real_ferror(FILE*); int __real_fgetc(FILE*); void __real_rewind(FILE*);
#endif
FILE* NAME(fopen)(const char* p, const char* m) {
  if (g_in.name && !strcmp(p, g_in.name) && m[0] == 'r') { g_in.open = true; g_in.pos = 0; g_in.opened++; return (FILE*)&g_in; }
  if (g_outname && !strcmp(p, g_outname) && m[0] == 'w' && !g_outfail) { g_outopen++; return vk_file(7); }
  return nullptr;
}
int NAME(fclose)(FILE* f) { if (mine(f)) { vk_assert(g_in.open, "tool: the input file is closed once"); g_in.open = false; g_in.closed++; return 0; } if (f == vk_file(7)) { fflush(f); return 0; } return REAL(fclose, 0, f); }
int NAME(fseek)(FILE* f, long o, int w) { if (!mine(f)) return REAL(fseek, -1, f, o, w); if (g_in.nolen) return -1; long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)g_in.pos : (long)g_in.n; if (b + o < 0) return -1; g_in.pos = (size_t)(b + o); return 0; }
long NAME(ftell)(FILE* f) { if (!mine(f)) return REAL(ftell, -1, f); return g_in.nolen ? -1 : (long)g_in.pos; }
void NAME(rewind)(FILE* f) { if (mine(f)) { if (!g_in.nolen) g_in.pos = 0; } else { REAL(rewind, (void)0, f); } }
size_t NAME(fread)(void* p, size_t sz, size_t k, FILE* f) {
  if (!mine(f)) return REAL(fread, 0, p, sz, k, f); if (!sz || !k) return 0;
  size_t end = g_in.n < g_in.limit ? g_in.n : g_in.limit, left = g_in.pos < end ? end - g_in.pos : 0, m = left / sz < k ? left / sz : k; memcpy(p, g_in.d + g_in.pos, m * sz); g_in.pos += m * sz; return m;
}
int NAME(fgetc)(FILE* f) { uint8_t c; if (!mine(f)) return REAL(fgetc, EOF, f); return NAME(fread)(&c, 1, 1, f) == 1 ? c : EOF; }
int NAME(feof)(FILE* f) { if (!mine(f)) return REAL(feof, 1, f); return g_in.pos >= g_in.n; }
int NAME(ferror)(FILE* f) { if (!mine(f)) return REAL(ferror, 0, f); return g_in.pos >= g_in.limit && g_in.limit < g_in.n; }
#ifdef VK_SYM
static int g_errno; int* __errno_location() noexcept { return &g_errno; }
static long my_strtol(const char* s, char** end) { const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-'; unsigned __int128 v = 0; bool any = false, over = false; for (; *p >= '0' && *p <= '9'; p++) { any = true; v = v * 10 + (unsigned)(*p - '0'); if (v > (unsigned __int128)1 << 63) { over = true; v = (unsigned __int128)1 << 64; } } if (end) *end = (char*)(any ? p : s); if (!over && !neg && v > (unsigned __int128)LONG_MAX) over = true; if (over) { g_errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; } return neg ? (long)-(__int128)v : (long)v; }
long strtol(const char* s, char** e, int) noexcept { return my_strtol(s, e); }
char* optarg; int optind = 1, opterr = 1, optopt;
int getopt_long(int argc, char* const* argv, const char* so, const struct option* lo, int* idx) noexcept {
  static int sub; optarg = nullptr;
  while (!sub && optind < argc && (argv[optind][0] != '-' || !argv[optind][1])) optind++;  // operands are skipped
  if (optind >= argc) return -1; char* a = argv[optind];
  if (!sub && a[0] == '-' && a[1] == '-') {
    optind++; if (!a[2]) return -1; size_t n = 0; while (a[2 + n] && a[2 + n] != '=') n++; int hit = -1, cand = 0;
    for (int i = 0; lo[i].name; i++) if (!strncmp(lo[i].name, a + 2, n)) { if (strlen(lo[i].name) == n) { hit = i; cand = 1; break; } hit = i; cand++; }
    if (cand != 1) return '?'; if (idx) *idx = hit;
    if (lo[hit].has_arg == required_argument) { if (a[2 + n]) optarg = a + 2 + n + 1; else if (optind < argc) optarg = argv[optind++]; else return '?'; } else if (a[2 + n] && lo[hit].has_arg == no_argument) return '?';
    if (lo[hit].flag) { *lo[hit].flag = lo[hit].val; return 0; } return lo[hit].val;
  }
  if (!sub) sub = 1; char c = a[sub++]; const char* q = so; while (*q && *q != c) q++;
  bool last = !a[sub]; if (!*q || c == ':') { optopt = c; if (last) { sub = 0; optind++; } return '?'; }
  if (q[1] == ':') { if (!last) optarg = a + sub; else { optind++; if (optind >= argc) { sub = 0; return '?'; } optarg = argv[optind]; } sub = 0; optind++; return c; }
  if (last) { sub = 0; optind++; } return c;
}
int strncmp(const char* a, const char* b, size_t n) noexcept { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
#endif
}
// ---- arguments
struct Args { char* v[24]; int n = 0; Args() { add("h264nal"); } void add(const char* s) { v[n++] = (char*)s; v[n] = nullptr; } };
static int tool(Args& a, int want = NOEXIT) { g_want_exit = want; return h264nal_tool_main(a.n, a.v); }
static const char IN[] = "in.264", OUT[] = "out.txt";
static void set_in(const uint8_t* d, size_t n) { g_in.d = d; g_in.n = n; g_in.name = IN; }
// ---- streams
struct BW {
  uint8_t d[32] = {0}; unsigned n = 0;
  void u(unsigned k, uint64_t v) { for (unsigned i = k; i-- > 0; n++) d[n / 8] = (uint8_t)(d[n / 8] | ((v >> i) & 1) << (7 - n % 8)); }
  void ue(uint32_t v) { unsigned k = 0; while (((uint64_t)v + 1) >> (k + 1)) k++; u(k, 0); u(k + 1, (uint64_t)v + 1); }
  void end() { u(1, 1); while (n % 8) u(1, 0); }
};
enum Kind { SPS, PPS, SLICE, AUD, MVC, CUT, BADSPS, MARK, AVC3D, KINDS };
struct Unit { size_t off = 0, len = 0; bool returned = true, parsed = true, unimpl = false, slice = false; uint32_t type = 0, first_mb = 0; };
struct Stream {
  uint8_t buf[160]; uint8_t* b = buf; size_t n = 0; std::vector<Unit> u; bool sps = false, pps = false; int width = -1;
  void begin(size_t len) {
    if (width < 0) { b[n++] = 0; b[n++] = 0; b[n++] = 1; } else for (int j = width; j-- > 0;) b[n++] = (uint8_t)(j < 8 ? (len >> (8 * j)) & 255 : 0);
  }
  void put(Kind k, uint32_t mb = 0, bool idr = false) {
    BW w; Unit x; x.first_mb = mb;
    switch (k) {
      case SPS: case BADSPS: w.u(8, 0x67); w.u(8, 66); w.u(8, 0x40); w.u(8, 64 | vk_u("lvl", 2)); w.ue(1); w.ue(k == BADSPS ? 13 : 0); w.ue(2); w.ue(1); w.u(1, 0); w.ue(10); w.ue(10); w.u(4, 12); w.u(1, 0); w.end(); x.type = 7; x.parsed = k == SPS; if (k == SPS) sps = true; break;
      case PPS: w.u(8, 0x68); w.ue(2); w.ue(1); w.u(2, 0); w.ue(0); w.ue(1); w.ue(0); w.u(1, 0); w.u(2, 0); w.ue(0); w.ue(0); w.ue(0); w.u(3, 0); w.end(); x.type = 8; pps = true; break;
      case SLICE: w.u(8, idr ? 0x65 : 0x41); w.ue(mb); w.ue(7); w.ue(2); w.u(4, vk_u("fn", 4)); if (idr) w.ue(1); if (idr) w.u(2, 0); else w.u(1, 0); w.ue(0); w.end(); x.type = idr ? 5 : 1; x.slice = true; x.parsed = sps && pps; break;
      case AUD: w.u(8, 9); w.u(3, vk_u("ppt", 3)); w.u(5, 16); x.type = 9; break;
      case MVC: w.u(8, 0x74); w.u(24, 0x400007); x.type = 20; x.returned = false; x.unimpl = true; break;      // svc_extension_flag 0
      case AVC3D: w.u(8, 0x75); w.u(24, 0x812345); x.type = 21; x.returned = false; x.unimpl = true; break;    // avc_3d_extension_flag 1
      case CUT: w.u(8, 0x6e); x.type = 14; x.returned = false; break;                                         // header extension missing
      case MARK: w.u(8, 0x6e); w.u(1, 1); w.u(1, 0); w.u(6, 1); w.u(1, 1); w.u(3, 1); w.u(4, 0); w.u(3, 1); w.u(1, 0); w.u(1, 0); w.u(1, 0); w.u(2, 3); w.u(1, 1); w.u(1, 1); w.u(1, 0); w.end(); x.type = 14; x.parsed = false; x.unimpl = true; break;
      default: break;
    }
    x.len = w.n / 8; begin(x.len); x.off = n; memcpy(b + n, w.d, x.len); n += x.len; u.push_back(x);
  }
  int status(bool dropped_count) const { bool bad = false; for (auto& x : u) { if (x.unimpl) return 2; if (x.returned ? !x.parsed : dropped_count) bad = true; } for (auto& x : u) if (x.unimpl) return 2; return bad ? 1 : 0; }
};
static bool unimpl_after(const Stream& s) { for (auto& x : s.u) if (x.unimpl) return true; return false; }
// C20/C23: the exit status tells a good stream from a broken one from an unsupported one
static void exit_status(unsigned kmax, int mode) {
  Stream s; char wid[2] = {'0', 0}; s.width = mode; unsigned k = (unsigned)pick("k", 2, 0, kmax); if (mode == 0) vk_assume(k == 1);
  for (unsigned i = 0; i < k; i++) { Kind q = (Kind)pick("kind", 4, 0, KINDS - 1); s.put(q, q == SLICE ? 1 : 0, q == SLICE && i == 2); }
  if (!s.n) { s.b[s.n++] = 0xff; vk_assume(mode < 0); }
  set_in(s.b, s.n); Args a; a.add("-i"); a.add(IN); a.add("-o"); g_outname = OUT; a.add(OUT); if (mode >= 0) { wid[0] = (char)('0' + mode); a.add("--nalu-length-bytes"); a.add(wid); }
  if (pick("len", 1, 0, 1)) a.add("--dump-length");
  report_unimplemented("something()", "an earlier parse()");
  int rc = tool(a); int want = unimpl_after(s) ? 2 : s.status(mode < 0); vk_assert((rc & 255) == want, "tool: exit status"); vk_reach(want == 2 ? "unimplemented" : want ? "broken" : "ok");
  vk_assert(g_in.closed == g_in.opened, "tool: the input file is closed");
}
extern "C" void c_exit() { exit_status(3, -1); }
extern "C" void c_exit_len() { exit_status(2, (int)pick("w", 3, 0, 4)); }
// the unimplemented count: one per structure met, nothing for broken or complete units, cleared by a reset
extern "C" void c_count() {
  Stream s; unsigned k = (unsigned)pick("k", 2, 1, 3); uint32_t before = (uint32_t)pick("before", 2, 0, 2), n = 0; reset_unimplemented_count(); vk_assert(get_unimplemented_count() == 0, "count: reset");
  for (uint32_t i = 0; i < before; i++) report_unimplemented("x()", "y()"); vk_assert(get_unimplemented_count() == before, "count: every report counts");
  for (unsigned i = 0; i < k; i++) { Kind q = (Kind)pick("kind", 4, 0, KINDS - 1); s.put(q); } for (auto& x : s.u) n += x.unimpl;
  H264BitstreamParserState bs; ParsingOptions o; auto p = H264BitstreamParser::ParseBitstream(s.b, s.n, &bs, o); vk_assert(p != nullptr, "count: stream parsed");
  vk_assert(get_unimplemented_count() == before + n, "count: one per unimplemented structure met"); vk_assert(get_unimplemented_count() == before + n, "count: reading it changes nothing"); reset_unimplemented_count(); vk_assert(get_unimplemented_count() == 0, "count: reset"); vk_reach("done");
}
// counts do not wrap: hundreds and tens of thousands of reports, of units dropped or left unparsed
extern "C" void c_count_many() {
  static const uint32_t ns[] = {127, 128, 255, 256, 257, 512, 65535, 65536}; uint32_t n = ns[pick("n", 3, 0, 7)], more = (uint32_t)pick("more", 1, 0, 1); reset_unimplemented_count();
  for (uint32_t i = 0; i < n; i++) report_unimplemented("x()", "y()"); vk_assert(get_unimplemented_count() == n, "count: every report counts"); if (more) report_unimplemented("x()", "z()");
  vk_assert(get_unimplemented_count() == n + more, "count: every report counts"); reset_unimplemented_count(); vk_assert(get_unimplemented_count() == 0, "count: reset"); vk_reach("done");
}
extern "C" void c_exit_many() {
  static const uint32_t ns[] = {128, 255, 256, 257}; uint32_t n = ns[pick("n", 2, 0, 3)]; static const Kind ks[] = {CUT, BADSPS, MARK, MVC}; unsigned q = (unsigned)pick("k", 3, 0, 4); Stream s; s.b = new uint8_t[n * 24 + 64]; s.put(AUD);
  for (uint32_t i = 0; i < n; i++) s.put(q == 4 ? (i % 2 ? CUT : BADSPS) : ks[q]); s.put(AUD);
  set_in(s.b, s.n); Args a; a.add("-i"); a.add(IN); a.add("-o"); g_outname = OUT; a.add(OUT); a.add("--dump-length"); int rc = tool(a); vk_assert((rc & 255) == (unimpl_after(s) ? 2 : 1), "tool: exit status"); vk_reach("done"); delete[] s.b;
}
// --dump-length: one row per NAL unit returned, one per frame
static void csv(Stream& s, const char* fps, int f, bool dashed) {
  set_in(s.b, s.n); Args a; a.add("--infile"); a.add(IN); a.add("--dump-length"); if (fps) { a.add("--frames-per-second"); a.add(fps); } FILE* out; if (dashed) { out = vk_stdout(); } else { g_outname = OUT; a.add("--outfile"); a.add(OUT); out = vk_file(7); }
  int rc = tool(a); vk_assert(rc == s.status(true) || unimpl_after(s), "tool: exit status"); FILE* r = vk_file(1);
  fprintf(r, "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_mb_in_slice\n"); long total = 0; int frame = 0, num = 0, last = -1;
  for (auto& x : s.u) {
    if (!x.returned) continue; uint32_t mb = x.parsed ? x.first_mb : 0;
    if (x.slice) { if (mb == 0 && total > 0) { fprintf(r, ",%i,%i,frame,,%" PRIi64 ",\n", frame, last, (int64_t)total * 8 * f); frame++; total = 0; } last = (int)x.type; total += (long)x.len; }
    fprintf(r, "%i,%i,%i,", num++, frame, (int)x.type); fprintf(r, "%s", NalUnitTypeToString(x.type).c_str()); fprintf(r, ",%i,,", (int)x.len); if (x.slice) fprintf(r, "%i", (int)mb); fprintf(r, "\n");
  }
  if (total > 0) fprintf(r, ",%i,%i,frame,,%" PRIi64 ",\n", frame, last, (int64_t)total * 8 * f);
  vk_same_output(out, r, "tool: --dump-length"); vk_reach("done");
}
extern "C" void c_csv() {
  Stream s; unsigned pre = (unsigned)pick("pre", 2, 0, 2); if (pre) { s.put(SPS); if (pre > 1) s.put(PPS); } unsigned k = (unsigned)pick("k", 2, 1, 3);
  for (unsigned i = 0; i < k; i++) { unsigned q = (unsigned)pick("q", 3, 0, 5); if (q < 4) s.put(SLICE, q == 1 ? 0 : q == 3 ? 7 : q, q == 0); else s.put(q == 4 ? AUD : CUT); }
  csv(s, nullptr, 30, false);
}
extern "C" void c_csv_fps() {
  static const char* const txt[] = {"0", "1", "25", "2147483647"}; static const int val[] = {0, 1, 25, 2147483647}; unsigned q = (unsigned)pick("fps", 2, 0, 3);
  Stream s; s.put(SPS); s.put(PPS); s.put(SLICE, 0, true); if (pick("two", 1, 0, 1)) s.put(SLICE, (uint32_t)pick("mb", 1, 0, 1)); csv(s, txt[q], val[q], pick("dash", 1, 0, 1));
}
// many frames of several slices, one of them long
extern "C" void c_csv_long() {
  static const size_t extra[] = {0, 100, 250, 255, 256, 32760, 65530, 65536}; size_t big = extra[pick("big", 3, 0, 7)], at = pick("at", 2, 0, 2); unsigned frames = (unsigned)pick("frames", 7, 0, 3), nf[] = {3, 12, 87, 130}; Stream s; s.b = new uint8_t[8000 + big]; s.put(SPS); s.put(PPS); frames = nf[frames]; bool hi = pick("fps", 1, 0, 1);
  for (unsigned i = 0; i < frames; i++) for (unsigned j = 0; j < 1 + i % 3; j++) {
    if (i && j == 0 && i % 5 == 0) s.put(AUD); BW w; uint32_t mb = j * 40 + (j ? i % 7 : 0); bool idr = i % 6 == 0; w.u(8, idr ? 0x65 : 0x41); w.ue(mb); w.ue(7); w.ue(2); w.u(4, i & 15); if (idr) w.ue(1); if (idr) w.u(2, 0); else w.u(1, 0); w.ue(0); w.end(); size_t x = i + 2 == frames && j == 0 && at == 0 ? big : i + 1 == frames && j == i % 3 && at == 1 ? big : i == 0 && at == 2 ? big : 0;
    Unit u; u.len = w.n / 8 + x; u.type = idr ? 5 : 1; u.slice = true; u.first_mb = mb; s.begin(u.len); u.off = s.n; memcpy(s.b + s.n, w.d, w.n / 8); s.n += w.n / 8; memset(s.b + s.n, 0x5a, x); s.n += x; s.u.push_back(u);
  }
  csv(s, hi ? "100000" : nullptr, hi ? 100000 : 30, false); delete[] s.b;
}
// --dump-all: each unit's dump, with what the options ask for, in the order given (the last one counts)
static const char* const FLAG[] = {"--as-one-line", "--no-as-one-line", "--add-offset", "--no-add-offset", "--add-length", "--no-add-length", "--add-parsed-length", "--no-add-parsed-length", "--add-checksum", "--no-add-checksum", "--add-resolution", "--no-add-resolution", "--add-contents", "--no-add-contents", "--dump-all", "--quiet"};
static void dump(Stream& s, Args& a, bool one, ParsingOptions o, bool contents, unsigned how) {
  set_in(s.b, s.n); a.add("-i"); a.add(IN); FILE* out; if (how == 0) { g_outname = OUT; a.add("-o"); a.add(OUT); out = vk_file(7); } else { if (how == 2) { a.add("-o"); a.add("-"); } out = vk_stdout(); }
  if (s.width >= 0) { a.add("--nalu-length-bytes"); a.add(s.width == 2 ? "2" : "0"); }
  tool(a); FILE* r = vk_file(1); H264BitstreamParserState bs;
  for (auto& x : s.u) {
    auto u = H264NalUnitParser::ParseNalUnit(s.b + x.off, x.len, &bs, o); vk_assert((u != nullptr) == x.returned, "tool: reference unit"); if (!u) continue; u->offset = x.off; u->length = x.len; u->fdump(r, one ? -1 : 0, o);
    if (contents) { fprintf(r, " contents {"); for (size_t i = 0; i < x.len; i++) { fprintf(r, " %02x", s.b[x.off + i]); if (i % 16 == 15) fprintf(r, " "); } fprintf(r, " }"); }
    fprintf(r, "\n");
  }
  vk_same_output(out, r, "tool: --dump-all"); vk_reach("done");
}
extern "C" void c_dump() {
  Stream s; s.put(SPS); s.put((Kind)pick("kind", 1, 0, 1)); Args a; bool f[8] = {true, false, false, false, false, false, false, false};
  for (int i = 0; i < 2; i++) { unsigned q = (unsigned)pick("flag", 4, 0, 15); a.add(FLAG[q]); if (q < 14) f[q / 2] = !(q & 1); }
  ParsingOptions o; o.add_offset = f[1] || f[6]; o.add_length = f[2] || f[6]; o.add_parsed_length = f[3]; o.add_checksum = f[4]; o.add_resolution = f[5]; dump(s, a, f[0], o, f[6], 0);
}
extern "C" void c_dump_all() {
  Stream s; s.width = (int)pick("w", 2, 0, 2) * 2 - 2; if (s.width < 0) s.width = -1; s.put(SPS); if (s.width) { s.put((Kind)pick("k1", 4, 0, KINDS - 1), 1); s.put((Kind)pick("k2", 4, 0, 2), 0, true); }
  Args a; a.add("--add-contents"); a.add("--add-checksum"); a.add("--no-as-one-line"); ParsingOptions o; o.add_offset = o.add_length = o.add_checksum = true; o.add_parsed_length = o.add_resolution = false; dump(s, a, false, o, true, (unsigned)pick("how", 2, 0, 2));
}
extern "C" void c_contents() {  // long unit: the separator after 16 bytes
  Stream s; size_t len = pick("len", 6, 1, 33); s.begin(len); Unit x; x.off = s.n; x.len = len; x.type = 9; s.b[s.n++] = 9; if (len > 1) { vk_bytes(s.b + s.n, len - 1, "d"); for (size_t i = 0; i < len - 1; i++) vk_assume(s.b[s.n + i] > 3); } s.n += len - 1; s.u.push_back(x);
  Args a; a.add("--add-contents"); ParsingOptions o; o.add_offset = o.add_length = true; o.add_checksum = o.add_parsed_length = o.add_resolution = false; dump(s, a, true, o, true, 0);
}
extern "C" void c_contents_far() {  // hundreds and thousands of bytes
  static const size_t ls[] = {127, 128, 255, 256, 257, 272, 511, 513, 1024, 1040, 4097, 70000}; Stream s; size_t len = ls[pick("len", 4, 0, 11)]; s.b = new uint8_t[len + 16]; if (pick("two", 1, 0, 1)) s.put(AUD); s.begin(len); Unit x; x.off = s.n; x.len = len; x.type = 9; s.b[s.n] = 9; for (size_t i = 1; i < len; i++) s.b[s.n + i] = (uint8_t)(i % 251 + 4); s.b[s.n + len - 1] = (uint8_t)(0x80 | vk_u("d", 3)); s.n += len; s.u.push_back(x); if (pick("after", 1, 0, 1)) s.put(AUD);
  Args a; a.add("--add-contents"); ParsingOptions o; o.add_offset = o.add_length = true; o.add_checksum = o.add_parsed_length = o.add_resolution = false; dump(s, a, true, o, true, 0); delete[] s.b;
}
// arguments
extern "C" void c_args() {
  static const uint8_t d[] = {0, 0, 1, 9, 0x10}; set_in(d, 5); Args a; unsigned q = (unsigned)pick("q", 5, 0, 17); int want = 255; bool runs = false;
  switch (q) {
    case 0: break;                                                                        // no input
    case 1: a.add("-h"); break; case 2: a.add("--help"); break; case 3: a.add("--version"); want = 0; break; case 4: a.add("--nonsense"); break; case 5: a.add("-z"); break;
    case 6: a.add("-i"); a.add(IN); a.add("--nalu-length-bytes"); a.add("abc"); break; case 7: a.add("-i"); a.add(IN); a.add("--nalu-length-bytes"); a.add("-2"); break;
    case 8: a.add("-i"); a.add(IN); a.add("--nalu-length-bytes"); a.add("1x"); break; case 9: a.add("-i"); a.add(IN); a.add("--nalu-length-bytes"); a.add("2147483648"); break;
    case 10: a.add("-i"); a.add(IN); a.add("--frames-per-second"); a.add("99999999999999999999"); break; case 11: a.add("-i"); a.add(IN); a.add("--frames-per-second"); a.add("-1"); break;
    case 12: a.add("-i"); break;                                                          // argument missing
    case 13: a.add("-i"); a.add("missing.264"); runs = true; break; case 14: a.add("-i"); a.add(IN); a.add("-o"); a.add("nodir/out"); runs = true; break;
    case 15: a.add("-i"); a.add(IN); a.add("-o"); a.add(OUT); g_outname = OUT; a.add("--debug"); want = 0; runs = true; break;
    case 16: a.add("-i"); a.add(IN); a.add("-o"); a.add(OUT); g_outname = OUT; a.add("--nalu-length-bytes"); a.add("-1"); want = 0; runs = true; break;  // as the usage message says: start codes
    case 17: a.add("-i"); a.add(IN); a.add("--frames-per-second"); a.add("3.5"); break;
  }
  int rc = tool(a, runs ? NOEXIT : want); vk_assert(runs, "tool: bad arguments end it"); vk_assert((rc & 255) == want, "tool: exit status"); vk_reach("ran");
}
// ---- ReadFile: the file's bytes exactly, or a failure
extern "C" void c_readfile() {
  size_t n = pick("n", 3, 0, 6); uint8_t* d = new uint8_t[n ? n : 1]; if (n) vk_bytes(d, n, "d"); set_in(d, n); g_in.nolen = pick("nolen", 1, 0, 1); bool missing = pick("missing", 1, 0, 1); size_t lim = pick("limit", 3, 0, 7); if (lim < 7) g_in.limit = lim; bool fault = missing || g_in.nolen || lim < n || n == 0;
  { std::vector<uint8_t> v; int rc = H264Utils::ReadFile(missing ? "other" : IN, v); if (fault) { vk_assert(rc < 0, "ReadFile: an unreadable, empty or short file is an error"); vk_reach("fault"); } else { vk_assert(rc >= 0, "ReadFile: reads the file"); vk_assert(v.size() == n, "ReadFile: every byte"); if (v.size() == n) for (size_t i = 0; i < n; i++) vk_assert(v[i] == d[i], "ReadFile: the bytes of the file"); vk_reach("read"); } }
  vk_assert(g_in.opened == g_in.closed, "ReadFile: closes the file"); delete[] d;
}
extern "C" void c_readfile_far() {
  static const size_t sizes[] = {255, 256, 511, 512, 1023, 1024, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131072}; size_t n = sizes[pick("n", 4, 0, 15)]; uint8_t* d = new uint8_t[n]; memset(d, 0x1a, n); d[n / 3] = 0; d[n / 2] = 0xff; d[n / 2 + 1] = 0x0d; d[n / 2 + 2] = 0x0a; uint8_t sym[4]; vk_bytes(sym, 4, "d"); d[0] = sym[0]; d[n - 1] = sym[1]; d[n / 2 - 1] = sym[2]; d[n - 200] = sym[3]; set_in(d, n); bool cut = pick("cut", 1, 0, 1); if (cut) g_in.limit = n - 1;
  { std::vector<uint8_t> v; int rc = H264Utils::ReadFile(IN, v); vk_assert((rc >= 0) == !cut, "ReadFile: reads the file, or says it could not"); if (rc >= 0) { vk_assert(v.size() == n, "ReadFile: every byte"); if (v.size() == n) { vk_assert(v[0] == sym[0] && v[n - 1] == sym[1] && v[n / 2 - 1] == sym[2] && v[n - 200] == sym[3], "ReadFile: the bytes of the file"); v[0] = d[0] = v[n - 1] = d[n - 1] = v[n / 2 - 1] = d[n / 2 - 1] = v[n - 200] = d[n - 200] = 0; vk_assert(memcmp(v.data(), d, n) == 0, "ReadFile: the bytes of the file"); } } }
  vk_assert(g_in.opened == g_in.closed, "ReadFile: closes the file"); delete[] d; vk_reach("done");
}
// standard input is read to its end
extern "C" void c_stdin() {
  static const size_t sizes[] = {0, 1, 4095, 4096, 4097, 8192, 8193, 12289}; size_t n = sizes[pick("n", 3, 0, 7)]; char* d = new char[n + 1]; memset(d, 5, n + 1); static const size_t at[] = {0, 1, 2047, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 12287, 12288}; uint8_t sym[12]; vk_bytes(sym, 12, "d");
  for (int i = 0; i < 12; i++) if (at[i] < n) d[at[i]] = (char)sym[i];
#ifdef VK_SYM
  g_stdin = d; g_stdin_n = (std::streamsize)n;
#else
  struct Buf : std::streambuf { Buf(char* p, size_t k) { setg(p, p, p + k); } } buf(d, n); std::streambuf* old = std::cin.rdbuf(&buf);
#endif
  { std::vector<uint8_t> v; int rc = H264Utils::ReadFile(pick("null", 1, 0, 1) ? nullptr : "-", v); vk_assert(rc >= 0, "stdin: read"); vk_assert(v.size() == n, "stdin: every byte, once"); if (v.size() == n) for (size_t i = 0; i < n; i++) if (v[i] != (uint8_t)d[i]) vk_assert(0, "stdin: the bytes in order"); }
#ifndef VK_SYM
  std::cin.rdbuf(old);
#endif
  delete[] d; vk_reach("done");
}
