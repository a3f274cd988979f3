// native implementation of the harness API: replays one assignment
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <atomic>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include "vk.h"

static std::vector<std::pair<std::string, uint64_t>> g_vals; static size_t g_vi;
static std::vector<std::pair<std::string, std::vector<uint8_t>>> g_bufs; static size_t g_bi;
struct NTape { int s0 = 0; std::vector<uint8_t> b; uint8_t* heap = nullptr; uint64_t pos = 0; };
static std::map<int, NTape> g_tapes;
struct NFile { FILE* f; char* p = nullptr; size_t n = 0; };
static std::map<int, NFile*> g_files;
static std::atomic<long> g_live{0};
static bool g_counting = false;
#ifndef VK_NO_NEW
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (g_counting) g_live++; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && g_counting) g_live--; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
static void leave(int c) { fflush(nullptr); _exit(c); }
static NFile* fileOf(FILE* f) { for (auto& p : g_files) if (p.second->f == f) return p.second; return nullptr; }
static uint64_t rd(const NTape& t, uint64_t pos, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) { uint64_t q = pos + i; v = (v << 1) | ((t.b[q / 8] >> (7 - q % 8)) & 1); } return v; }
extern "C" {
uint64_t vk_u(const char* name, unsigned bits) { if (g_vi >= g_vals.size() || g_vals[g_vi].first != name) { fprintf(stderr, "REPLAY: no value for %s\n", name); leave(77); } uint64_t v = g_vals[g_vi++].second; return bits >= 64 ? v : (v & ((1ull << bits) - 1)); }
void vk_bytes(void* p, size_t n, const char* name) { if (g_bi >= g_bufs.size() || g_bufs[g_bi].first != name || g_bufs[g_bi].second.size() != n) { fprintf(stderr, "REPLAY: no bytes for %s\n", name); leave(77); } if (n) memcpy(p, g_bufs[g_bi].second.data(), n); g_bi++; }
void vk_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); leave(77); } }
void vk_assert(int c, const char* msg) { if (!c) { fprintf(stderr, "REPLAY: ASSERTION FAILED: %s\n", msg); leave(66); } }
void vk_reach(const char*) {}
void vk_preempt(void (*)(), uint64_t) {}
void vk_skip() { leave(0); }
uint64_t vk_concretize(uint64_t v) { return v; }
int vk_native() { return 1; }
uint64_t vk_heap_live() { return (uint64_t)g_live.load(); }
void vk_tape_bind(void*, int) {}
void vk_tape_u(int, unsigned, uint64_t) {}
void vk_tape_ue(int, uint32_t) {}
void vk_tape_end(int) {}
const uint8_t* vk_tape_data(int t, size_t* n, int* s0) { NTape& x = g_tapes[t]; if (!x.heap) { x.heap = (uint8_t*)malloc(x.b.size() ? x.b.size() : 1); if (x.b.size()) memcpy(x.heap, x.b.data(), x.b.size()); } *n = x.b.size(); *s0 = x.s0; return x.heap; }
void vkr_reset(int t) { g_tapes[t].pos = (uint64_t)g_tapes[t].s0; }
int vkr_peek(int t, unsigned n, uint64_t* v) { NTape& x = g_tapes[t]; if (x.pos + n > x.b.size() * 8) return 0; *v = rd(x, x.pos, n); return 1; }
int vkr_u(int t, unsigned n, uint64_t* v) { if (!vkr_peek(t, n, v)) return 0; g_tapes[t].pos += n; return 1; }
int vkr_ue(int t, uint32_t* v) {
  NTape& x = g_tapes[t]; uint64_t p = x.pos, end = x.b.size() * 8; unsigned z = 0;
  for (;;) { if (z >= 32) return 0; if (p >= end) return 0; if (rd(x, p++, 1)) break; z++; }
  if (p + z > end) return 0;
  *v = (uint32_t)(((1ull << z) | rd(x, p, z)) - 1); x.pos = p + z; return 1;
}
uint64_t vkr_remaining(int t) { NTape& x = g_tapes[t]; return x.b.size() * 8 - x.pos; }
int vk_same_pos(void* bb, int t) { return ((h264nal::BitBuffer*)bb)->RemainingBitCount() == vkr_remaining(t); }
FILE* vk_file(int id) { bool c = g_counting; g_counting = false; auto& f = g_files[id]; if (!f) { f = new NFile(); f->f = open_memstream(&f->p, &f->n); } g_counting = c; return f->f; }
FILE* vk_stdout() { static FILE* saved; if (!saved) { saved = stdout; stdout = vk_file(1000); } return stdout; }
void vk_same_output(FILE* a, FILE* b, const char* msg) {
  fflush(a); fflush(b); NFile *x = fileOf(a), *y = fileOf(b);
  std::string X(x->p ? x->p : "", x->n), Y(y->p ? y->p : "", y->n);
  if (X != Y) { fprintf(stderr, "REPLAY: OUTPUT DIFFERS: %s\n real: %s\n ref : %s\n", msg, X.c_str(), Y.c_str()); leave(66); }
}
int vk_output_empty(FILE* f) { fflush(f); return fileOf(f)->n == 0; }
}
static std::vector<uint8_t> unhex(const std::string& h) { std::vector<uint8_t> r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((uint8_t)strtoul(h.substr(i, 2).c_str(), nullptr, 16)); return r; }
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  std::ifstream f(argv[1]); std::string line, harness;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "harness") is >> harness;
    else if (k == "val") { std::string n, v; is >> n >> v; g_vals.push_back({n, strtoull(v.c_str(), nullptr, 16)}); }
    else if (k == "buf") { std::string n, v; is >> n >> v; g_bufs.push_back({n, unhex(v)}); }
    else if (k == "tape") { int id, s0; std::string v; is >> id >> s0 >> v; NTape t; t.s0 = s0; t.b = unhex(v); g_tapes[id] = t; }
  }
  if (argc > 2) harness = argv[2];
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, harness.c_str());
  if (!fn) { fprintf(stderr, "REPLAY: no harness %s\n", harness.c_str()); return 2; }
  for (int i = 0; i < 8; i++) g_tapes[i];
  g_counting = true;
  fn();
  long live = g_live.load(); g_counting = false;
  if (getenv("VK_LEAK") && live > 0) { fprintf(stderr, "REPLAY: LEAK of %ld blocks\n", live); leave(67); }
  leave(0);
}
