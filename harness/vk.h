// Harness API.  The functions declared here are implemented twice: by the
// symbolic executor (engine/vk.cpp), where every vk_u/vk_bytes/tape bit is a
// solver variable, and by rt/native.cpp, which replays one concrete assignment
// against the real, natively compiled code.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stddef.h>
#include <memory>
#include <vector>
#include "rtc_common.h"
#include "h264_common.h"

extern "C" {
uint64_t vk_u(const char* name, unsigned bits);
void vk_bytes(void* p, size_t n, const char* name);
void vk_assume(int c);
void vk_assert(int c, const char* msg);
void vk_reach(const char* label);
void vk_skip();
void vk_preempt(void (*fn)(), uint64_t at);  // run fn() to its end before the at-th access to a mutable global (nullptr: no longer)
uint64_t vk_concretize(uint64_t v);
int vk_native();
uint64_t vk_heap_live();
void vk_tape_bind(void* bb, int tape);
// append to the (still unread) end of a tape; no-ops natively, where the replay file has the bits
void vk_tape_u(int tape, unsigned bits, uint64_t v);
void vk_tape_ue(int tape, uint32_t v);
// ends the tape with an incomplete Exp-Golomb code
void vk_tape_end(int tape);
const uint8_t* vk_tape_data(int tape, size_t* n, int* s0);
void vkr_reset(int tape);
int vkr_u(int tape, unsigned n, uint64_t* v);
int vkr_peek(int tape, unsigned n, uint64_t* v);
int vkr_ue(int tape, uint32_t* v);
uint64_t vkr_remaining(int tape);
int vk_same_pos(void* bb, int tape);
FILE* vk_file(int id);
FILE* vk_stdout();
void vk_same_output(FILE* a, FILE* b, const char* msg);
int vk_output_empty(FILE* f);
}

// the bit reader handed to the real parser: in the executor a lazily grown
// symbolic tape of arbitrary length and content, natively the replay bytes
struct VkStream {
  h264nal::BitBuffer* bb; uint32_t un = h264nal::get_unimplemented_count();
  explicit VkStream(int t) {
    if (vk_native()) {
      size_t n; int s0; const uint8_t* p = vk_tape_data(t, &n, &s0);
      bb = new h264nal::BitBuffer(p, n);
      if (s0) bb->ConsumeBits((size_t)s0);
    } else {
      bb = new h264nal::BitBuffer(nullptr, 0);
      vk_tape_bind(bb, t);
    }
    vkr_reset(t);
  }
  ~VkStream() { delete bb; }
};

// Reference reader over the same tape.  `bad` records that the reference
// rejects the input: data ran out, or a value is outside its legal range.
// In a dump harness (VK_DUMP) it also prints, for every element it reads, what the dump has to say.
#ifdef VK_DUMP
#define VK_DUMPING 1
#else
#define VK_DUMPING 0
#endif
inline int g_lvl = 0;
// VK_ROB: parse, dump and destroy; only memory safety, defined behaviour, leaks and termination are observed
// VK_COUNT: only the count of unsupported structures is observed (C20)
#if defined(VK_ROB) || defined(VK_COUNT)
#define VK_CMP 0
#define vk_assert(c, m) ((void)0)
#else
#define VK_CMP !VK_DUMPING
#endif
inline bool g_add_resolution = true;
struct Ref {
  int t; bool bad = false, unimp = false; FILE* out = nullptr; int lvl = g_lvl;
  explicit Ref(int tape) : t(tape) { if (VK_DUMPING) out = vk_file(1); }
  void unsupported() { if (!bad) bad = unimp = true; }
  bool on() const { return VK_DUMPING && !bad && out; }
  void sep() { if (!on()) return; if (lvl < 0) { fprintf(out, " "); return; } fprintf(out, "\n"); for (int i = 0; i < lvl; i++) fprintf(out, "  "); }
  void pu(const char* n, uint32_t v) { if (!on()) return; sep(); fprintf(out, "%s: %u", n, v); }
  void pi(const char* n, int32_t v) { if (!on()) return; sep(); fprintf(out, "%s: %d", n, v); }
  void ps(const char* n, const char* v) { if (!on()) return; sep(); fprintf(out, "%s: %s", n, v); }
  void open(const char* n) { if (!on()) return; fprintf(out, "%s {", n); if (lvl >= 0) lvl++; }
  void nest(const char* n) { sep(); open(n); }
  void close() { if (!on()) return; if (lvl >= 0) lvl--; sep(); fprintf(out, "}"); }
  void vals(const std::vector<uint32_t>& v) { for (uint32_t x : v) fprintf(out, " %u", x); }
  void vals(const std::vector<int32_t>& v) { for (int32_t x : v) fprintf(out, " %d", x); }
  void vals(const std::vector<std::vector<int32_t>>& v) { for (const auto& x : v) { fprintf(out, " {"); vals(x); fprintf(out, " }"); } }
  template <class T> void list(const char* n, const std::vector<T>& v) { if (!on()) return; sep(); fprintf(out, "%s {", n); vals(v); fprintf(out, " }"); }
  uint64_t u(unsigned n) { uint64_t v = 0; if (bad) return 0; if (!vkr_u(t, n, &v)) { bad = true; return 0; } return v; }
  uint32_t ue() { uint32_t v = 0; if (bad) return 0; if (!vkr_ue(t, &v)) { bad = true; return 0; } return v; }
  int32_t se() { uint32_t k = ue(); if (bad) return 0; uint32_t h = k >> 1; return (int32_t)((k & 1) ? h + 1 : 0u - h); }
  void range(uint64_t v, uint64_t lo, uint64_t hi) { if (bad) return; if (v < lo || v > hi) bad = true; }
  void srange(int64_t v, int64_t lo, int64_t hi) { if (bad) return; if (v < lo || v > hi) bad = true; }
  // 7.2: more_rbsp_data() for an RBSP whose last byte is not zero
  bool more() {
    if (bad) return false;
    uint64_t r = vkr_remaining(t); if (r == 0) return false; if (r > 8) return true;
    uint64_t v; if (!vkr_peek(t, (unsigned)vk_concretize(r), &v)) return false;
    if (v == 0) vk_skip();  // no rbsp_stop_one_bit left: not an RBSP, outside the claim
    return v != (1ull << (r - 1));
  }
};
// compare one field of the parsed state against the reference value
#define VEQ(real, ref, name) do { if (VK_CMP && s && !r.bad) vk_assert((real) == (ref), name); } while (0)
// reference syntax elements: declare a local with the element's name, read it
// from the reference reader when `cond` holds, else give the inferred value;
// compare with the parsed state's field of the same name
#define UC(cond, f, n, dflt) uint32_t f = (cond) ? (uint32_t)r.u(n) : (uint32_t)(dflt); if (VK_DUMPING && (cond)) r.pu(#f, f); VEQ(s->f, f, #f)
// shown in a dump whether present or not
#define UCA(cond, f, n, dflt) uint32_t f = (cond) ? (uint32_t)r.u(n) : (uint32_t)(dflt); r.pu(#f, f); VEQ(s->f, f, #f)
#define U(f, n) UC(true, f, n, 0)
#define UEC(cond, f, lo, hi, dflt) uint32_t f = (dflt); if (cond) { f = r.ue(); r.range(f, lo, hi); r.pu(#f, f); } VEQ(s->f, f, #f)
#define UE(f, lo, hi) UEC(true, f, lo, hi, 0)
#define SEC(cond, f, lo, hi, dflt) int32_t f = (dflt); if (cond) { f = r.se(); r.srange(f, lo, hi); r.pi(#f, f); } VEQ(s->f, f, #f)
#define SE(f, lo, hi) SEC(true, f, lo, hi, 0)
#define NOMAX 0xffffffffull
#define SMIN (-2147483647ll - 1)
#define SMAX 2147483647ll
// element i of a list; the list must be long enough
#define VAT(vec, i, ref, name) do { if (VK_CMP && s && !r.bad) { vk_assert((i) < (vec).size(), name ": list length"); vk_assert((vec)[i] == (ref), name); } } while (0)
#define VSZ(vec, n, name) do { if (VK_CMP && s && !r.bad) vk_assert((vec).size() == (size_t)(n), name ": list length"); } while (0)
// the end of a parse harness: accepted exactly when the reference accepts (and, with a position, where it stops);
// in a dump harness: what the accepted structure dumps is what the reference printed
#if VK_DUMPING || !VK_CMP
static h264nal::ParsingOptions vk_opts() { h264nal::ParsingOptions o; o.add_resolution = g_add_resolution; return o; }
template <class T, class O> static auto vk_dump(const T& s, FILE* f, O o, int) -> decltype(s.fdump(f, 0, o)) { s.fdump(f, g_lvl, o); }
template <class T, class O> static void vk_dump(const T& s, FILE* f, O, long) { s.fdump(f, g_lvl); }
#endif
#ifdef VK_ROB
#define VK_END(s, st, pos, name) do { if (s) { vk_dump(*(s), vk_file(0), vk_opts(), 0); vk_reach("accept"); } else vk_reach("reject"); } while (0)
#elif defined(VK_COUNT)
#define VK_END(s, st, pos, name) do { (vk_assert)(h264nal::get_unimplemented_count() - (st).un == (r.unimp ? 1u : 0u), name ": unsupported syntax is counted once, nothing else is"); \
  if (r.unimp) { (vk_assert)((s) == nullptr, name ": unsupported syntax is given up, not misread"); vk_reach("unimplemented"); } else vk_reach("other"); } while (0)
#elif VK_DUMPING
#define VK_END(s, st, pos, name) do { if (!(s) || r.bad) vk_skip(); vk_reach("accept"); FILE* f_ = vk_file(0); vk_dump(*(s), f_, vk_opts(), 0); vk_same_output(f_, r.out, name " dump"); } while (0)
#else
#define VK_END(s, st, pos, name) do { vk_assert(((s) != nullptr) == !r.bad, name ": accepted exactly when complete and in range"); \
  if (s) { vk_reach("accept"); if (pos) vk_assert(vk_same_pos((st).bb, 0), name ": consumes exactly the structure"); } else vk_reach("reject"); } while (0)
#endif
