// vk: symbolic executor for LLVM bitcode (clang -O1) on top of Z3.
//   vk --opt in.bc out.bc            run the O1 pipeline, keeping the bit reader's methods out of line
//   vk --run prog.bc --harness F --out DIR [options]
#include <atomic>
#include <thread>
#include <chrono>
#include <unistd.h>
#include "expr.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_set>

#include <z3++.h>

#include "llvm/ADT/DenseMap.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
typedef std::chrono::steady_clock Clk;
static double now() { static auto t0 = Clk::now(); return std::chrono::duration<double>(Clk::now() - t0).count(); }

// ---------------------------------------------------------------- options
struct Opts {
  std::string bc, harness, out;
  double timeLimit = 120; unsigned long memLimit = 3400; uint64_t maxPaths = 1000000000ULL; uint64_t maxSteps = 3000000;
  int shard = 0, shards = 1; int witnessMax = 200; int rbK = 9; int alignSet = 0x21; // bit offsets tried
  int concMax = 80; int seed = 1; bool leak = false; bool verbose = false; int maxFail = 4; int qtimeout = 8000; int unwind = 1000000; int iters = 0; bool noeof = false, noSample = false; std::vector<std::string> cut; bool rnd = true;
} O;

// ---------------------------------------------------------------- solver
struct Stats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double solverS = 0; uint64_t paths = 0, instrs = 0, forks = 0, asserts = 0, assertQ = 0; uint64_t dropped = 0, samples = 0; } ST;
static std::map<std::string, uint64_t> g_dropped;  // reason -> count
static std::map<std::string, uint64_t> g_assertSeen; // assertion message -> times discharged

static std::atomic<double> g_deadline{0}, g_hard{0};
struct Solver {
  z3::context c; std::unordered_map<uint32_t, std::unique_ptr<z3::expr>> tr; z3::solver inc;
  Solver() : inc(c) { }
  void init() { z3::params p(c); p.set("timeout", (unsigned)1500); inc.set(p); }
  z3::expr cst(u128 v, unsigned w) {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
  }
  z3::expr b2bv(const z3::expr& b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
  z3::expr asBool(E e) {
    switch (e->op) {
      case CONST: return c.bool_val(e->c != 0);
      case EQ: if (e->k[0]->w == 1) { if (isFalse(e->k[0])) return !asBool(e->k[1]); return asBool(e->k[0]) == asBool(e->k[1]); } return t(e->k[0]) == t(e->k[1]);
      case ULT: return z3::ult(t(e->k[0]), t(e->k[1]));
      case ULE: return z3::ule(t(e->k[0]), t(e->k[1]));
      case SLT: return z3::slt(t(e->k[0]), t(e->k[1]));
      case SLE: return z3::sle(t(e->k[0]), t(e->k[1]));
      case AND: return asBool(e->k[0]) && asBool(e->k[1]);
      case OR: return asBool(e->k[0]) || asBool(e->k[1]);
      case XOR: return asBool(e->k[0]) != asBool(e->k[1]);
      case ITE: return z3::ite(asBool(e->k[0]), asBool(e->k[1]), asBool(e->k[2]));
      default: return t(e) == c.bv_val(1, 1);
    }
  }
  z3::expr fp(const z3::expr& bv, unsigned w) { return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, bv, w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>())); }
  z3::expr unfp(const z3::expr& f) { return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, f)); }
  z3::expr t(E e) {
    auto it = tr.find(e->id);
    if (it != tr.end()) return *it->second;
    z3::expr r(c);
    auto K = [&](int i) { return t(e->k[i]); };
    switch (e->op) {
      case CONST: r = cst(e->c, e->w); break;
      case VAR: { std::string n = "v" + std::to_string((unsigned)e->c); r = c.bv_const(n.c_str(), e->w); break; }
      case CONCAT: r = z3::concat(K(0), K(1)); break;
      case EXTRACT: r = K(0).extract((unsigned)e->c + e->w - 1, (unsigned)e->c); break;
      case ZEXT: r = z3::zext(K(0), e->w - e->k[0]->w); break;
      case SEXT: r = z3::sext(K(0), e->w - e->k[0]->w); break;
      case ADD: r = K(0) + K(1); break;
      case SUB: r = K(0) - K(1); break;
      case MUL: r = K(0) * K(1); break;
      case UDIV: r = z3::udiv(K(0), K(1)); break;
      case SDIV: r = K(0) / K(1); break;
      case UREM: r = z3::urem(K(0), K(1)); break;
      case SREM: r = z3::srem(K(0), K(1)); break;
      case SHL: r = z3::shl(K(0), K(1)); break;
      case LSHR: r = z3::lshr(K(0), K(1)); break;
      case ASHR: r = z3::ashr(K(0), K(1)); break;
      case AND: if (e->w == 1) r = b2bv(asBool(e)); else r = K(0) & K(1); break;
      case OR: if (e->w == 1) r = b2bv(asBool(e)); else r = K(0) | K(1); break;
      case XOR: if (e->w == 1) r = b2bv(asBool(e)); else r = K(0) ^ K(1); break;
      case EQ: case ULT: case ULE: case SLT: case SLE: r = b2bv(asBool(e)); break;
      case ITE: r = z3::ite(asBool(e->k[0]), K(1), K(2)); break;
      case FPOP: {
        unsigned aw = e->k[0]->w; z3::expr rne(c, Z3_mk_fpa_rne(c));
        auto srt = [&](unsigned w) { return w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>(); };
        auto A = [&]() { return fp(K(0), aw); }; auto B = [&]() { return fp(K(1), aw); };
        switch ((FpOp)(unsigned)e->c) {
          case FP_ADD: r = unfp(z3::expr(c, Z3_mk_fpa_add(c, rne, A(), B()))); break;
          case FP_SUB: r = unfp(z3::expr(c, Z3_mk_fpa_sub(c, rne, A(), B()))); break;
          case FP_MUL: r = unfp(z3::expr(c, Z3_mk_fpa_mul(c, rne, A(), B()))); break;
          case FP_DIV: r = unfp(z3::expr(c, Z3_mk_fpa_div(c, rne, A(), B()))); break;
          case FP_UITOFP: r = unfp(z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne, K(0), srt(e->w)))); break;
          case FP_SITOFP: r = unfp(z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne, K(0), srt(e->w)))); break;
          case FP_FPTOUI: r = z3::expr(c, Z3_mk_fpa_to_ubv(c, z3::expr(c, Z3_mk_fpa_rtz(c)), A(), e->w)); break;
          case FP_FPTOSI: r = z3::expr(c, Z3_mk_fpa_to_sbv(c, z3::expr(c, Z3_mk_fpa_rtz(c)), A(), e->w)); break;
          case FP_FPEXT: case FP_FPTRUNC: r = unfp(z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne, A(), srt(e->w)))); break;
          case FP_CEIL: r = unfp(z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtp(c)), A()))); break;
          case FP_FLOOR: r = unfp(z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtn(c)), A()))); break;
          case FP_TRUNC: r = unfp(z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtz(c)), A()))); break;
          case FP_NEG: r = unfp(z3::expr(c, Z3_mk_fpa_neg(c, A()))); break;
          case FP_ABS: r = unfp(z3::expr(c, Z3_mk_fpa_abs(c, A()))); break;
          case FP_OEQ: r = b2bv(z3::expr(c, Z3_mk_fpa_eq(c, A(), B()))); break;
          case FP_OLT: r = b2bv(z3::expr(c, Z3_mk_fpa_lt(c, A(), B()))); break;
          case FP_OLE: r = b2bv(z3::expr(c, Z3_mk_fpa_leq(c, A(), B()))); break;
          case FP_UNO: r = b2bv(z3::expr(c, Z3_mk_fpa_is_nan(c, A())) || z3::expr(c, Z3_mk_fpa_is_nan(c, B()))); break;
        }
        break;
      }
    }
    tr.emplace(e->id, std::make_unique<z3::expr>(r));
    return r;
  }
  struct Res { int r; std::vector<std::pair<uint32_t, u128>> m; };  // 1 sat 0 unsat -1 unknown
  std::unordered_map<std::string, Res> cache;
  void getModel(z3::model&& m, const std::set<uint32_t>& vars, Res& out) {
    for (uint32_t v : vars) {
      std::string n = "v" + std::to_string(v);
      z3::expr ve = m.eval(c.bv_const(n.c_str(), g_vars[v].w), true);
      u128 val = 0; unsigned w = g_vars[v].w;
      if (w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(c, ve, &x); val = x; }
      else { uint64_t lo = 0, hi = 0; z3::expr l = ve.extract(63, 0).simplify(), h = ve.extract(w - 1, 64).simplify(); Z3_get_numeral_uint64(c, l, &lo); Z3_get_numeral_uint64(c, h, &hi); val = ((u128)hi << 64) | lo; }
      out.m.push_back({v, val});
    }
  }
  const Res& check(const std::vector<E>& cons) {  // conjunction
    std::vector<uint32_t> ids; for (E e : cons) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    std::string key((const char*)ids.data(), ids.size() * 4);
    auto it = cache.find(key);
    if (it != cache.end()) { ST.cacheHits++; return it->second; }
    ST.queries++;
    double t0 = now(); g_deadline = t0 + O.qtimeout / 1000.0 + 5;
    Res res; res.r = -1;
    if (getenv("VK_LASTQ")) { FILE* f = fopen((std::string(getenv("VK_LASTQ")) + std::to_string(getpid())).c_str(), "w"); fprintf(f, "%zu cons\n", cons.size()); for (E e : cons) fprintf(f, "  %s\n", exprStr(e, 14).c_str()); fclose(f); }
    std::set<uint32_t> vars; for (E e : cons) for (auto v : e->vars->v) vars.insert(v);
    z3::check_result r = z3::unknown;
    static size_t lim = getenv("VK_LIM") ? atoi(getenv("VK_LIM")) : 12;
    if (cons.size() > lim) {
      try {
        z3::solver s2 = (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat")).mk_solver();
        z3::params p(c); p.set("timeout", (unsigned)3000); s2.set(p);
        for (E e : cons) s2.add(asBool(e));
        r = s2.check();
        if (r == z3::sat) { res.r = 1; getModel(s2.get_model(), vars, res); } else if (r == z3::unsat) res.r = 0;
      } catch (z3::exception&) {}
    } else {
    inc.push();
    for (E e : cons) inc.add(asBool(e));
    try { r = inc.check(); } catch (z3::exception&) {}
    if (r == z3::sat) { res.r = 1; getModel(inc.get_model(), vars, res); }
    else if (r == z3::unsat) res.r = 0;
    inc.pop();
    }
    if (res.r == -1) {
      try {
        z3::solver s2 = z3::tactic(c, "qffpbv").mk_solver();
        z3::params p(c); p.set("timeout", (unsigned)O.qtimeout); s2.set(p);
        for (E e : cons) s2.add(asBool(e));
        r = s2.check();
        if (r == z3::sat) { res.r = 1; getModel(s2.get_model(), vars, res); }
        else if (r == z3::unsat) res.r = 0;
      } catch (z3::exception&) {}
    }
    g_deadline = 0;
    if (res.r == 1) ST.sat++; else if (res.r == 0) ST.unsat++; else ST.unknown++;
    ST.solverS += now() - t0;
    if (now() - t0 > (getenv("VK_SLOWT") ? atof(getenv("VK_SLOWT")) : 1.0) && getenv("VK_SLOW")) { FILE* f = fopen(getenv("VK_SLOW"), "a"); fprintf(f, "==== %.2fs res %d\n", now() - t0, res.r); for (E e : cons) fprintf(f, "  %s\n", exprStr(e, 14).c_str()); fclose(f); }
    return cache.emplace(key, std::move(res)).first->second;
  }
};
static Solver* S;

// ---------------------------------------------------------------- state
struct Obj { uint64_t base, size; uint8_t kind; bool ro; std::string name; std::vector<E> b; };
typedef std::shared_ptr<Obj> ObjP;
enum { OK_HEAP, OK_STACK, OK_GLOBAL, OK_HEAPARR };
struct FnInfo { DenseMap<const Value*, unsigned> slot; DenseMap<const BasicBlock*, int> loopExit; std::set<std::pair<const BasicBlock*, const BasicBlock*>> back; bool loops = false; unsigned n = 0; bool repo = false; std::string dem; };
struct Frame { Function* f; FnInfo* fi; BasicBlock* bb; BasicBlock::iterator pc; BasicBlock* prev; std::vector<E> v; std::vector<uint64_t> allocas; CallBase* call; std::vector<E> va; std::map<const BasicBlock*, int> forks; std::map<const BasicBlock*, std::pair<int, size_t>> iters; };
struct Atom { bool ue; E val; unsigned w; };
struct Tape { std::vector<Atom> a; bool closed = false; int tailMax = -1; bool tailUe = false; bool lsym = false; E L = nullptr; unsigned lb = 0, lbo = 0; int alignAtom = -1, alignOff = 0, alignT = 0; };
struct Cursor { int tape = 0; unsigned atom = 0, off = 0; };
struct Piece { std::string text; std::string conv; E val; };
struct State {
  std::vector<Frame> st; std::map<uint64_t, ObjP> mem; uint64_t next = 0;
  std::vector<E> cons; Model model; std::unordered_map<uint32_t, std::pair<s128, s128>> rng; std::unordered_map<uint32_t, E> sub; // expr id -> what the path condition fixes it to
  std::map<int, Tape> tapes; std::map<uint64_t, Cursor> cur; std::map<int, Cursor> rcur;
  std::vector<std::pair<std::string, E>> syms;           // vk_u in call order
  std::vector<std::pair<std::string, std::vector<E>>> bufs; // vk_bytes in call order
  std::map<uint64_t, std::vector<Piece>> logs;
  std::map<uint64_t, uint64_t> files; // open FILE* -> position (file input stub)
  uint64_t steps = 0; int conc = 0; const Instruction* concAt = nullptr; bool done = false; std::string endWhy; int exitCode = 0;
  bool bounded = false;
  Function* pre = nullptr; uint64_t preAt = 0, preCnt = 0; // the other thread's work, and before which access to shared memory it runs
  bool sample = false, ooStep = false; // the readers are out of step: follow one concrete assignment (the model) from here on
  uint64_t liveHeap0 = 0;
  std::vector<std::string> notes;
};
typedef std::unique_ptr<State> SP;

static std::map<uint64_t, ObjP> g_globals;
static DenseMap<const Value*, uint64_t> g_addr;
static std::map<uint64_t, Function*> g_fnAt;
static Module* M; static const DataLayout* DL;
static DenseMap<const Function*, FnInfo*> g_fi;
static std::deque<SP> work;
static std::set<std::string> g_fnsRun;
static std::vector<std::string> g_failures; // json lines
static std::map<std::string, int> g_failCount;
static uint64_t g_failId = 0;
static std::set<std::string> g_reached;   // vk_reach labels
static uint64_t g_witness = 0;
static E c8[256];

static std::string jesc(const std::string& s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r; }

static void dropState(State& s, const std::string& why) { if (!s.done) { s.done = true; s.endWhy = "dropped: " + why; g_dropped[why]++; ST.dropped++; } }

// ---- constraint slices
static void slice(const State& s, E cond, std::vector<E>& out) {
  std::vector<uint32_t> vs = cond->vars->v;
  std::vector<char> in(s.cons.size(), 0);
  bool ch = true;
  std::unordered_set<uint32_t> set(vs.begin(), vs.end());
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.cons.size(); i++) if (!in[i]) {
      const auto& cv = s.cons[i]->vars->v; bool hit = false;
      for (auto v : cv) if (set.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; out.push_back(s.cons[i]); for (auto v : cv) if (set.insert(v).second) ch = true; }
    }
  }
}
static int known(const State& s, E c) { // 1 / 0 when the path condition has c / its negation literally
  if (isC(c)) return c->c != 0;
  auto it = s.sub.find(c->id); return it == s.sub.end() ? -1 : it->second->c != 0;
}
// signed interval of e under the path condition's bounds
typedef std::pair<s128, s128> Iv;
static Iv full(unsigned w) { s128 h = (s128)(maskw(w) >> 1); return {-h - 1, h}; }
static Iv ival(const State& s, E e, int d) {
  unsigned w = e->w; Iv f = full(w);
  if (w > 64) return f;
  if (isC(e)) { s128 v = sext128(e->c, w); return {v, v}; }
  Iv r = f;
  if (d > 0) switch (e->op) {
    case ZEXT: { Iv a = ival(s, e->k[0], d - 1); if (a.first >= 0) r = a; else r = {0, (s128)maskw(e->k[0]->w)}; break; }
    case SEXT: r = ival(s, e->k[0], d - 1); break;
    case ADD: { Iv a = ival(s, e->k[0], d - 1), b = ival(s, e->k[1], d - 1); Iv t = {a.first + b.first, a.second + b.second}; if (t.first >= f.first && t.second <= f.second) r = t; break; }
    case SUB: { Iv a = ival(s, e->k[0], d - 1), b = ival(s, e->k[1], d - 1); Iv t = {a.first - b.second, a.second - b.first}; if (t.first >= f.first && t.second <= f.second) r = t; break; }
    case ITE: { Iv a = ival(s, e->k[1], d - 1), b = ival(s, e->k[2], isC(e->k[1]) ? d : d - 1); r = {std::min(a.first, b.first), std::max(a.second, b.second)}; break; }
    case AND: if (isC(e->k[0]) && sext128(e->k[0]->c, w) >= 0) r = {0, (s128)e->k[0]->c}; break;
    case MUL: if (isC(e->k[0]) && w <= 64) { Iv b = ival(s, e->k[1], d - 1); s128 c = sext128(e->k[0]->c, w); s128 x = c * b.first, y = c * b.second; if (x > y) std::swap(x, y); if (c < ((s128)1 << 40) && x >= f.first && y <= f.second) r = {x, y}; } break;
    case UREM: if (isC(e->k[1]) && e->k[1]->c && sext128(e->k[1]->c, w) > 0) r = {0, (s128)e->k[1]->c - 1}; break;
    default: break;
  }
  auto it = s.rng.find(e->id); if (it != s.rng.end()) { r.first = std::max(r.first, it->second.first); r.second = std::min(r.second, it->second.second); }
  if (r.first > r.second) return f;
  return r;
}
static void learn(State& s, E x, s128 lo, s128 hi) {
  if (isC(x) || x->w > 64) return; Iv f = full(x->w);
  auto it = s.rng.find(x->id); Iv r = it == s.rng.end() ? f : it->second;
  r.first = std::max(r.first, lo); r.second = std::min(r.second, hi);
  if (r.first <= r.second && r != f) s.rng[x->id] = r;
}
static void learnCons(State& s, E c) {
  if ((c->op == ULE || c->op == ULT) && c->k[0]->w <= 64 && !isC(c->k[0]) && !isC(c->k[1])) {
    int st = c->op == ULT; Iv i = ival(s, c->k[0], 8), j = ival(s, c->k[1], 8);
    if (i.first >= 0 && j.first >= 0) { if (i.first + st > j.first) learn(s, c->k[1], i.first + st, j.second); if (j.second - st < i.second) learn(s, c->k[0], i.first, j.second - st); }
    return;
  }
  if (c->op != ULT && c->op != SLT) return;
  E a = c->k[0], b = c->k[1]; unsigned w = a->w; if (w > 64) return; Iv f = full(w);
  E x = isC(a) ? b : isC(b) ? a : nullptr; if (!x) return;
  if (c->op == SLT) { if (isC(a)) learn(s, x, sext128(a->c, w) + 1, f.second); else learn(s, x, f.first, sext128(b->c, w) - 1); return; }
  u128 k = 0; E y = x; if (x->op == ADD && isC(x->k[0])) { k = x->k[0]->c; y = x->k[1]; }
  u128 lo = isC(a) ? a->c + 1 : 0, hi = isC(a) ? maskw(w) : b->c - 1;
  s128 l = sext128((lo - k) & maskw(w), w), h = sext128((hi - k) & maskw(w), w); if (l <= h) learn(s, y, l, h);
  if (y != x) { l = sext128(lo, w); h = sext128(hi, w); if (l <= h) learn(s, x, l, h); }
}
static E rwRec(const State& s, E e, std::unordered_map<uint32_t, E>& memo) {
  if (e->op == CONST) return e;
  auto k = s.sub.find(e->id); if (k != s.sub.end()) return k->second;
  if (e->op == VAR) return e;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  E a = rwRec(s, e->k[0], memo), r;
  if (e->op == ITE && isC(a)) r = rwRec(s, a->c ? e->k[1] : e->k[2], memo);
  else {
    E b = e->k[1] ? rwRec(s, e->k[1], memo) : nullptr, d = e->k[2] ? rwRec(s, e->k[2], memo) : nullptr;
    if (a == e->k[0] && b == e->k[1] && d == e->k[2]) r = e;
    else switch (e->op) {
      case CONCAT: r = mkConcat(a, b); break;
      case EXTRACT: r = mkExtract(a, (unsigned)e->c, e->w); break;
      case ZEXT: r = mkZExt(a, e->w); break;
      case SEXT: r = mkSExt(a, e->w); break;
      case ITE: r = mkIte(a, b, d); break;
      case FPOP: r = mkFp((FpOp)(unsigned)e->c, e->w, a, b); break;
      default: r = mkBin(e->op, a, b);
    }
    if (r->op == SEXT && (r->k[0]->op == ADD || r->k[0]->op == SUB) && r->w <= 64 && !s.rng.empty()) {
      E x = r->k[0]; Iv i = ival(s, x->k[0], 8), j = ival(s, x->k[1], 8), f = full(x->w);
      s128 lo = x->op == ADD ? i.first + j.first : i.first - j.second, hi = x->op == ADD ? i.second + j.second : i.second - j.first;
      if (lo >= f.first && hi <= f.second) r = mkBin(x->op, mkSExt(x->k[0], r->w), mkSExt(x->k[1], r->w));
    }
    if ((r->op == ULT || r->op == SLT || r->op == SLE || r->op == ULE) && r->k[0]->w <= 64) {
      Iv i = ival(s, r->k[0], 8), j = ival(s, r->k[1], 8); bool sg = r->op == SLT || r->op == SLE, eq = r->op == SLE || r->op == ULE;
      if (sg || (i.first >= 0 && j.first >= 0)) { if (eq ? i.second <= j.first : i.second < j.first) r = mkTrue(); else if (eq ? i.first > j.second : i.first >= j.second) r = mkFalse(); }
    } else if (r->op == EQ && r->k[0]->w > 1 && r->k[0]->w <= 64) { Iv i = ival(s, r->k[0], 8), j = ival(s, r->k[1], 8); if (i.second < j.first || j.second < i.first) r = mkFalse(); }
    if (r != e && r->op != CONST) { auto q = s.sub.find(r->id); if (q != s.sub.end()) r = q->second; }
  }
  memo[e->id] = r; return r;
}
static E rw(const State& s, E e) { if (isC(e) || s.sub.empty()) return e; std::unordered_map<uint32_t, E> memo; return rwRec(s, e, memo); }
// may cond be true? on sat `m` gets an updated full model
static int mayBe(const State& s, E cond, Model* m) {
  cond = rw(s, cond);
  if (isTrue(cond)) { if (m) *m = s.model; return 1; }
  if (isFalse(cond)) return 0;
  if (evalExpr(cond, s.model)) { if (m) *m = s.model; return 1; }
  if (s.sample) return 0;
  std::vector<E> q; slice(s, cond, q); q.push_back(cond);
  const Solver::Res& r = S->check(q);
  if (r.r == 1 && m) { *m = s.model; for (auto& p : r.m) (*m)[p.first] = p.second; }
  return r.r;
}
static void addCons(State& s, E c) { if (isTrue(c)) return; if (c->op == AND && c->w == 1) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; } for (E e : s.cons) if (e == c) return; s.cons.push_back(c);
  learnCons(s, c);
  s.sub[c->id] = mkTrue(); E n = mkNot(c); if (!isC(n)) s.sub[n->id] = mkFalse();
  if (c->op == EQ && isC(c->k[0]) && !isC(c->k[1])) s.sub[c->k[1]->id] = c->k[0]; }
static bool assume(State& s, E c) { // add constraint, keep a model; false if infeasible
  c = rw(s, c); if (isTrue(c)) return true;
  Model m; int r = mayBe(s, c, &m);
  if (r == 0) return false;
  if (r < 0) { dropState(s, "solver unknown on assume"); return false; }
  s.model = std::move(m); addCons(s, c); return true;
}
static std::map<std::string, uint64_t> g_forkProf;
static SP cloneState(State& s) {
  ST.forks++; static bool prof = getenv("VK_FORKPROF") != nullptr;
  if (prof && !s.st.empty()) { std::string k; for (size_t i = s.st.size(), n = 0; i-- > 0 && n < 4; n++) k += (n ? " < " : "") + s.st[i].fi->dem.substr(0, 50); g_forkProf[k]++; }
  return SP(new State(s));
}
static void pushWork(SP s) { work.push_back(std::move(s)); }
// fork so that cond is decided in s; returns the value in s; the clone re-executes the current instruction
static bool decide(State& s, E cond) {
  cond = rw(s, cond);
  if (isC(cond)) return cond->c;
  bool v = evalExpr(cond, s.model);
  E other = v ? mkNot(cond) : cond;
  Model m; int r = mayBe(s, other, &m);
  if (r == 1) { SP n = cloneState(s); n->model = m; addCons(*n, other); pushWork(std::move(n)); }
  else if (r < 0) { g_dropped["solver unknown on branch"]++; ST.dropped++; }
  if (r) addCons(s, v ? cond : mkNot(cond));
  return v;
}
static bool mustBe(State& s, E cond) { if (isC(cond)) return cond->c; if (!evalExpr(cond, s.model)) return false; return mayBe(s, mkNot(cond), nullptr) == 0; }
// make e concrete in s, forking the remaining values into a clone that re-executes
static bool concretize(State& s, E e, uint64_t& out) {
  e = rw(s, e); if (isC(e)) { out = (uint64_t)e->c; return true; }
  const Instruction* at = s.st.empty() ? nullptr : &*s.st.back().pc;
  if (s.concAt != at) { s.concAt = at; s.conc = 0; }
  u128 v = evalExpr(e, s.model);
  E eq = mkEq(mkConst(v, e->w), e);
  Model m; int r = mayBe(s, mkNot(eq), &m);
  if (r == 1) {
    if (++s.conc > O.concMax) { dropState(s, "concretisation limit"); return false; }
    SP n = cloneState(s); n->model = m; addCons(*n, mkNot(eq)); pushWork(std::move(n));
  } else if (r < 0) { g_dropped["solver unknown on concretise"]++; ST.dropped++; }
  addCons(s, eq); out = (uint64_t)v; s.conc = 0; s.concAt = nullptr;
  return true;
}

// ---------------------------------------------------------------- replay files
static E ueLenExpr(E v);
static std::string hex(const std::vector<uint8_t>& b) { static const char* d = "0123456789abcdef"; std::string r; for (auto x : b) { r += d[x >> 4]; r += d[x & 15]; } return r.empty() ? "-" : r; }
static void bitsOf(u128 v, unsigned w, std::vector<bool>& o) { for (int i = (int)w - 1; i >= 0; i--) o.push_back((v >> i) & 1); }
static void tapeBytes(const Tape& t, const Model& m, std::vector<uint8_t>& out, int& s0) {
  std::vector<bool> b; int alignBase = -1; size_t lbase = 0;
  for (size_t i = 0; i < t.a.size(); i++) {
    if ((int)i == t.alignAtom) alignBase = (int)b.size() + t.alignOff;
    if (i == t.lb) lbase = b.size() + t.lbo;
    u128 v = evalExpr(t.a[i].val, m);
    if (t.a[i].ue) { u128 x = v + 1; unsigned n = 0; while (n < 40 && (x >> n) > 1) n++; for (unsigned k = 0; k < n; k++) b.push_back(0); bitsOf(x, n + 1, b); }
    else bitsOf(v, t.a[i].w, b);
  }
  if (t.lb >= t.a.size()) lbase = b.size() + t.lbo;
  if (t.alignAtom == (int)t.a.size()) alignBase = (int)b.size() + t.alignOff;
  s0 = 0;
  if (alignBase >= 0) s0 = ((t.alignT - alignBase) % 8 + 8) % 8;
  if (t.lsym) { size_t L = (size_t)evalExpr(t.L, m) + lbase; bool first = true; while (b.size() < L) { b.push_back(t.closed ? 0 : (first ? 1 : (b.size() % 3 == 0))); first = false; } }
  if (t.closed && alignBase >= 0) { while ((b.size() + s0) % 8) b.push_back(0); }
  else if (t.closed || t.lsym) s0 = (8 - b.size() % 8) % 8;
  else { b.push_back(1); while ((b.size() + s0) % 8) b.push_back(0); }
  std::vector<bool> all(s0, false); all.insert(all.end(), b.begin(), b.end());
  out.assign(all.size() / 8, 0);
  for (size_t i = 0; i < all.size() / 8 * 8; i++) if (all[i]) out[i / 8] |= 0x80 >> (i % 8);
}
static void writeReplay(const State& s, const Model& m, const std::string& path) {
  std::ofstream f(path);
  f << "harness " << O.harness << "\n";
  for (auto& p : s.syms) f << "val " << p.first << " " << std::hex << (uint64_t)evalExpr(p.second, m) << std::dec << "\n";
  for (auto& p : s.bufs) { std::vector<uint8_t> b; for (E e : p.second) b.push_back((uint8_t)evalExpr(e, m)); f << "buf " << p.first << " " << hex(b) << "\n"; }
  for (auto& p : s.tapes) { std::vector<uint8_t> b; int s0; tapeBytes(p.second, m, b, s0); f << "tape " << p.first << " " << s0 << " " << hex(b) << "\n"; }
  f << "end\n";
}
static std::string whereAmI(const State& s) {
  std::string r;
  for (int i = (int)s.st.size() - 1; i >= 0 && r.size() < 400; i--) {
    const Frame& f = s.st[i]; if (!r.empty()) r += " <- ";
    r += f.fi->dem.substr(0, f.fi->dem.find('('));
    if (f.pc != f.bb->end()) if (auto& d = f.pc->getDebugLoc()) r += ":" + std::to_string(d.getLine());
  }
  return r;
}
static void reportFail(State& s, const Model& m, const std::string& kind, const std::string& msg) {
  std::string key = kind + "|" + msg;
  if (g_failCount[key]++ >= O.maxFail) return;
  std::string path = O.out + "/cex_" + O.harness + "_" + std::to_string(O.shard) + "_" + std::to_string(g_failId++) + ".txt";
  writeReplay(s, m, path);
  g_failures.push_back("{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(whereAmI(s)) + "\",\"replay\":\"" + jesc(path) + "\"}");
  if (O.verbose) fprintf(stderr, "FAIL %s %s @ %s\n", kind.c_str(), msg.c_str(), whereAmI(s).c_str());
}
static void errorState(State& s, const std::string& kind, const std::string& msg) { // unconditional error on this path
  reportFail(s, s.model, kind, msg); s.done = true; s.endWhy = "error: " + kind;
}

// ---------------------------------------------------------------- memory
static const uint64_t FN_BASE = 0x1000000, GLOB_BASE = 0x10000000, HEAP_BASE = 0x4000000000ULL, FILE_BASE = 0x7000;
static ObjP findObj(State& s, uint64_t a) {
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) { --it; if (a < it->second->base + it->second->size || (a == it->second->base)) return it->second; }
  if (a >= GLOB_BASE && a < HEAP_BASE) {
    auto g = g_globals.upper_bound(a);
    if (g != g_globals.begin()) { --g; if (a < g->second->base + g->second->size || a == g->second->base) { auto m = s.mem.find(g->second->base); if (m != s.mem.end()) return m->second; return g->second; } }
  }
  return nullptr;
}
static Obj* writable(State& s, const ObjP& o) {
  auto it = s.mem.find(o->base);
  if (it == s.mem.end()) { ObjP n = std::make_shared<Obj>(*o); s.mem[o->base] = n; return n.get(); }
  if (it->second.use_count() > 2) { it->second = std::make_shared<Obj>(*it->second); }  // o + map
  return it->second.get();
}
static uint64_t allocObj(State& s, uint64_t size, uint8_t kind, const std::string& name, E fill = nullptr) {
  uint64_t a = s.next; s.next += ((size + 15) & ~15ULL) + 64;
  ObjP o = std::make_shared<Obj>(); o->base = a; o->size = size; o->kind = kind; o->ro = false; o->name = name; o->b.assign(size, fill);
  s.mem[a] = o; return a;
}
static int g_undef = 0;
static E byteOr(State&, E b) { if (b) return b; return mkVar("undef" + std::to_string(g_undef++), 8, true); }
static E loadBytes(State& s, const Obj* o, uint64_t off, unsigned n) {
  // fast constant path
  bool allc = true, anyu = false; for (unsigned i = 0; i < n; i++) { E b = o->b[off + i]; if (!b) { allc = false; anyu = true; break; } if (!isC(b)) { allc = false; } }
  if (allc && n <= 16) { u128 v = 0; for (unsigned i = 0; i < n; i++) v |= o->b[off + i]->c << (8 * i); return mkConst(v, n * 8); }
  if (anyu) { bool all = true; for (unsigned i = 0; i < n; i++) if (o->b[off + i]) all = false; if (all) {
      E v = mkVar("undef" + std::to_string(g_undef++), n * 8, true);
      Obj* w = nullptr; auto it = s.mem.find(o->base); if (it != s.mem.end()) { if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second); w = it->second.get(); for (unsigned i = 0; i < n; i++) w->b[off + i] = mkSlice(v, 8 * i, 8); }
      return v; } }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) { E b = byteOr(s, o->b[off + i]); r = r ? mkConcat(b, r) : b; }
  if (r->op == EXTRACT) r = mkExtract(r->k[0], (unsigned)r->c, r->w);
  return r;
}
static void storeBytes(Obj* o, uint64_t off, E v, unsigned n) { for (unsigned i = 0; i < n; i++) o->b[off + i] = isC(v) ? c8[(unsigned)(v->c >> (8 * i)) & 255] : mkSlice(v, 8 * i, 8); }

// resolve a pointer for an n-byte access. Returns object + (concrete offset or symbolic address). false: state ended/forked error
struct Ref { ObjP o; bool conc; uint64_t off; E addr; };
static bool resolve(State& s, E p, uint64_t n, Ref& r, const char* what) {
  while (p->op == ITE) { bool v = decide(s, p->k[0]); p = v ? p->k[1] : p->k[2]; }
  if (isC(p)) {
    uint64_t a = (uint64_t)p->c;
    ObjP o = findObj(s, a);
    if (!o || a + n > o->base + o->size || a + n < a) {
      if (n == 0) { r.o = nullptr; return true; }
      if (a < 4096) errorState(s, "null-deref", std::string(what) + " through null pointer");
      else errorState(s, "out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes outside any live object" + (o ? " (" + o->name + ")" : ""));
      return false;
    }
    r.o = o; r.conc = true; r.off = a - o->base; return true;
  }
  uint64_t a = (uint64_t)evalExpr(p, s.model);
  ObjP o = findObj(s, a);
  if (!o || a + n > o->base + o->size) { // the current model is itself out of bounds
    // is any other object reachable?
    reportFail(s, s.model, "out-of-bounds", std::string(what) + " with symbolic address outside any live object");
    // continue with in-bounds part if we can find one: constrain away
    Model m; E ne = mkNot(mkEq(p, mkConst(a, 64)));
    if (++s.conc > O.concMax) { s.done = true; s.endWhy = "error: out-of-bounds"; return false; }
    int q = mayBe(s, ne, &m); if (q != 1) { s.done = true; s.endWhy = "error: out-of-bounds"; return false; }
    s.model = m; addCons(s, ne); return resolve(s, p, n, r, what);
  }
  E rel = mkSub(p, mkConst(o->base, 64));
  E inb = mkBin(ULE, rel, mkConst(o->size - n, 64));
  Model m; int q = mayBe(s, mkNot(inb), &m);
  if (q == 1) { SP c = cloneState(s); c->model = m; addCons(*c, mkNot(inb)); pushWork(std::move(c)); addCons(s, inb); }
  else if (q < 0) { g_dropped["solver unknown on bounds"]++; ST.dropped++; addCons(s, inb); }
  r.o = o; r.conc = false; r.addr = rel; return true;
}
static bool loadMem(State& s, E p, unsigned n, E& out) {
  Ref r; if (!resolve(s, p, n, r, "read")) return false;
  if (r.conc) { out = loadBytes(s, r.o.get(), r.off, n); return true; }
  unsigned tz = knownTrailingZeros(r.addr); uint64_t step = 1; while (tz-- && step < n) step <<= 1; // alignment
  if (r.o->size / step > 600) { uint64_t v; if (!concretize(s, r.addr, v)) return false; out = loadBytes(s, r.o.get(), v, n); return true; }
  E acc = nullptr;
  for (uint64_t off = 0; off + n <= r.o->size; off += step) {
    E v = loadBytes(s, r.o.get(), off, n);
    acc = acc ? mkIte(mkEq(mkConst(off, 64), r.addr), v, acc) : v;
  }
  out = acc; return true;
}
static bool storeMem(State& s, E p, E v, unsigned n) {
  Ref r; if (!resolve(s, p, n, r, "write")) return false;
  if (r.o->ro) { errorState(s, "write-to-constant", r.o->name); return false; }
  Obj* o = writable(s, r.o);
  if (r.conc) { storeBytes(o, r.off, v, n); return true; }
  unsigned tz = knownTrailingZeros(r.addr); uint64_t step = 1; while (tz-- && step < n) step <<= 1;
  if (r.o->size / step > 100) { uint64_t off; if (!concretize(s, r.addr, off)) return false; storeBytes(writable(s, findObj(s, o->base)), off, v, n); return true; }
  std::vector<E> nb = o->b;
  for (uint64_t off = 0; off + n <= o->size; off += step) {
    E c = mkEq(mkConst(off, 64), r.addr);
    for (unsigned i = 0; i < n; i++) nb[off + i] = mkIte(c, mkExtract(v, 8 * i, 8), nb[off + i] ? nb[off + i] : byteOr(s, nullptr));
  }
  o->b = nb; return true;
}
static bool readCStr(State& s, E p, std::string& out) {
  uint64_t a; if (!concretize(s, p, a)) return false;
  out.clear();
  for (;;) { E b; if (!loadMem(s, mkConst(a + out.size(), 64), 1, b)) return false; uint64_t ch; if (!concretize(s, b, ch)) return false; if (!ch) return true; out += (char)ch; if (out.size() > 65536) { dropState(s, "long string"); return false; } }
}

// ---------------------------------------------------------------- values
static unsigned tyBits(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (auto* st = dyn_cast<StructType>(t)) { unsigned w = 0; for (auto* e : st->elements()) w += tyBits(e); return w; }
  if (auto* at = dyn_cast<ArrayType>(t)) return (unsigned)at->getNumElements() * tyBits(at->getElementType());
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * tyBits(vt->getElementType());
  return 0;
}
static bool supportedTy(Type* t) { unsigned w = tyBits(t); return w > 0 && w <= 128; }
static E constVal(const Constant* c);
static uint64_t gepConst(const GEPOperator* g) {
  APInt off(64, 0); bool ok = g->accumulateConstantOffset(*DL, off); if (!ok) { fprintf(stderr, "gep const\n"); abort(); }
  return off.getZExtValue();
}
static E constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { const APInt& v = ci->getValue(); u128 x = v.getRawData()[0]; if (v.getBitWidth() > 64) x |= (u128)v.getRawData()[1] << 64; return mkConst(x, v.getBitWidth()); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); return mkConst(v.getZExtValue(), v.getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return mkConst(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return mkConst(0, tyBits(c->getType()));
  if (isa<GlobalValue>(c)) { auto it = g_addr.find(c); if (it == g_addr.end()) { if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee()); return mkConst(0x6660000, 64); } return mkConst(it->second, 64); }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { E r = nullptr; for (unsigned i = 0; i < ca->getNumOperands(); i++) { E e = constVal(ca->getOperand(i)); r = r ? mkConcat(e, r) : e; } return r; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { E r = nullptr; for (unsigned i = 0; i < cd->getNumElements(); i++) { E e = constVal(cd->getElementAsConstant(i)); r = r ? mkConcat(e, r) : e; } return r; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return mkAdd(mkConst(gepConst(cast<GEPOperator>(ce)), 64), constVal(ce->getOperand(0)));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return mkZx(constVal(ce->getOperand(0)), tyBits(ce->getType()));
      case Instruction::Sub: return mkSub(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
      case Instruction::Add: return mkAdd(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
      default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n"; return mkConst(0, std::max(1u, tyBits(c->getType())));
}
static void initGlobalBytes(Obj& o, uint64_t off, const Constant* c) {
  Type* t = c->getType(); uint64_t sz = DL->getTypeAllocSize(t);
  if (isa<UndefValue>(c)) { return; }
  if (isa<ConstantAggregateZero>(c)) { for (uint64_t i = 0; i < sz; i++) o.b[off + i] = c8[0]; return; }
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cds->getElementType()); for (unsigned i = 0; i < cds->getNumElements(); i++) storeBytes(&o, off + i * es, constVal(cds->getElementAsConstant(i)), es); return; }
  if (isa<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobalBytes(o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { const StructLayout* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobalBytes(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  E v = constVal(c); unsigned n = DL->getTypeStoreSize(t); storeBytes(&o, off, mkZx(v, n * 8), n);
}
static FnInfo* fnInfo(Function* f) {
  auto it = g_fi.find(f); if (it != g_fi.end()) return it->second;
  FnInfo* fi = new FnInfo(); fi->dem = demangle(f->getName().str());
  for (auto& a : f->args()) fi->slot[&a] = fi->n++;
  for (auto& i : instructions(*f)) if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->n++;
  if (auto* sp = f->getSubprogram()) { std::string fn = sp->getFilename().str(); if (fn.empty() || fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; fi->repo = fn.find("/usr/") != 0 && fn.find("/verif") == std::string::npos; }
  else fi->repo = fi->dem.find("h264nal::") != std::string::npos;
  g_fi[f] = fi; return fi;
}
static E val(Frame& f, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
  auto it = f.fi->slot.find(v); assert(it != f.fi->slot.end()); E e = f.v[it->second]; assert(e); return e;
}
static void setv(Frame& f, const Instruction* i, E e) { f.v[f.fi->slot[i]] = e; }

static void pushFrame(State& s, Function* f, const std::vector<E>& args, CallBase* call) {
  Frame fr; fr.f = f; fr.fi = fnInfo(f); fr.bb = &f->getEntryBlock(); fr.pc = fr.bb->begin(); fr.prev = nullptr; fr.call = call;
  fr.v.assign(fr.fi->n, nullptr);
  unsigned i = 0; for (auto& a : f->args()) { fr.v[fr.fi->slot[&a]] = args[i]; i++; }
  for (; i < args.size(); i++) fr.va.push_back(args[i]);
  if (fr.fi->repo) g_fnsRun.insert(fr.fi->dem);
  s.st.push_back(std::move(fr));
}
// loop-controlling branches: 1 = the true successor leaves the loop, 2 = the false one
static void loopScan(FnInfo* fi, Function* f) {
  if (!fi->loops) {
    fi->loops = true; DominatorTree DT(*f); LoopInfo LI(DT);
    for (auto& b : *f) { Loop* l = LI.getLoopFor(&b); if (!l) continue; for (Loop* q = l; q; q = q->getParentLoop()) if (q->isLoopLatch(&b)) fi->back.insert({&b, q->getHeader()}); auto* br = dyn_cast<BranchInst>(b.getTerminator()); if (!br || br->isUnconditional()) continue;
      if (&b != l->getHeader() && !l->isLoopLatch(&b)) continue;
      bool o0 = !l->contains(br->getSuccessor(0)), o1 = !l->contains(br->getSuccessor(1)); if (o0 != o1) fi->loopExit[&b] = o0 ? 1 : 2; }
  }
}
static int loopExitSide(FnInfo* fi, BasicBlock* bb) {
  loopScan(fi, bb->getParent());
  auto it = fi->loopExit.find(bb); return it == fi->loopExit.end() ? 0 : it->second;
}
static void jump(State& s, BasicBlock* to) {
  Frame& f = s.st.back();
  if (O.iters && f.fi->repo && !s.sample) { // loops that consume input: at most `iters` iterations that read
    loopScan(f.fi, to->getParent());
    if (f.fi->back.count({f.bb, to})) {
      size_t n = 0; for (auto& t : s.tapes) n += t.second.a.size();
      auto& p = f.iters[to]; if (n != p.second) { p.second = n; if (++p.first >= O.iters) { g_dropped["more than " + std::to_string(O.iters) + " iterations in " + f.fi->dem.substr(0, f.fi->dem.find('('))]++; s.done = true; s.endWhy = "loop bound"; } }
    }
  } f.prev = f.bb; f.bb = to; f.pc = to->begin();
  // phis
  std::vector<std::pair<const PHINode*, E>> ph;
  for (auto it = to->begin(); auto* p = dyn_cast<PHINode>(&*it); ++it) ph.push_back({p, val(f, p->getIncomingValueForBlock(f.prev))});
  for (auto& p : ph) { setv(f, p.first, p.second); ++f.pc; }
}
static void finishCall(State& s, CallBase* cb, E v) {
  Frame& f = s.st.back();
  if (v && !cb->getType()->isVoidTy()) setv(f, cb, v);
  if (auto* inv = dyn_cast<InvokeInst>(cb)) jump(s, inv->getNormalDest()); else ++f.pc;
}

// ---------------------------------------------------------------- tape (symbolic bit stream)
static E ueLenExpr(E v) { // 16-bit length of ue(v)
  E x = mkAdd(mkConst(1, 33), mkZExt(v, 33)); E r = mkConst(1, 16);
  for (unsigned n = 1; n <= 31; n++) r = mkIte(mkBin(ULE, mkConst((u128)1 << n, 33), x), mkConst(2 * n + 1, 16), r);
  return r;
}
static E posExpr(const Tape& t, unsigned atom, unsigned off) { E r = mkConst(off, 16); for (unsigned i = 0; i < atom && i < t.a.size(); i++) r = mkAdd(r, t.a[i].ue ? ueLenExpr(t.a[i].val) : mkConst(t.a[i].w, 16)); return r; }
static E relPos(const Tape& t, unsigned atom, unsigned off) { // bits from the length base (lb, lbo) to (atom, off), modulo 2^16
  auto w = [&](unsigned i) { return t.a[i].ue ? ueLenExpr(t.a[i].val) : mkConst(t.a[i].w, 16); };
  E r = mkConst((u128)(uint16_t)(off - t.lbo), 16);
  for (unsigned i = t.lb; i < atom && i < t.a.size(); i++) r = mkAdd(r, w(i));
  for (unsigned i = atom; i < t.lb; i++) r = mkSub(r, w(i));
  return r;
}
static void lsymOn(State& s, Tape& t, const Cursor& c) { // L: bits from the base (the cursor that first asked) to the end
  if (t.lsym) return;
  t.lsym = true; t.L = mkVar("L", 16); t.lb = c.atom; t.lbo = c.off; E end = relPos(t, t.a.size(), 0);
  uint64_t e0 = (uint64_t)evalExpr(end, s.model);
  s.model[(uint32_t)t.L->c] = t.closed ? e0 : e0 + 200;
  addCons(s, mkBin(ULT, t.L, mkConst(20000, 16)));
  addCons(s, mkBin(ULE, end, t.L));
  if (t.closed) { if (t.tailMax < 0) addCons(s, mkEq(end, t.L)); else addCons(s, mkBin(ULT, t.L, mkAdd(end, mkConst(t.tailMax, 16)))); }
}
// close the tape at the current end with fewer than `need` more bits. false: infeasible
static bool tapeClose(State& s, Tape& t, int need, bool ue) {
  if (t.alignAtom >= 0) { // byte alignment already fixed: an end must be byte aligned
    bool conc = true; unsigned d = 0; for (unsigned i = t.alignAtom; i < t.a.size(); i++) { if (t.a[i].ue) conc = false; else d += t.a[i].w; }
    if (conc) { int pad = (8 - (int)((t.alignT - t.alignOff + d) % 8 + 8) % 8) % 8; if (pad >= need) return false; }
  }
  if (t.lsym) { E end = relPos(t, t.a.size(), 0); if (!assume(s, mkBin(ULT, t.L, mkAdd(end, mkConst(need, 16))))) return false; }
  t.closed = true; t.tailMax = need; t.tailUe = ue; return true;
}
static bool tapeAppend(State& s, Tape& t, const Atom& a) {
  t.a.push_back(a);
  if (t.lsym && s.sample) {
    E end = relPos(t, t.a.size(), 0); if (evalExpr(mkBin(ULE, end, t.L), s.model)) return true;
    s.model[(uint32_t)t.L->c] = (uint64_t)evalExpr(end, s.model) + 64; for (E c : s.cons) if (!evalExpr(c, s.model)) return false;
    return true;
  }
  if (t.lsym) { E end = relPos(t, t.a.size(), 0); return assume(s, mkBin(ULE, end, t.L)); }
  return true;
}
// the reference reads on where the code under test stopped: unless the two are out of step this does
// not happen; follow one concrete assignment first, the symbolic continuation later
static void refAppend(State& s, int ti) {
  if (s.ooStep || O.noSample) return; Tape& t = s.tapes[ti]; Cursor c = s.rcur[ti];
  while (c.atom < t.a.size() && !t.a[c.atom].ue && c.off >= t.a[c.atom].w) { c.atom++; c.off = 0; }
  if (c.atom < t.a.size() || t.closed) return;
  bool real = false; for (auto& p : s.cur) if (p.second.tape == ti && (p.second.atom || p.second.off)) real = true;
  if (!real) return; // nothing was read by the code: the reference runs first
  s.ooStep = true; SP n = cloneState(s); pushWork(std::move(n)); s.sample = s.bounded = true; ST.samples++;
}
enum TR { T_OK, T_FAIL, T_ENDED }; // T_ENDED: state dropped
static bool tapeTail(State& s, int ti) { // materialise a deferred tail; forks. false if state ended
  Tape& t0 = s.tapes[ti]; int mx = t0.tailMax; bool ue = t0.tailUe; if (ue && mx > 13) mx = 13;
  bool mine = false; SP self;
  std::vector<SP> alts;
  for (int r = 0; r < mx; r++) {
    SP n(new State(s)); Tape& t = n->tapes[ti]; t.tailMax = -1; t.tailUe = false;
    bool ok = true;
    if (r > 0) {
      E b = mkVar("tail", r); t.a.push_back({false, b, (unsigned)r});
      if (ue) { int lz = (r - 1) / 2 + 1; E lim = mkConst((u128)1 << (r - lz), r); ok = assume(*n, mkBin(ULT, b, lim)); }
    }
    if (ok && t.lsym) ok = assume(*n, mkEq(relPos(t, t.a.size(), 0), t.L));
    if (ok) alts.push_back(std::move(n));
  }
  if (alts.empty()) { s.done = true; s.endWhy = "infeasible"; return false; }
  for (size_t i = 1; i < alts.size(); i++) { ST.forks++; pushWork(std::move(alts[i])); }
  s = *alts[0]; return true;
}
static bool ueMaterialise(State& s, int ti, unsigned ai) {
  E len = ueLenExpr(s.tapes[ti].a[ai].val); uint64_t L;
  if (!concretize(s, len, L)) return false;
  Tape& t = s.tapes[ti]; unsigned lz = (unsigned)(L - 1) / 2; E x = mkAdd(mkConst(1, 33), mkZExt(t.a[ai].val, 33));
  E low = mkExtract(x, 0, lz + 1); t.a[ai] = {false, lz ? mkConcat(mkConst(0, lz), low) : low, (unsigned)L};
  return true;
}
static void curNorm(const Tape& t, Cursor& c) { while (c.atom < t.a.size() && !t.a[c.atom].ue && c.off >= t.a[c.atom].w) { c.atom++; c.off = 0; } }
// read n bits at c (advancing c)
static TR tapeBits(State& s, Cursor& c, unsigned n, E& out) {
  Cursor p = c; unsigned need = n; E acc = nullptr;
  while (need > 0) {
    Tape& t = s.tapes[p.tape]; curNorm(t, p);
    if (p.atom >= t.a.size()) {
      if (t.closed) {
        if (t.tailMax < 0) return T_FAIL;
        if ((int)need >= t.tailMax && !(t.tailUe)) return T_FAIL;
        if (!tapeTail(s, p.tape)) return T_ENDED;
        continue;
      }
      if (!O.noeof && !s.sample) { SP n2 = cloneState(s);
      if (tapeClose(*n2, n2->tapes[p.tape], (int)need, false)) pushWork(std::move(n2)); }
      E b = mkVar("b", need);
      if (!tapeAppend(s, s.tapes[p.tape], {false, b, need})) { s.done = true; s.endWhy = "infeasible"; return T_ENDED; }
      continue;
    }
    Atom& a = t.a[p.atom];
    if (a.ue) { // the two readers disagree about what is at this bit: go on with one sample value
      u128 v = evalExpr(a.val, s.model) & 0xffffffffu; g_dropped["readers out of step: one value followed"]++; ST.dropped++;
      s.sample = s.ooStep = true; s.bounded = true; addCons(s, mkEq(mkConst(v, 32), a.val));
      if (!ueMaterialise(s, p.tape, p.atom)) return T_ENDED; continue; }
    unsigned k = std::min(need, a.w - p.off);
    E part = mkExtract(a.val, a.w - p.off - k, k);
    acc = acc ? mkConcat(acc, part) : part;
    need -= k; p.off += k;
  }
  curNorm(s.tapes[p.tape], p);
  c = p; out = acc; return T_OK;
}
static TR tapeUe(State& s, Cursor& c, E& out) {
  { Tape& t = s.tapes[c.tape]; curNorm(t, c);
    if (c.atom >= t.a.size() && !t.closed) {
      if (!O.noeof && !s.sample) { SP n1 = cloneState(s); if (tapeClose(*n1, n1->tapes[c.tape], 63, true)) pushWork(std::move(n1));
      SP n2 = cloneState(s); if (tapeAppend(*n2, n2->tapes[c.tape], {false, mkConst(0, 32), 32})) pushWork(std::move(n2)); }
      E v = mkVar("ue", 32); addCons(s, mkNot(mkEq(v, mkConst(0xffffffffu, 32))));
      if (!tapeAppend(s, s.tapes[c.tape], {true, v, 0})) { s.done = true; s.endWhy = "infeasible"; return T_ENDED; }
    }
    Tape& t2 = s.tapes[c.tape];
    if (c.atom >= t2.a.size() && t2.closed && t2.tailMax >= 0 && t2.tailUe) return T_FAIL;
    if (c.atom < t2.a.size() && t2.a[c.atom].ue) { out = t2.a[c.atom].val; c.atom++; c.off = 0; return T_OK; }
  }
  // over raw bits
  Cursor p = c; unsigned zeros = 0;
  for (;;) {
    if (zeros >= 32) return T_FAIL;
    E b; TR r = tapeBits(s, p, 1, b); if (r != T_OK) return r;
    bool one = decide(s, b); if (one) break; zeros++;
  }
  E x = mkConst(1, 1);
  if (zeros) { E b; TR r = tapeBits(s, p, zeros, b); if (r != T_OK) return r; x = mkConcat(x, b); }
  out = mkSub(mkZx(x, 32), mkConst(1, 32)); c = p; return T_OK;
}
static TR tapeRemaining(State& s, Cursor& c, E& out) { // 64-bit
  for (;;) {
    Tape& t = s.tapes[c.tape]; curNorm(t, c);
    bool raw = true; unsigned av = 0; for (unsigned i = c.atom; i < t.a.size(); i++) { if (t.a[i].ue) raw = false; else av += t.a[i].w; } if (raw) av -= c.off;
    if (t.closed && t.tailMax < 0 && raw) { out = mkConst(av, 64); return T_OK; }
    unsigned lb = 0; for (unsigned i = c.atom; i < t.a.size(); i++) lb += t.a[i].ue ? 1 : t.a[i].w; lb -= std::min(lb, c.off);
    if (lb > (unsigned)O.rbK && !t.lsym) { // certainly more than K bits left: the exact number is left open
      E v = mkVar("rem", 64); s.model[(uint32_t)v->c] = 4096; addCons(s, mkBin(ULT, mkConst(O.rbK, 64), v)); addCons(s, mkBin(ULT, v, mkConst(1u << 20, 64))); learn(s, v, O.rbK + 1, (1 << 20) - 1); out = v; return T_OK;
    }
    lsymOn(s, t, c);
    E R = mkSub(t.L, relPos(t, c.atom, c.off));
    E big = mkBin(ULT, mkConst(O.rbK, 16), R);
    if (mustBe(s, big)) { out = mkZExt(R, 64); return T_OK; }
    if (t.closed && t.tailMax >= 0) { if (!tapeTail(s, c.tape)) return T_ENDED; continue; }
    if (!raw) { for (unsigned i = c.atom; i < s.tapes[c.tape].a.size(); i++) if (s.tapes[c.tape].a[i].ue) { if (!ueMaterialise(s, c.tape, i)) return T_ENDED; } continue; }
    // open and raw: R in av..K closed, or > K
    for (unsigned r = av; r <= (unsigned)O.rbK; r++) {
      SP n = cloneState(s); Tape& nt = n->tapes[c.tape]; bool ok = true;
      if (r > av) { nt.a.push_back({false, mkVar("t", r - av), r - av}); }
      nt.closed = true; nt.tailMax = -1;
      if (nt.alignAtom >= 0) { unsigned d = 0; bool conc = true; for (unsigned i = nt.alignAtom; i < nt.a.size(); i++) { if (nt.a[i].ue) conc = false; else d += nt.a[i].w; } if (conc && ((nt.alignT - nt.alignOff + (int)d) % 8 + 8) % 8) ok = false; }
      ok = ok && assume(*n, mkEq(relPos(nt, nt.a.size(), 0), nt.L));
      if (ok) pushWork(std::move(n));
    }
    if (!assume(s, big)) { if (!s.done) { s.done = true; s.endWhy = "infeasible"; } return T_ENDED; }
  }
}
static TR tapeAlign(State& s, Cursor& c, unsigned& bitoff) {
  Tape& t = s.tapes[c.tape]; curNorm(t, c);
  auto dist = [&](unsigned a0, unsigned o0, unsigned a1, unsigned o1, int& d) { d = 0; if (a1 < a0 || (a1 == a0 && o1 < o0)) { return false; } for (unsigned i = a0; i < a1; i++) { if (i >= t.a.size() || t.a[i].ue) return false; d += t.a[i].w; } d += (int)o1 - (int)o0; return true; };
  int d;
  if (t.closed && t.tailMax < 0 && dist(c.atom, c.off, t.a.size(), 0, d)) { bitoff = (8 - d % 8) % 8; return T_OK; }
  if (t.closed && t.tailMax >= 0) { if (!tapeTail(s, c.tape)) return T_ENDED; return tapeAlign(s, c, bitoff); }
  if (t.alignAtom >= 0) {
    if (dist(t.alignAtom, t.alignOff, c.atom, c.off, d)) { bitoff = (t.alignT + d) % 8; return T_OK; }
    dropState(s, "byte alignment after symbolic-length data"); return T_ENDED;
  }
  bool first = true; int mine = 0;
  for (int k = 0; k < 8; k++) if (O.alignSet & (1 << k)) {
    if (first) { mine = k; first = false; continue; }
    SP n = cloneState(s); Tape& nt = n->tapes[c.tape]; nt.alignAtom = c.atom; nt.alignOff = c.off; nt.alignT = k; pushWork(std::move(n));
  }
  t.alignAtom = c.atom; t.alignOff = c.off; t.alignT = mine; bitoff = mine;
  if (t.lsym) { // keep the end byte aligned: (alignT + L - pos) % 8 == 0
    E q = mkExtract(mkAdd(mkConst(mine, 16), mkSub(t.L, relPos(t, c.atom, c.off))), 0, 3);
    if (!assume(s, mkEq(mkConst(0, 3), q))) { if (!s.done) { s.done = true; s.endWhy = "infeasible"; } return T_ENDED; }
  }
  return T_OK;
}

// ---------------------------------------------------------------- printf
static void logText(State& s, uint64_t fp, const std::string& t) { if (t.empty()) return; auto& L = s.logs[fp]; if (!L.empty() && L.back().conv.empty()) L.back().text += t; else L.push_back({t, "", nullptr}); }
// formats into `pieces`; returns false if state ended
static bool fmtPieces(State& s, const std::string& fmt, const std::vector<E>& va, std::vector<Piece>& out) {
  size_t ai = 0; auto text = [&](const std::string& t) { if (!out.empty() && out.back().conv.empty()) out.back().text += t; else out.push_back({t, "", nullptr}); };
  for (size_t i = 0; i < fmt.size();) {
    if (fmt[i] != '%') { size_t j = fmt.find('%', i); if (j == std::string::npos) j = fmt.size(); text(fmt.substr(i, j - i)); i = j; continue; }
    if (fmt[i + 1] == '%') { text("%"); i += 2; continue; }
    size_t j = i + 1; std::string spec = "%"; std::string len;
    while (j < fmt.size() && !isalpha((unsigned char)fmt[j])) { if (fmt[j] == '*') { uint64_t w; if (ai >= va.size()) { errorState(s, "printf", "missing argument in: " + fmt); return false; } if (!concretize(s, va[ai++], w)) return false; spec += std::to_string((int)(int32_t)w); } else spec += fmt[j]; j++; }
    while (j < fmt.size() && strchr("hlzjtL", fmt[j])) len += fmt[j++];
    char cv = fmt[j++]; size_t i0 = i; (void)i0; i = j;
    if (ai >= va.size()) { errorState(s, "printf", "missing argument in: " + fmt); return false; }
    E a = va[ai++];
    if (cv == 's') {
      std::string str; uint64_t p; if (!concretize(s, a, p)) return false;
      if (spec == "%") { // symbolic characters stay symbolic
        bool ended = false;
        for (uint64_t k = 0; k < 65536; k++) {
          E b; if (!loadMem(s, mkConst(p + k, 64), 1, b)) return false; b = rw(s, b);
          if (isC(b)) { if (!b->c) { ended = true; break; } text(std::string(1, (char)b->c)); continue; }
          if (!decide(s, mkNot(mkEq(mkConst(0, 8), b)))) { if (s.done) return false; ended = true; break; }
          if (s.done) return false;
          out.push_back({"", "%c", mkZExt(b, 72)});
        }
        if (!ended) { dropState(s, "long string"); return false; }
        continue;
      }
      if (!readCStr(s, mkConst(p, 64), str)) return false;
      char buf[4096]; if (str.size() < 2000) { snprintf(buf, sizeof buf, (spec + "s").c_str(), str.c_str()); text(buf); } else text(str);
    } else if (strchr("diuxXc", cv)) {
      unsigned bits = (len == "l" || len == "ll" || len == "z" || len == "j" || len == "t") ? 64 : 32;
      E v = mkZx(a, bits); if (len == "hh") v = mkExtract(v, 0, 8); else if (len == "h") v = mkExtract(v, 0, 16); if (cv == 'c') v = mkExtract(v, 0, 8);
      E v64 = (cv == 'd' || cv == 'i') ? mkSExt(v, 64) : mkZExt(v, 64);
      if (isC(v64)) { char buf[256]; std::string sp = spec + (cv == 'c' ? "" : "ll") + (cv == 'i' ? 'd' : cv); if (cv == 'c') snprintf(buf, sizeof buf, sp.c_str(), (int)v64->c); else snprintf(buf, sizeof buf, sp.c_str(), (long long)v64->c); text(buf); }
      else {
        std::string canon = (cv == 'd' || cv == 'i' || cv == 'u') ? "d" : std::string(1, cv);
        // %u of a 64-bit value with the top bit set is not the same integer as %d: keep 128-bit value
        out.push_back({"", spec + canon, (cv == 'd' || cv == 'i') ? mkSExt(v64, 72) : mkZExt(v64, 72)});
      }
    } else if (strchr("feEgG", cv)) {
      if (isC(a)) { char buf[512]; double d; uint64_t x = (uint64_t)a->c; memcpy(&d, &x, 8); snprintf(buf, sizeof buf, (spec + cv).c_str(), d); text(buf); }
      else out.push_back({"", spec + cv, mkZExt(a, 72)});
    } else if (cv == 'p') { text("<ptr>"); }
    else { dropState(s, std::string("printf conversion %") + cv); return false; }
  }
  return true;
}
static bool doPrintf(State& s, E fp, E fmtp, const std::vector<E>& va) {
  std::string fmt; if (!readCStr(s, fmtp, fmt)) return false;
  std::vector<Piece> ps; if (!fmtPieces(s, fmt, va, ps)) return false;
  uint64_t f; if (!concretize(s, fp, f)) return false;
  if (f == FILE_BASE + 1) return true; // stderr: diagnostics are not part of any log
  for (auto& p : ps) { if (p.conv.empty()) logText(s, f, p.text); else s.logs[f].push_back(p); }
  return true;
}
// decimal text of a value: forks on concrete values only
static bool piecesToBytes(State& s, const std::vector<Piece>& ps, std::vector<E>& out) {
  for (auto& p : ps) {
    if (p.conv.empty()) { for (char ch : p.text) out.push_back(c8[(unsigned char)ch]); continue; }
    if (p.conv == "%02x" && mustBe(s, mkBin(ULT, p.val, mkConst(256, 72)))) { // two hex digits of a byte
      for (int k = 1; k >= 0; k--) { E nib = mkZExt(mkExtract(p.val, 4 * k, 4), 8); out.push_back(mkIte(mkBin(ULT, nib, mkConst(10, 8)), mkAdd(mkConst('0', 8), nib), mkAdd(mkConst('a' - 10, 8), nib))); }
      continue;
    }
    if (p.conv == "%c") { out.push_back(mkExtract(p.val, 0, 8)); continue; }
    uint64_t v; if (!concretize(s, mkExtract(p.val, 0, 64), v)) return false;
    char buf[256]; std::string sp = p.conv; sp.insert(sp.size() - 1, "ll"); snprintf(buf, sizeof buf, sp.c_str(), (long long)v);
    for (char* q = buf; *q; q++) out.push_back(c8[(unsigned char)*q]);
  }
  return true;
}

#include "calls.inc"

// ---------------------------------------------------------------- interpreter
static void branchTo(State& s, E cond, BasicBlock* t, BasicBlock* f) {
  cond = rw(s, cond);
  if (isC(cond)) { jump(s, cond->c ? t : f); return; }
  if (O.unwind < 1000000) if (int side = loopExitSide(s.st.back().fi, s.st.back().bb)) {
    E ex = side == 1 ? cond : mkNot(cond); Frame& fr = s.st.back(); int& n = fr.forks[fr.bb];
    if (n >= O.unwind) { Model m; int r = mayBe(s, ex, &m); int r2 = mayBe(s, mkNot(ex), nullptr);
      if (r == 1 && r2 != 0) { g_dropped["unwind bound " + std::to_string(O.unwind) + " in " + fr.fi->dem.substr(0, fr.fi->dem.find('('))]++; s.model = m; addCons(s, ex); jump(s, side == 1 ? t : f); return; } }
    else { Model m; if (mayBe(s, ex, &m) != 0 && mayBe(s, mkNot(ex), &m) != 0) n++; }
  }
  bool v = evalExpr(cond, s.model); E other = v ? mkNot(cond) : cond;
  Model m; int r = mayBe(s, other, &m);
  if (r == 1) { SP n = cloneState(s); n->model = std::move(m); addCons(*n, other); jump(*n, v ? f : t); pushWork(std::move(n)); }
  else if (r < 0) { g_dropped["solver unknown on branch"]++; ST.dropped++; }
  if (r) addCons(s, v ? cond : mkNot(cond));
  jump(s, v ? t : f);
}
static bool gepAddr(Frame& f, GEPOperator* g, E& out) {
  E a = val(f, g->getPointerOperand()); uint64_t cst = 0; E sym = nullptr;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    Value* op = it.getOperand();
    if (StructType* st = it.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
    uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); E i = val(f, op);
    if (i->w > 64) return false;
    i = mkSExt(i, 64);
    if (isC(i)) cst += (uint64_t)i->c * sz; else { E t = mkBin(MUL, mkConst(sz, 64), i); sym = sym ? mkAdd(sym, t) : t; }
  }
  if (sym) a = mkAdd(a, sym);
  out = mkAdd(mkConst(cst, 64), a); return true;
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(ULT, a, b);
    case CmpInst::ICMP_ULE: return mkBin(ULE, a, b);
    case CmpInst::ICMP_UGT: return mkBin(ULT, b, a);
    case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(SLT, a, b);
    case CmpInst::ICMP_SLE: return mkBin(SLE, a, b);
    case CmpInst::ICMP_SGT: return mkBin(SLT, b, a);
    case CmpInst::ICMP_SGE: return mkBin(SLE, b, a);
    default: return mkFalse();
  }
}
static E fcmp(CmpInst::Predicate p, E a, E b) {
  auto o = [&](FpOp op, E x, E y) { return mkFp(op, 1, x, y); };
  E uno = o(FP_UNO, a, b);
  switch (p) {
    case CmpInst::FCMP_OEQ: return o(FP_OEQ, a, b);
    case CmpInst::FCMP_OGT: return o(FP_OLT, b, a);
    case CmpInst::FCMP_OGE: return o(FP_OLE, b, a);
    case CmpInst::FCMP_OLT: return o(FP_OLT, a, b);
    case CmpInst::FCMP_OLE: return o(FP_OLE, a, b);
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(uno), mkNot(o(FP_OEQ, a, b)));
    case CmpInst::FCMP_ORD: return mkNot(uno);
    case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return mkOr(uno, o(FP_OEQ, a, b));
    case CmpInst::FCMP_UGT: return mkNot(o(FP_OLE, a, b));
    case CmpInst::FCMP_UGE: return mkNot(o(FP_OLT, a, b));
    case CmpInst::FCMP_ULT: return mkNot(o(FP_OLE, b, a));
    case CmpInst::FCMP_ULE: return mkNot(o(FP_OLT, b, a));
    case CmpInst::FCMP_UNE: return mkNot(o(FP_OEQ, a, b));
    case CmpInst::FCMP_TRUE: return mkTrue();
    default: return mkFalse();
  }
}
// a context switch: the other thread's function runs to its end before the preAt-th access to a mutable global
static bool preempted(State& s, E p) {
  if (!s.pre || !isC(p)) return false;
  uint64_t a = (uint64_t)p->c; auto g = g_globals.upper_bound(a); if (g == g_globals.begin()) return false; --g;
  if (g->second->ro || a >= g->second->base + g->second->size) return false;
  if (s.preCnt++ != s.preAt) return false;
  Function* fn = s.pre; s.pre = nullptr; g_reached.insert("switched"); pushFrame(s, fn, {}, nullptr); return true;
}
static void step(State& s) {
  Frame& f = s.st.back(); Instruction* I = &*f.pc; ST.instrs++;
  if (++s.steps > O.maxSteps) { reportFail(s, s.model, "hang", "no termination within the step budget"); dropState(s, "step budget"); return; }
  switch (I->getOpcode()) {
    case Instruction::Ret: {
      auto* r = cast<ReturnInst>(I); E v = r->getReturnValue() ? val(f, r->getReturnValue()) : nullptr;
      for (uint64_t a : f.allocas) s.mem.erase(a);
      CallBase* cb = f.call; s.st.pop_back();
      if (s.st.empty()) { s.done = true; s.endWhy = "ok"; return; }
      if (!cb) return; // the other thread is done: carry on where this one was
      finishCall(s, cb, v); return;
    }
    case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isUnconditional()) jump(s, b->getSuccessor(0)); else branchTo(s, val(f, b->getCondition()), b->getSuccessor(0), b->getSuccessor(1)); return; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); E c = val(f, sw->getCondition());
      if (isC(c)) { BasicBlock* to = sw->getDefaultDest(); for (auto& cs : sw->cases()) if (constVal(cs.getCaseValue()) == c) to = cs.getCaseSuccessor(); jump(s, to); return; }
      // group by destination
      std::vector<std::pair<BasicBlock*, E>> g; E any = mkFalse();
      for (auto& cs : sw->cases()) { E q = mkEq(constVal(cs.getCaseValue()), c); any = mkOr(any, q); bool hit = false; for (auto& p : g) if (p.first == cs.getCaseSuccessor()) { p.second = mkOr(p.second, q); hit = true; } if (!hit) g.push_back({cs.getCaseSuccessor(), q}); }
      E dflt = mkNot(any); bool hit = false; for (auto& p : g) if (p.first == sw->getDefaultDest()) { p.second = mkOr(p.second, dflt); hit = true; } if (!hit) g.push_back({sw->getDefaultDest(), dflt});
      int mine = -1;
      for (size_t i = 0; i < g.size(); i++) {
        if (mine < 0 && evalExpr(g[i].second, s.model)) { mine = (int)i; continue; }
        Model m; int r = mayBe(s, g[i].second, &m);
        if (r == 1) { SP n = cloneState(s); n->model = m; addCons(*n, g[i].second); jump(*n, g[i].first); pushWork(std::move(n)); }
        else if (r < 0) { g_dropped["solver unknown on switch"]++; ST.dropped++; }
      }
      addCons(s, g[mine].second); jump(s, g[mine].first); return;
    }
    case Instruction::Unreachable: errorState(s, "unreachable", "reached code the compiler proved undefined"); return;
    case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(a->getAllocatedType()), cnt;
      if (!concretize(s, val(f, a->getArraySize()), cnt)) return;
      uint64_t p = allocObj(s, n * cnt, OK_STACK, "stack " + f.fi->dem.substr(0, 60)); Frame& f2 = s.st.back(); f2.allocas.push_back(p); setv(f2, I, mkConst(p, 64)); ++f2.pc; return;
    }
    case Instruction::Load: {
      if (s.pre && preempted(s, val(f, cast<LoadInst>(I)->getPointerOperand()))) return;
      Type* t = I->getType(); if (!supportedTy(t)) { dropState(s, "unsupported type in load"); return; }
      unsigned n = DL->getTypeStoreSize(t); E v;
      if (!loadMem(s, val(f, cast<LoadInst>(I)->getPointerOperand()), n, v)) return;
      Frame& f2 = s.st.back(); setv(f2, I, mkZx(v, tyBits(t))); ++f2.pc; return;
    }
    case Instruction::Store: {
      if (s.pre && preempted(s, val(f, cast<StoreInst>(I)->getPointerOperand()))) return;
      auto* st = cast<StoreInst>(I); Type* t = st->getValueOperand()->getType(); if (!supportedTy(t)) { if (isa<ConstantAggregateZero>(st->getValueOperand())) { unsigned n = DL->getTypeStoreSize(t); for (unsigned i = 0; i < n; i++) if (!storeMem(s, mkAdd(mkConst(i, 64), val(f, st->getPointerOperand())), c8[0], 1)) return; ++s.st.back().pc; return; } dropState(s, "unsupported type in store"); return; }
      unsigned n = DL->getTypeStoreSize(t); E v = val(f, st->getValueOperand());
      if (!storeMem(s, val(f, st->getPointerOperand()), mkZx(v, n * 8), n)) return;
      ++s.st.back().pc; return;
    }
    case Instruction::GetElementPtr: { E a; if (I->getType()->isVectorTy() || !gepAddr(f, cast<GEPOperator>(I), a)) { dropState(s, "unsupported gep"); return; } setv(f, I, a); ++f.pc; return; }
    case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); if (c->getOperand(0)->getType()->isVectorTy()) { dropState(s, "vector instruction"); return; } setv(f, I, icmp(c->getPredicate(), val(f, c->getOperand(0)), val(f, c->getOperand(1)))); ++f.pc; return; }
    case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); setv(f, I, fcmp(c->getPredicate(), val(f, c->getOperand(0)), val(f, c->getOperand(1)))); ++f.pc; return; }
    case Instruction::Select: { if (I->getOperand(0)->getType()->isVectorTy()) { dropState(s, "vector instruction"); return; } E sc = val(f, I->getOperand(0)); if (!isC(sc)) sc = rw(s, sc); setv(f, I, mkIte(sc, val(f, I->getOperand(1)), val(f, I->getOperand(2)))); ++f.pc; return; }
    case Instruction::Freeze: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { if (!supportedTy(I->getType())) { dropState(s, "unsupported cast"); return; } setv(f, I, mkZx(val(f, I->getOperand(0)), tyBits(I->getType()))); ++f.pc; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      if (I->getType()->isVectorTy()) { dropState(s, "vector instruction"); return; }
      E a = val(f, I->getOperand(0)); unsigned w = tyBits(I->getType());
      setv(f, I, I->getOpcode() == Instruction::Trunc ? mkExtract(a, 0, w) : I->getOpcode() == Instruction::ZExt ? mkZExt(a, w) : mkSExt(a, w)); ++f.pc; return;
    }
    case Instruction::UIToFP: setv(f, I, mkFp(FP_UITOFP, tyBits(I->getType()), val(f, I->getOperand(0)))); ++f.pc; return;
    case Instruction::SIToFP: setv(f, I, mkFp(FP_SITOFP, tyBits(I->getType()), val(f, I->getOperand(0)))); ++f.pc; return;
    case Instruction::FPToUI: setv(f, I, mkFp(FP_FPTOUI, tyBits(I->getType()), val(f, I->getOperand(0)))); ++f.pc; return;
    case Instruction::FPToSI: setv(f, I, mkFp(FP_FPTOSI, tyBits(I->getType()), val(f, I->getOperand(0)))); ++f.pc; return;
    case Instruction::FPExt: setv(f, I, mkFp(FP_FPEXT, tyBits(I->getType()), val(f, I->getOperand(0)))); ++f.pc; return;
    case Instruction::FPTrunc: setv(f, I, mkFp(FP_FPTRUNC, tyBits(I->getType()), val(f, I->getOperand(0)))); ++f.pc; return;
    case Instruction::FNeg: setv(f, I, mkFp(FP_NEG, tyBits(I->getType()), val(f, I->getOperand(0)))); ++f.pc; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      FpOp op = I->getOpcode() == Instruction::FAdd ? FP_ADD : I->getOpcode() == Instruction::FSub ? FP_SUB : I->getOpcode() == Instruction::FMul ? FP_MUL : FP_DIV;
      setv(f, I, mkFp(op, tyBits(I->getType()), val(f, I->getOperand(0)), val(f, I->getOperand(1)))); ++f.pc; return;
    }
    case Instruction::ExtractValue: {
      auto* x = cast<ExtractValueInst>(I); Type* t = x->getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : x->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += tyBits(st->getElementType(k)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * tyBits(t); } }
      setv(f, I, mkExtract(val(f, x->getAggregateOperand()), off, tyBits(t))); ++f.pc; return;
    }
    case Instruction::InsertValue: {
      auto* x = cast<InsertValueInst>(I); Type* t = x->getType(); unsigned off = 0, tot = tyBits(t);
      if (tot > 128) { dropState(s, "wide aggregate"); return; }
      for (unsigned ix : x->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += tyBits(st->getElementType(k)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * tyBits(t); } }
      E a = val(f, x->getAggregateOperand()), v = val(f, x->getInsertedValueOperand()); unsigned w = v->w; E r = v;
      if (off) r = mkConcat(r, mkExtract(a, 0, off));
      if (off + w < tot) r = mkConcat(mkExtract(a, off + w, tot - off - w), r);
      setv(f, I, r); ++f.pc; return;
    }
    case Instruction::AtomicRMW: {
      if (s.pre && preempted(s, val(f, cast<AtomicRMWInst>(I)->getPointerOperand()))) return;
      auto* a = cast<AtomicRMWInst>(I); unsigned n = DL->getTypeStoreSize(a->getType()); E old;
      E p = val(f, a->getPointerOperand()), v = val(f, a->getValOperand());
      if (!loadMem(s, p, n, old)) return; E nv;
      switch (a->getOperation()) { case AtomicRMWInst::Add: nv = mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = mkSub(old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = mkOr(old, v); break; case AtomicRMWInst::And: nv = mkAnd(old, v); break; default: dropState(s, "atomicrmw"); return; }
      if (!storeMem(s, p, nv, n)) return; Frame& f2 = s.st.back(); setv(f2, I, old); ++f2.pc; return;
    }
    case Instruction::AtomicCmpXchg: {
      if (s.pre && preempted(s, val(f, cast<AtomicCmpXchgInst>(I)->getPointerOperand()))) return;
      auto* a = cast<AtomicCmpXchgInst>(I); unsigned n = DL->getTypeStoreSize(a->getNewValOperand()->getType()); E old;
      E p = val(f, a->getPointerOperand()), cmp = val(f, a->getCompareOperand()), nv = val(f, a->getNewValOperand());
      if (!loadMem(s, p, n, old)) return; E eq = mkEq(old, cmp);
      if (!storeMem(s, p, mkIte(eq, nv, old), n)) return; Frame& f2 = s.st.back(); setv(f2, I, mkConcat(eq, old)); ++f2.pc; return;
    }
    case Instruction::Fence: ++f.pc; return;
    case Instruction::LandingPad: case Instruction::Resume: dropState(s, "exception path"); return;
    default: break;
  }
  if (auto* bo = dyn_cast<BinaryOperator>(I)) {
    if (I->getType()->isVectorTy()) { dropState(s, "vector instruction"); return; }
    E a = val(f, bo->getOperand(0)), b = val(f, bo->getOperand(1)); Op op;
    switch (bo->getOpcode()) {
      case Instruction::Add: op = ADD; break; case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break;
      case Instruction::UDiv: op = UDIV; break; case Instruction::SDiv: op = SDIV; break; case Instruction::URem: op = UREM; break; case Instruction::SRem: op = SREM; break;
      case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break;
      case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; case Instruction::AShr: op = ASHR; break;
      default: dropState(s, std::string("unsupported ") + I->getOpcodeName()); return;
    }
    if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
      E z = mkEq(mkConst(0, b->w), b);
      if (!isFalse(z)) { Model m; if (mayBe(s, z, &m) == 1) { State tmp = s; tmp.model = m; reportFail(tmp, m, "div-by-zero", "division by zero"); if (!assume(s, mkNot(z))) { if (!s.done) { s.done = true; s.endWhy = "error: div-by-zero"; } return; } } }
    }
    setv(s.st.back(), I, mkBin(op, a, b)); ++s.st.back().pc; return;
  }
  dropState(s, std::string("unsupported ") + I->getOpcodeName());
}

static void finishPath(State& s) {
  ST.paths++;
  if (s.endWhy == "ok") {
    if (O.leak) { uint64_t n = 0; std::string nm; for (auto& p : s.mem) if (p.second->kind == OK_HEAP || p.second->kind == OK_HEAPARR) { n++; nm = p.second->name; } if (n) reportFail(s, s.model, "leak", std::to_string(n) + " heap object(s) never freed"); }
  }
  if ((s.endWhy == "ok") && !s.bounded) {
    // witness files for native translation validation: reservoir by stride
    bool take = g_witness < (uint64_t)O.witnessMax || ((ST.paths * 2654435761u) % (ST.paths + 1)) < (uint64_t)O.witnessMax;
    if (take) {
      uint64_t slot = g_witness < (uint64_t)O.witnessMax ? g_witness : ((ST.paths * 0x9E3779B97F4A7C15ULL) >> 33) % O.witnessMax;
      writeReplay(s, s.model, O.out + "/wit_" + O.harness + "_" + std::to_string(O.shard) + "_" + std::to_string(slot) + ".txt");
      g_witness++;
    }
  }
}

static bool memoryFull() { // resident set over the budget: stop exploring, report the rest as cut
  static uint64_t calls = 0; if (calls++ % 16) return false;
  FILE* f = fopen("/proc/self/statm", "r"); if (!f) return false; unsigned long a = 0, b = 0; int n = fscanf(f, "%lu %lu", &a, &b); fclose(f); return n == 2 && (b >> 8) > O.memLimit;
}
static void runLoop() {
  double t0 = now(); bool timedout = false, full = false; uint64_t rs = 12345 + O.seed;
  auto runOne = [&](SP s) { while (!s->done) { step(*s); if ((ST.instrs & 0xffff) == 0 && now() - t0 > O.timeLimit) { dropState(*s, "time limit"); timedout = true; } else if ((ST.instrs & 0xffff) == 0 && (full = full || memoryFull())) dropState(*s, "memory limit"); } finishPath(*s); };
  if (O.shards > 1) { // breadth-first prefix, then keep our share
    size_t target = (size_t)O.shards * 12; uint64_t guard = 0;
    while (!work.empty() && work.size() < target && guard++ < 4000000) {
      SP s = std::move(work.front()); work.pop_front(); size_t before = work.size();
      while (!s->done && work.size() == before) step(*s);
      if (s->done) { if (O.shard == 0) finishPath(*s); } else work.push_back(std::move(s));
    }
    std::deque<SP> mine; size_t i = 0; for (auto& s : work) { if ((int)(i % O.shards) == O.shard) mine.push_back(std::move(s)); i++; } work.swap(mine);
    if (O.shard != 0) { ST.paths = 0; g_failures.clear(); g_failCount.clear(); }
  }
  while (!work.empty()) {
    full = full || memoryFull();
    if (ST.paths >= O.maxPaths || full || now() - t0 > O.timeLimit) { g_dropped[full ? "memory limit" : ST.paths >= O.maxPaths ? "path limit" : "time limit"] += work.size(); ST.dropped += work.size(); work.clear(); break; }
    if (O.rnd && (ST.paths & 3) == 0 && work.size() > 4) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(work.back(), work[(rs >> 33) % work.size()]); }
    SP s = std::move(work.back()); work.pop_back(); runOne(std::move(s));
  }
}

static int optMode(const char* in, const char* out) {
  LLVMContext C; SMDiagnostic Er; auto m = parseIRFile(in, Er, C); if (!m) { Er.print("vk", errs()); return 3; }
  for (auto& f : *m) {
    std::string d = demangle(f.getName().str());
    f.removeFnAttr(Attribute::OptimizeNone);
    if (d.find("h264nal::") == 0 || (d.find("std::") != 0 && d.find(" h264nal::") != std::string::npos && d.find("Parse") != std::string::npos) || d.find("vk_") == 0 || d.find("vkr_") == 0) { f.removeFnAttr(Attribute::AlwaysInline); f.addFnAttr(Attribute::NoInline); }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false;
  PassBuilder PB2(nullptr, PTO); PB2.registerModuleAnalyses(MAM); PB2.registerCGSCCAnalyses(CAM); PB2.registerFunctionAnalyses(FAM); PB2.registerLoopAnalyses(LAM); PB2.crossRegisterProxies(LAM, FAM, CAM, MAM);
  auto MPM = PB2.buildPerModuleDefaultPipeline(OptimizationLevel::O1); MPM.run(*m, MAM);
  std::error_code EC; raw_fd_ostream os(out, EC); WriteBitcodeToFile(*m, os); return 0;
}

static void writeResult(double wall) {
  if (getenv("VK_FORKPROF")) { std::vector<std::pair<uint64_t, std::string>> v; for (auto& x : g_forkProf) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "fork %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  std::ofstream f(O.out + "/res_" + O.harness + "_" + std::to_string(O.shard) + ".json");
  f << "{\"harness\":\"" << O.harness << "\",\"shard\":" << O.shard << ",\"paths\":" << ST.paths << ",\"instructions\":" << ST.instrs << ",\"forks\":" << ST.forks << ",\"queries\":" << ST.queries << ",\"cache_hits\":" << ST.cacheHits << ",\"sat\":" << ST.sat << ",\"unsat\":" << ST.unsat << ",\"unknown\":" << ST.unknown << ",\"solver_s\":" << ST.solverS << ",\"wall_s\":" << wall << ",\"asserts\":" << ST.asserts << ",\"assert_queries\":" << ST.assertQ << ",\"dropped\":" << ST.dropped << ",\"samples\":" << ST.samples << ",\"drop_reasons\":{";
  bool c = false; for (auto& p : g_dropped) { f << (c ? "," : "") << "\"" << jesc(p.first) << "\":" << p.second; c = true; }
  f << "},\"asserted\":{"; c = false; for (auto& p : g_assertSeen) { f << (c ? "," : "") << "\"" << jesc(p.first) << "\":" << p.second; c = true; }
  f << "},\"reached\":["; c = false; for (auto& p : g_reached) { f << (c ? "," : "") << "\"" << jesc(p) << "\""; c = true; }
  f << "],\"functions\":["; c = false; for (auto& p : g_fnsRun) { f << (c ? "," : "") << "\"" << jesc(p) << "\""; c = true; }
  f << "],\"failures\":["; c = false; for (auto& p : g_failures) { f << (c ? "," : "") << p; c = true; }
  f << "]}\n"; f.close();
}
static void watchdog() {
  for (;;) {
    std::this_thread::sleep_for(std::chrono::milliseconds(200)); double d = g_deadline, h = g_hard, t = now();
    if (d > 0 && t > d) Z3_interrupt(S->c);
    if ((d > 0 && t > d + 6) || (h > 0 && t > h)) { g_dropped["solver did not return"]++; ST.dropped++; ST.unknown++; writeResult(t); fflush(nullptr); _exit(0); }
  }
}

int main(int argc, char** argv) {
  now();
  if (argc >= 4 && !strcmp(argv[1], "--opt")) return optMode(argv[2], argv[3]);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--run") O.bc = nx(); else if (a == "--harness") O.harness = nx(); else if (a == "--out") O.out = nx(); else if (a == "--time") O.timeLimit = atof(nx().c_str());
    else if (a == "--paths") O.maxPaths = atoll(nx().c_str()); else if (a == "--steps") O.maxSteps = atoll(nx().c_str()); else if (a == "--shard") { std::string v = nx(); sscanf(v.c_str(), "%d/%d", &O.shard, &O.shards); }
    else if (a == "--witness") O.witnessMax = atoi(nx().c_str()); else if (a == "--rbk") O.rbK = atoi(nx().c_str()); else if (a == "--align") O.alignSet = strtol(nx().c_str(), 0, 0); else if (a == "--conc") O.concMax = atoi(nx().c_str());
    else if (a == "--leak") O.leak = true; else if (a == "--cut") O.cut.push_back(nx()); else if (a == "--unwind") O.unwind = atoi(nx().c_str()); else if (a == "--iters") O.iters = atoi(nx().c_str()); else if (a == "--noeof") O.noeof = true; else if (a == "--nosample") O.noSample = true; else if (a == "-v") O.verbose = true; else if (a == "--seed") O.seed = atoi(nx().c_str()); else if (a == "--qtimeout") O.qtimeout = atoi(nx().c_str()); else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; } }
  LLVMContext C; SMDiagnostic Er; auto m = parseIRFile(O.bc, Er, C); if (!m) { Er.print("vk", errs()); return 3; }
  M = m.get(); DL = &M->getDataLayout(); S = new Solver(); S->init();
  for (int i = 0; i < 256; i++) c8[i] = mkConst(i, 8);
  uint64_t fa = FN_BASE; for (auto& f : *M) { g_addr[&f] = fa; g_fnAt[fa] = &f; fa += 16; }
  uint64_t ga = GLOB_BASE;
  for (auto& g : M->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; g_addr[&g] = ga; ObjP o = std::make_shared<Obj>(); o->base = ga; o->size = sz; o->kind = OK_GLOBAL; o->ro = g.isConstant(); o->name = "global " + g.getName().str(); o->b.assign(sz, nullptr); g_globals[ga] = o; ga += ((sz + 15) & ~15ULL) + 64; }
  for (auto& g : M->globals()) { Obj& o = *g_globals[g_addr[&g]];
    if (g.hasInitializer()) initGlobalBytes(o, 0, g.getInitializer());
    else { std::string n = g.getName().str(); o.ro = false; for (auto& b : o.b) b = c8[0]; if (n == "stderr") storeBytes(&o, 0, mkConst(FILE_BASE + 1, 64), 8); else if (n == "stdout") storeBytes(&o, 0, mkConst(FILE_BASE + 2, 64), 8); else if (n == "__libc_single_threaded") o.b[0] = c8[1]; } }
  Function* hf = nullptr; for (auto& f : *M) if (!f.isDeclaration() && f.getName() == O.harness) hf = &f;
  if (!hf) { fprintf(stderr, "no harness %s\n", O.harness.c_str()); return 3; }
  SP s0(new State()); s0->next = HEAP_BASE;
  // static constructors
  if (auto* ct = M->getGlobalVariable("llvm.global_ctors")) if (ct->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(ct->getInitializer())) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* f = dyn_cast<Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts()); if (!f || f->isDeclaration()) continue; pushFrame(*s0, f, {}, nullptr); while (!s0->done) step(*s0); if (s0->endWhy != "ok") { fprintf(stderr, "ctor failed: %s\n", s0->endWhy.c_str()); } s0->done = false; s0->st.clear(); }
  }
  for (auto& p : s0->mem) if (p.second->kind == OK_HEAP) p.second->kind = OK_GLOBAL;
  pushFrame(*s0, hf, {}, nullptr); work.push_back(std::move(s0));
  double t0 = now(); g_hard = t0 + O.timeLimit + 25; std::thread(watchdog).detach(); runLoop();
  g_deadline = 0; g_hard = 0; writeResult(now() - t0);
  if (O.verbose) fprintf(stderr, "%s: paths=%llu instrs=%llu queries=%llu hits=%llu solver=%.2fs wall=%.2fs dropped=%llu fails=%zu\n", O.harness.c_str(), (unsigned long long)ST.paths, (unsigned long long)ST.instrs, (unsigned long long)ST.queries, (unsigned long long)ST.cacheHits, ST.solverS, now() - t0, (unsigned long long)ST.dropped, g_failures.size());
  fflush(nullptr); _exit(0);
}
