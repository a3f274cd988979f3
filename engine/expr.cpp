#include "expr.h"
#include <deque>

std::vector<VarInfo> g_vars;
static std::deque<Expr> g_pool;
struct Key { Op op; uint16_t w; u128 c; E k0, k1, k2; };
static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
struct Table {
  std::vector<E> slots; size_t n = 0;
  Table() : slots(1 << 16, nullptr) {}
  static uint64_t hash(Op op, unsigned w, u128 c, E a, E b, E d) {
    uint64_t h = op * 131 + w;
    h = hmix(h, (uint64_t)c); h = hmix(h, (uint64_t)(c >> 64));
    h = hmix(h, a ? a->id + 1 : 0); h = hmix(h, b ? b->id + 1 : 0); h = hmix(h, d ? d->id + 1 : 0);
    return h ^ (h >> 29);
  }
  void grow() {
    std::vector<E> o; o.swap(slots); slots.assign(o.size() * 2, nullptr);
    for (E e : o) if (e) { size_t i = hash(e->op, e->w, e->c, e->k[0], e->k[1], e->k[2]) & (slots.size() - 1);
      while (slots[i]) i = (i + 1) & (slots.size() - 1); slots[i] = e; }
  }
};
static Table g_tab;

static const VarSet* g_empty = new VarSet();
static std::unordered_map<uint64_t, std::vector<const VarSet*>> g_vs;
static const VarSet* internVS(std::vector<uint32_t>&& v) {
  if (v.empty()) return g_empty;
  uint64_t h = 7; for (auto x : v) h = hmix(h, x);
  auto& b = g_vs[h];
  for (auto* s : b) if (s->v == v) return s;
  auto* s = new VarSet(); s->v = std::move(v); b.push_back(s); return s;
}
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  std::vector<uint32_t> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  if (r.size() == a->v.size()) return a;
  if (r.size() == b->v.size()) return b;
  return internVS(std::move(r));
}

static E raw(Op op, unsigned w, u128 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  uint64_t h = Table::hash(op, w, c, a, b, d);
  size_t m = g_tab.slots.size() - 1, i = h & m;
  while (E e = g_tab.slots[i]) {
    if (e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
    i = (i + 1) & m;
  }
  g_pool.push_back(Expr());
  Expr& x = g_pool.back();
  x.op = op; x.w = w; x.c = c; x.k[0] = a; x.k[1] = b; x.k[2] = d; x.id = (uint32_t)g_pool.size();
  x.undef = (a && a->undef) || (b && b->undef) || (d && d->undef);
  const VarSet* vs = g_empty;
  if (a) vs = unionVS(vs, a->vars);
  if (b) vs = unionVS(vs, b->vars);
  if (d) vs = unionVS(vs, d->vars);
  if (op == VAR) { vs = internVS({(uint32_t)c}); x.undef = g_vars[(size_t)c].undef; }
  x.vars = vs;
  g_tab.slots[i] = &x;
  if (++g_tab.n * 2 > g_tab.slots.size()) g_tab.grow();
  return &x;
}

E mkConst(u128 v, unsigned w) { return raw(CONST, w, v & maskw(w)); }
E mkVar(const std::string& name, unsigned w, bool undef) {
  g_vars.push_back({name, w, undef});
  return raw(VAR, w, g_vars.size() - 1);
}

static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
u128 foldFp(FpOp op, unsigned w, u128 a, unsigned aw, u128 b) {
  auto in = [&](u128 v, unsigned ww) -> double { return ww == 32 ? (double)asF(v) : asD(v); };
  auto out = [&](double d) -> u128 { return w == 32 ? fromF((float)d) : fromD(d); };
  switch (op) {
    case FP_ADD: return w == 32 ? fromF(asF(a) + asF(b)) : fromD(asD(a) + asD(b));
    case FP_SUB: return w == 32 ? fromF(asF(a) - asF(b)) : fromD(asD(a) - asD(b));
    case FP_MUL: return w == 32 ? fromF(asF(a) * asF(b)) : fromD(asD(a) * asD(b));
    case FP_DIV: return w == 32 ? fromF(asF(a) / asF(b)) : fromD(asD(a) / asD(b));
    case FP_UITOFP: return w == 32 ? fromF((float)(uint64_t)a) : fromD((double)(uint64_t)a);
    case FP_SITOFP: return w == 32 ? fromF((float)(int64_t)sext128(a, aw)) : fromD((double)(int64_t)sext128(a, aw));
    case FP_FPTOUI: { double d = in(a, aw); if (!(d > -1.0) || d >= 18446744073709551616.0) return 0; return (u128)(uint64_t)d & maskw(w); }
    case FP_FPTOSI: { double d = in(a, aw); if (!(d > -9.3e18 && d < 9.2e18)) return 0; return (u128)(int64_t)d & maskw(w); }
    case FP_FPEXT: case FP_FPTRUNC: return out(in(a, aw));
    case FP_CEIL: return w == 32 ? fromF(ceilf(asF(a))) : fromD(ceil(asD(a)));
    case FP_FLOOR: return w == 32 ? fromF(floorf(asF(a))) : fromD(floor(asD(a)));
    case FP_TRUNC: return w == 32 ? fromF(truncf(asF(a))) : fromD(trunc(asD(a)));
    case FP_NEG: return a ^ ((u128)1 << (w - 1));
    case FP_ABS: return a & (maskw(w) >> 1);
    case FP_OEQ: return in(a, aw) == in(b, aw);
    case FP_OLT: return in(a, aw) < in(b, aw);
    case FP_OLE: return in(a, aw) <= in(b, aw);
    case FP_UNO: return std::isnan(in(a, aw)) || std::isnan(in(b, aw));
  }
  return 0;
}
E mkFp(FpOp op, unsigned w, E a, E b) {
  if (isC(a) && (!b || isC(b))) return mkConst(foldFp(op, w, a->c, a->w, b ? b->c : 0), w);
  return raw(FPOP, w, op, a, b);
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok) {
  ok = true; u128 m = maskw(w); a &= m; b &= m;
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: if (!b) { return m; } return a / b;
    case UREM: if (!b) { return a; } return a % b;
    case SDIV: { s128 x = sext128(a, w), y = sext128(b, w); if (!y) return x < 0 ? 1 : m; return (u128)(x / y) & m; }
    case SREM: { s128 x = sext128(a, w), y = sext128(b, w); if (!y) return a; return (u128)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: { unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(sext128(a, w) >> s) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sext128(a, w) < sext128(b, w);
    case SLE: return sext128(a, w) <= sext128(b, w);
    default: ok = false; return 0;
  }
}

E mkNot(E a) { // bitwise not
  if (a->w == 1) {
    if (isC(a)) return mkConst(!a->c, 1);
    if (a->op == EQ && a->k[0]->w == 1 && isFalse(a->k[0])) return a->k[1];
    if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
    if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
    if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
    if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]);
    return mkEq(mkFalse(), a);
  }
  return mkBin(XOR, mkConst(~(u128)0, a->w), a);
}

// like mkExtract, but keeps slices of arithmetic intact so that adjacent slices merge again
E mkSlice(E e, unsigned off, unsigned w) {
  if (off == 0 && w == e->w) return e;
  switch (e->op) {
    case CONST: case CONCAT: case ZEXT: case SEXT: return mkExtract(e, off, w);
    case EXTRACT: return mkSlice(e->k[0], off + (unsigned)e->c, w);
    default: return raw(EXTRACT, w, off, e);
  }
}
E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, hi->w + lo->w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, hi->w + lo->w);
  // merge adjacent extracts
  auto ext = [](E e, E& src, unsigned& off) { if (e->op == EXTRACT) { src = e->k[0]; off = (unsigned)e->c; } else { src = e; off = 0; } };
  E sh, sl; unsigned oh, ol;
  ext(hi, sh, oh); ext(lo, sl, ol);
  if (sh == sl && hi->op == EXTRACT && oh == ol + lo->w) return mkSlice(sh, ol, hi->w + lo->w);
  if (lo->op == CONCAT) {
    E ml = lo->k[0];
    // concat(a, concat(b,c)) where a,b mergeable
    E m = nullptr;
    if (isC(hi) && isC(ml)) m = mkConcat(hi, ml);
    else { E s2; unsigned o2; ext(ml, s2, o2); if (s2 == sh && hi->op == EXTRACT && oh == o2 + ml->w) m = mkSlice(sh, o2, hi->w + ml->w); }
    if (m) return mkConcat(m, lo->k[1]);
  }
  if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (hi->op == ZEXT) return mkZExt(mkConcat(hi->k[0], lo), hi->w + lo->w);
  return raw(CONCAT, hi->w + lo->w, 0, hi, lo);
}

E mkExtract(E e, unsigned off, unsigned w) {
  assert(off + w <= e->w);
  if (off == 0 && w == e->w) return e;
  switch (e->op) {
    case CONST: return mkConst(e->c >> off, w);
    case EXTRACT: return mkExtract(e->k[0], off + (unsigned)e->c, w);
    case CONCAT: {
      E hi = e->k[0], lo = e->k[1];
      if (off >= lo->w) return mkExtract(hi, off - lo->w, w);
      if (off + w <= lo->w) return mkExtract(lo, off, w);
      return mkConcat(mkExtract(hi, 0, off + w - lo->w), mkExtract(lo, off, lo->w - off));
    }
    case ZEXT: {
      E x = e->k[0];
      if (off >= x->w) return mkConst(0, w);
      if (off + w <= x->w) return mkExtract(x, off, w);
      return mkZExt(mkExtract(x, off, x->w - off), w);
    }
    case SEXT: {
      E x = e->k[0];
      if (off + w <= x->w) return mkExtract(x, off, w);
      if (off == 0) return mkSExt(x, w);
      break;
    }
    case ITE:
      return mkIte(e->k[0], mkExtract(e->k[1], off, w), mkExtract(e->k[2], off, w));
    case AND: case OR: case XOR:
      return mkBin(e->op, mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
    case ADD: case SUB: case MUL:
      if (off == 0) return mkBin(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
      break;
    default: break;
  }
  return raw(EXTRACT, w, off, e);
}
E mkZExt(E e, unsigned w) {
  assert(w >= e->w);
  if (w == e->w) return e;
  if (isC(e)) return mkConst(e->c, w);
  if (e->op == ZEXT) return mkZExt(e->k[0], w);
  if (e->op == ITE && isC(e->k[1]) && isC(e->k[2])) return mkIte(e->k[0], mkZExt(e->k[1], w), mkZExt(e->k[2], w));
  return raw(ZEXT, w, 0, e);
}
E mkSExt(E e, unsigned w) {
  assert(w >= e->w);
  if (w == e->w) return e;
  if (isC(e)) return mkConst((u128)sext128(e->c, e->w), w);
  if (e->op == SEXT) return mkSExt(e->k[0], w);
  if (e->op == ZEXT) return mkZExt(e->k[0], w);
  if (e->op == ITE && isC(e->k[1]) && isC(e->k[2])) return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
  return raw(SEXT, w, 0, e);
}
E mkIte(E c, E a, E b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
  }
  if (c->op == EQ && c->k[0]->w == 1 && isFalse(c->k[0])) return mkIte(c->k[1], b, a);
  if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  return raw(ITE, a->w, 0, c, a, b);
}

// segments of an expression, low to high; null expr = zeros
static bool segs(E e, std::vector<std::pair<E, unsigned>>& out) {
  if (e->op == CONCAT) { return segs(e->k[1], out) && segs(e->k[0], out); }
  if (e->op == ZEXT) { if (!segs(e->k[0], out)) return false; out.push_back({nullptr, e->w - e->k[0]->w}); return true; }
  if (isC(e) && e->c == 0) { out.push_back({nullptr, e->w}); return true; }
  if (isC(e)) {
    // split constants into zero / nonzero runs at bit granularity
    unsigned i = 0;
    while (i < e->w) {
      bool z = !((e->c >> i) & 1); unsigned j = i;
      while (j < e->w && (!((e->c >> j) & 1)) == z) j++;
      if (z) out.push_back({nullptr, j - i}); else out.push_back({mkConst(e->c >> i, j - i), j - i});
      i = j;
    }
    return true;
  }
  out.push_back({e, e->w});
  return out.size() < 64;
}
static E orMerge(E a, E b) {
  bool cand = (a->op == CONCAT || a->op == ZEXT || isC(a)) && (b->op == CONCAT || b->op == ZEXT || isC(b));
  if (!cand) return nullptr;
  std::vector<std::pair<E, unsigned>> sa, sb;
  if (!segs(a, sa) || !segs(b, sb)) return nullptr;
  E r = nullptr; size_t i = 0, j = 0; unsigned oi = 0, oj = 0, done = 0;
  while (done < a->w) {
    unsigned n = std::min(sa[i].second - oi, sb[j].second - oj);
    E x = sa[i].first, y = sb[j].first, p;
    if (x && y) {
      E px = mkExtract(x, oi, n), py = mkExtract(y, oj, n);
      if (px == py) p = px;
      else if (isC(px) && px->c == maskw(n)) p = px;
      else if (isC(py) && py->c == maskw(n)) p = py;
      else return nullptr;
    } else if (x) p = mkExtract(x, oi, n);
    else if (y) p = mkExtract(y, oj, n);
    else p = mkConst(0, n);
    r = r ? mkConcat(p, r) : p;
    oi += n; oj += n; done += n;
    if (oi == sa[i].second) { i++; oi = 0; }
    if (oj == sb[j].second) { j++; oj = 0; }
  }
  return r;
}
// and with constant mask made of few runs
static E andMask(E x, u128 m) {
  unsigned w = x->w; E r = nullptr; unsigned i = 0; int runs = 0;
  while (i < w) {
    bool z = !((m >> i) & 1); unsigned j = i;
    while (j < w && (!((m >> j) & 1)) == z) j++;
    if (++runs > 9) return nullptr;
    E p = z ? mkConst(0, j - i) : mkExtract(x, i, j - i);
    r = r ? mkConcat(p, r) : p;
    i = j;
  }
  return r;
}
static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }

// upper bound on unsigned value from structure (cheap)
static u128 umax(E e, int d = 4) {
  switch (e->op) {
    case CONST: return e->c;
    case ZEXT: return umax(e->k[0], d);
    case ITE: if (d > 0) { u128 a = umax(e->k[1], d - 1), b = umax(e->k[2], d - 1); return a > b ? a : b; } return maskw(e->w);
    case AND: if (isC(e->k[0])) return e->k[0]->c; return maskw(e->w);
    case UREM: if (isC(e->k[1]) && e->k[1]->c) return e->k[1]->c - 1; return maskw(e->w);
    case UDIV: if (isC(e->k[1]) && e->k[1]->c && d > 0) return umax(e->k[0], d - 1) / e->k[1]->c; return maskw(e->w);
    case CONCAT: if (d > 0 && e->w <= 64) return (umax(e->k[0], d - 1) << e->k[1]->w) | maskw(e->k[1]->w); return maskw(e->w);
    case ADD: if (d > 0 && e->w <= 64) { u128 s = umax(e->k[0], d - 1) + umax(e->k[1], d - 1); return s <= maskw(e->w) ? s : maskw(e->w); } return maskw(e->w);
    case MUL: if (d > 0 && e->w <= 64) { u128 s = umax(e->k[0], d - 1) * umax(e->k[1], d - 1); return s <= maskw(e->w) ? s : maskw(e->w); } return maskw(e->w);
    default: return maskw(e->w);
  }
}

E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (isC(b)) std::swap(a, b);
  if (isC(a)) {
    if (a->w == 1 && a->c == 1) return b;
    switch (b->op) {
      case ZEXT: if (a->c > maskw(b->k[0]->w)) return mkFalse(); return mkEq(mkConst(a->c, b->k[0]->w), b->k[0]);
      case SEXT: { E x = mkConst(a->c, b->k[0]->w); if (mkSExt(x, a->w)->c != a->c) return mkFalse(); return mkEq(x, b->k[0]); }
      case ITE:
        if (isC(b->k[1]) || isC(b->k[2])) return mkIte(b->k[0], mkEq(a, b->k[1]), mkEq(a, b->k[2]));
        break;
      case ADD: if (isC(b->k[0])) return mkEq(mkBin(SUB, a, b->k[0]), b->k[1]); break;
      case SUB: if (isC(b->k[0])) return mkEq(mkBin(SUB, b->k[0], a), b->k[1]); break;
      case XOR: if (isC(b->k[0])) return mkEq(mkBin(XOR, a, b->k[0]), b->k[1]); break;
      case EQ: // (0 == eq) handled by not
        if (a->w == 1 && a->c == 0 && b->k[0]->w == 1 && isFalse(b->k[0])) return b->k[1];
        break;
      case ULT: if (a->c == 0) return mkBin(ULE, b->k[1], b->k[0]); break;
      case ULE: if (a->c == 0) return mkBin(ULT, b->k[1], b->k[0]); break;
      case SLT: if (a->c == 0) return mkBin(SLE, b->k[1], b->k[0]); break;
      case SLE: if (a->c == 0) return mkBin(SLT, b->k[1], b->k[0]); break;
      case CONCAT: {
        E hi = mkEq(mkExtract(a, b->k[1]->w, b->k[0]->w), b->k[0]);
        if (isFalse(hi)) return hi;
        E lo = mkEq(mkExtract(a, 0, b->k[1]->w), b->k[1]);
        return mkAnd(hi, lo);
      }
      default: break;
    }
  } else {
    if (a->op == ZEXT && b->op == ZEXT) {
      unsigned m = std::max(a->k[0]->w, b->k[0]->w);
      return mkEq(mkZExt(a->k[0], m), mkZExt(b->k[0], m));
    }
    if (a->op == CONCAT && b->op == CONCAT && a->k[0]->w == b->k[0]->w)
      return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    if (a->op == ADD && b->op == ADD && isC(a->k[0]) && isC(b->k[0]) && a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
    if (a->id > b->id) std::swap(a, b);
  }
  return raw(EQ, 1, 0, a, b);
}

E mkBin(Op op, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (op == EQ) return mkEq(a, b);
  if (isC(a) && isC(b)) { bool ok; u128 r = foldBin(op, a->c, b->c, w, ok); return mkConst(r, (op >= EQ && op <= SLE) ? 1 : w); }
  if (commut(op) && (isC(b) || (!isC(a) && a->id > b->id))) std::swap(a, b);
  bool ca = isC(a), cb = isC(b);
  switch (op) {
    case ADD:
      if (ca && a->c == 0) return b;
      if (ca && b->op == ADD && isC(b->k[0])) return mkBin(ADD, mkConst(a->c + b->k[0]->c, w), b->k[1]);
      if (ca && b->op == SUB && isC(b->k[0])) return mkBin(SUB, mkConst(a->c + b->k[0]->c, w), b->k[1]);
      if (w == 1) return mkBin(XOR, a, b);
      if (!ca) {
        if (a->op == ADD && isC(a->k[0])) return mkBin(ADD, a->k[0], mkBin(ADD, a->k[1], b));
        if (b->op == ADD && isC(b->k[0])) return mkBin(ADD, b->k[0], mkBin(ADD, a, b->k[1]));
        if (a->op == SUB && a->k[1] == b) return a->k[0];
        if (b->op == SUB && b->k[1] == a) return b->k[0];
      }
      break;
    case SUB:
      if (a == b) return mkConst(0, w);
      if (cb) return mkBin(ADD, mkConst((u128)0 - b->c, w), a);
      if (w == 1) return mkBin(XOR, a, b);
      if (b->op == ADD && isC(b->k[0])) return mkBin(ADD, mkConst((u128)0 - b->k[0]->c, w), mkBin(SUB, a, b->k[1]));
      if (a->op == ADD && isC(a->k[0])) return mkBin(ADD, a->k[0], mkBin(SUB, a->k[1], b));
      if (a->op == ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
      if (ca && b->op == SUB && isC(b->k[0])) return mkBin(ADD, mkConst(a->c - b->k[0]->c, w), b->k[1]);
      break;
    case MUL:
      if (ca) {
        if (a->c == 0) return a;
        if (a->c == 1) return b;
        if ((a->c & (a->c - 1)) == 0) { unsigned s = 0; while (!((a->c >> s) & 1)) s++; return mkBin(SHL, b, mkConst(s, w)); }
        if (b->op == MUL && isC(b->k[0])) return mkBin(MUL, mkConst(a->c * b->k[0]->c, w), b->k[1]);
      }
      break;
    case UDIV:
      if (cb && b->c == 1) return a;
      if (cb && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(LSHR, a, mkConst(s, w)); }
      break;
    case SDIV:
      { u128 half = maskw(w) >> 1; if (cb && b->c && b->c <= half && umax(a) <= half) return mkBin(UDIV, a, b); }
      break;
    case SREM:
      if (cb && b->c == 1) return mkConst(0, w);
      { u128 half = maskw(w) >> 1; if (cb && b->c && b->c <= half) {
        if (umax(a) <= half) return mkBin(UREM, a, b);
        if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++;
          E lo = mkExtract(a, 0, s); E neg = mkAnd(mkExtract(a, w - 1, 1), mkNot(mkEq(mkConst(0, s), lo)));
          return mkIte(neg, mkConcat(mkConst(maskw(w - s), w - s), lo), mkZExt(lo, w)); } } }
      break;
    case UREM:
      if (cb && b->c == 1) return mkConst(0, w);
      if (cb && b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, mkConst(b->c - 1, w), a);
      break;
    case AND:
      if (a == b) return a;
      if (ca) {
        if (a->c == 0) return a;
        if (a->c == maskw(w)) return b;
        if (E r = andMask(b, a->c)) return r;
      }
      if (w == 1) { if (a == mkNot(b) || b == mkNot(a)) return mkFalse(); if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b; if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a; }
      break;
    case OR:
      if (a == b) return a;
      if (ca) { if (a->c == 0) return b; if (a->c == maskw(w)) return a; }
      if (w == 1) { if (a == mkNot(b) || b == mkNot(a)) return mkTrue(); }
      else if (E r = orMerge(a, b)) return r;
      break;
    case XOR:
      if (a == b) return mkConst(0, w);
      if (ca && a->c == 0) return b;
      if (ca && w == 1) return mkNot(b);
      if (ca && b->op == XOR && isC(b->k[0])) return mkBin(XOR, mkConst(a->c ^ b->k[0]->c, w), b->k[1]);
      break;
    case SHL:
      if (cb) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      if (ca && a->c == 0) return a;
      break;
    case LSHR:
      if (cb) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkZExt(mkExtract(a, s, w - s), w); }
      if (ca && a->c == 0) return a;
      break;
    case ASHR:
      if (cb) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case ULT:
      if (a == b) return mkFalse();
      if (cb && b->c == 0) return mkFalse();
      if (cb && b->c == 1) return mkEq(mkConst(0, w), a);
      if (ca && a->c == maskw(w)) return mkFalse();
      if (ca && a->c == 0) return mkNot(mkEq(a, b));
      if (w == 1) return mkAnd(mkNot(a), b);
      if (a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); return mkBin(ULT, mkZExt(a->k[0], m), mkZExt(b->k[0], m)); }
      if (cb && a->op == ZEXT) { if (b->c > maskw(a->k[0]->w)) return mkTrue(); return mkBin(ULT, a->k[0], mkConst(b->c, a->k[0]->w)); }
      if (ca && b->op == ZEXT) { if (a->c >= maskw(b->k[0]->w)) return mkFalse(); return mkBin(ULT, mkConst(a->c, b->k[0]->w), b->k[0]); }
      if (cb && umax(a) < b->c) return mkTrue();
      if (ca && umax(b) <= a->c) return mkFalse();
      break;
    case ULE:
      if (a == b) return mkTrue();
      if (ca && a->c == 0) return mkTrue();
      if (cb && b->c == maskw(w)) return mkTrue();
      if (cb) return mkBin(ULT, a, mkConst(b->c + 1, w));
      if (ca) return mkBin(ULT, mkConst(a->c - 1, w), b);
      if (w == 1) return mkOr(mkNot(a), b);
      if (a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); return mkBin(ULE, mkZExt(a->k[0], m), mkZExt(b->k[0], m)); }
      break;
    case SLT: case SLE:
      if (a == b) return op == SLE ? mkTrue() : mkFalse();
      { // both provably non-negative -> unsigned
        u128 half = maskw(w) >> 1;
        if (umax(a) <= half && umax(b) <= half) return mkBin(op == SLT ? ULT : ULE, a, b);
      }
      if (op == SLE && cb) { if (b->c == (maskw(w) >> 1)) return mkTrue(); return mkBin(SLT, a, mkConst(b->c + 1, w)); }
      if (op == SLE && ca) { if (a->c == ((u128)1 << (w - 1))) return mkTrue(); return mkBin(SLT, mkConst(a->c - 1, w), b); }
      break;
    default: break;
  }
  return raw(op, (op >= EQ && op <= SLE) ? 1 : w, 0, a, b);
}

unsigned knownTrailingZeros(E e) {
  switch (e->op) {
    case CONST: { if (!e->c) return e->w; unsigned s = 0; while (!((e->c >> s) & 1)) s++; return s; }
    case CONCAT: { unsigned l = knownTrailingZeros(e->k[1]); return l == e->k[1]->w ? l + knownTrailingZeros(e->k[0]) : l; }
    case ZEXT: case SEXT: { unsigned l = knownTrailingZeros(e->k[0]); return l; }
    case ADD: case SUB: case OR: case XOR: return std::min(knownTrailingZeros(e->k[0]), knownTrailingZeros(e->k[1]));
    case MUL: return std::min<unsigned>(e->w, knownTrailingZeros(e->k[0]) + knownTrailingZeros(e->k[1]));
    case ITE: return std::min(knownTrailingZeros(e->k[1]), knownTrailingZeros(e->k[2]));
    default: return 0;
  }
}

static u128 evalRec(E e, const Model& m, std::unordered_map<uint32_t, u128>& memo) {
  if (e->op == CONST) return e->c;
  if (e->op == VAR) { auto it = m.find((uint32_t)e->c); return it == m.end() ? 0 : it->second & maskw(e->w); }
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  u128 r = 0;
  switch (e->op) {
    case CONCAT: r = (evalRec(e->k[0], m, memo) << e->k[1]->w) | evalRec(e->k[1], m, memo); break;
    case EXTRACT: r = (evalRec(e->k[0], m, memo) >> (unsigned)e->c) & maskw(e->w); break;
    case ZEXT: r = evalRec(e->k[0], m, memo); break;
    case SEXT: r = (u128)sext128(evalRec(e->k[0], m, memo), e->k[0]->w) & maskw(e->w); break;
    case ITE: r = evalRec(e->k[0], m, memo) ? evalRec(e->k[1], m, memo) : evalRec(e->k[2], m, memo); break;
    case FPOP: r = foldFp((FpOp)(unsigned)e->c, e->w, evalRec(e->k[0], m, memo), e->k[0]->w, e->k[1] ? evalRec(e->k[1], m, memo) : 0); break;
    default: { bool ok; r = foldBin(e->op, evalRec(e->k[0], m, memo), evalRec(e->k[1], m, memo), e->k[0]->w, ok); }
  }
  memo[e->id] = r;
  return r;
}
u128 evalExpr(E e, const Model& m) {
  if (e->op == CONST) return e->c;
  std::unordered_map<uint32_t, u128> memo;
  return evalRec(e, m, memo);
}
std::string exprStr(E e, int d) {
  static const char* n[] = {"const","var","concat","extract","zext","sext","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","fp"};
  char b[64];
  if (e->op == CONST) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->op == VAR) return g_vars[(size_t)e->c].name + "." + std::to_string((unsigned)e->c);
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == EXTRACT) { snprintf(b, 64, "[%u+%u]", (unsigned)e->c, e->w); s += b; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
