// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <cassert>
#include <cmath>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  CONST, VAR, CONCAT, EXTRACT, ZEXT, SEXT,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
  AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, FPOP
};
// sub-opcodes of FPOP, kept in `c`
enum FpOp { FP_ADD = 1, FP_SUB, FP_MUL, FP_DIV, FP_UITOFP, FP_SITOFP, FP_FPTOUI,
            FP_FPTOSI, FP_FPEXT, FP_FPTRUNC, FP_CEIL, FP_FLOOR, FP_NEG, FP_ABS,
            FP_OEQ, FP_OLT, FP_OLE, FP_UNO, FP_TRUNC };

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  Op op; uint16_t w; uint32_t id; u128 c;
  const Expr* k[3];
  const VarSet* vars;
  bool undef;  // depends on an uninitialised value
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ s) - s);
}

struct VarInfo { std::string name; unsigned w; bool undef; };
extern std::vector<VarInfo> g_vars;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool undef = false);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned off, unsigned w);
E mkSlice(E e, unsigned off, unsigned w);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkBin(Op op, E a, E b);
E mkEq(E a, E b);
E mkIte(E c, E a, E b);
E mkFp(FpOp op, unsigned w, E a, E b = nullptr);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
E mkNot(E a);
inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
inline E mkAdd(E a, E b) { return mkBin(ADD, a, b); }
inline E mkSub(E a, E b) { return mkBin(SUB, a, b); }
inline E mkZx(E e, unsigned w) { return e->w == w ? e : e->w < w ? mkZExt(e, w) : mkExtract(e, 0, w); }
inline bool isC(E e) { return e->op == CONST; }
inline bool isTrue(E e) { return e->op == CONST && e->c == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->c == 0; }
std::string exprStr(E e, int depth = 6);

typedef std::unordered_map<uint32_t, u128> Model;  // var id -> value
u128 evalExpr(E e, const Model& m);
u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok);
u128 foldFp(FpOp op, unsigned w, u128 a, unsigned aw, u128 b);
unsigned knownTrailingZeros(E e);
