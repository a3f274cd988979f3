// calls: intrinsics, library stubs, harness API, bit-reader interception
typedef std::function<bool(State&, CallBase*, std::vector<E>&, E&)> Handler; // true: finished with value; false: state ended
static std::unordered_map<std::string, Handler> H;
static DenseMap<const Function*, const Handler*> g_hcache;
static std::map<const Function*, int> g_bb; // bit buffer method kinds
enum BBK { BB_NONE, BB_READ32, BB_READ64, BB_PEEK32, BB_PEEK64, BB_UE, BB_SE, BB_U8, BB_U16, BB_U32, BB_CONSUME, BB_CONSUMEB, BB_REMAIN, BB_OFFSET, BB_SEEK };
static int bbKind(const Function* f) {
  auto it = g_bb.find(f); if (it != g_bb.end()) return it->second;
  std::string d = demangle(f->getName().str()); int k = BB_NONE;
  auto is = [&](const char* p) { return d == std::string("h264nal::BitBuffer::") + p; };
  if (is("ReadBits(unsigned long, unsigned int&)")) k = BB_READ32; else if (is("ReadBits(unsigned long, unsigned long&)")) k = BB_READ64;
  else if (is("PeekBits(unsigned long, unsigned int&)")) k = BB_PEEK32; else if (is("PeekBits(unsigned long, unsigned long&)")) k = BB_PEEK64;
  else if (is("ReadExponentialGolomb(unsigned int&)")) k = BB_UE; else if (is("ReadSignedExponentialGolomb(int&)")) k = BB_SE;
  else if (is("ReadUInt8(unsigned char&)")) k = BB_U8; else if (is("ReadUInt16(unsigned short&)")) k = BB_U16; else if (is("ReadUInt32(unsigned int&)")) k = BB_U32;
  else if (is("ConsumeBits(unsigned long)")) k = BB_CONSUME; else if (is("ConsumeBytes(unsigned long)")) k = BB_CONSUMEB; else if (is("RemainingBitCount() const")) k = BB_REMAIN;
  else if (is("GetCurrentOffset(unsigned long*, unsigned long*)")) k = BB_OFFSET; else if (is("Seek(unsigned long, unsigned long)")) k = BB_SEEK;
  g_bb[f] = k; return k;
}
static int g_fresh = 0;
static std::map<const Function*, int> g_cut;
static E boolRet(CallBase* cb, bool v) { return mkConst(v, tyBits(cb->getType())); }
static E seMap(E u) { E odd = mkExtract(u, 0, 1); E half = mkBin(LSHR, u, mkConst(1, 32)); return mkIte(odd, mkAdd(mkConst(1, 32), half), mkSub(mkConst(0, 32), half)); }
// returns: 0 not handled, 1 handled with value, 2 ended
static int bbCall(State& s, CallBase* cb, int kind, std::vector<E>& a, E& out) {
  if (!isC(a[0])) return 0;
  uint64_t self = (uint64_t)a[0]->c; auto it = s.cur.find(self); if (it == s.cur.end()) return 0;
  Cursor c = it->second; E v; TR r = T_OK; unsigned n = 0; uint64_t nn;
  auto commit = [&]() { s.cur[self] = c; };
  switch (kind) {
    case BB_U8: n = 8; break; case BB_U16: n = 16; break; case BB_U32: n = 32; break;
    case BB_READ32: case BB_PEEK32: case BB_READ64: case BB_PEEK64: {
      if (!concretize(s, a[1], nn)) return 2;
      unsigned mx = (kind == BB_READ32 || kind == BB_PEEK32) ? 32 : 64;
      if (nn == 0 || nn > mx) { out = boolRet(cb, false); return 1; }
      n = (unsigned)nn; break;
    }
    default: break;
  }
  switch (kind) {
    case BB_READ32: case BB_PEEK32: case BB_READ64: case BB_PEEK64: case BB_U8: case BB_U16: case BB_U32: {
      r = tapeBits(s, c, n, v); if (r == T_ENDED) return 2;
      if (r == T_FAIL) { out = boolRet(cb, false); return 1; }
      unsigned w = (kind == BB_READ64 || kind == BB_PEEK64) ? 64 : kind == BB_U8 ? 8 : kind == BB_U16 ? 16 : 32;
      if (!storeMem(s, a[kind == BB_U8 || kind == BB_U16 || kind == BB_U32 ? 1 : 2], mkZx(v, w), w / 8)) return 2;
      if (kind != BB_PEEK32 && kind != BB_PEEK64) commit();
      out = boolRet(cb, true); return 1;
    }
    case BB_UE: case BB_SE:
      r = tapeUe(s, c, v); if (r == T_ENDED) return 2;
      if (r == T_FAIL) { out = boolRet(cb, false); return 1; }
      if (!storeMem(s, a[1], kind == BB_UE ? v : seMap(v), 4)) return 2;
      commit(); out = boolRet(cb, true); return 1;
    case BB_CONSUME: case BB_CONSUMEB: {
      if (!concretize(s, a[1], nn)) return 2; if (kind == BB_CONSUMEB) nn *= 8;
      if (nn > 4096) { dropState(s, "large ConsumeBits on a symbolic stream"); return 2; }
      while (nn > 0) { unsigned k = (unsigned)std::min<uint64_t>(nn, 32); r = tapeBits(s, c, k, v); if (r == T_ENDED) return 2; if (r == T_FAIL) { out = boolRet(cb, false); return 1; } nn -= k; }
      commit(); out = boolRet(cb, true); return 1;
    }
    case BB_REMAIN: r = tapeRemaining(s, c, v); if (r == T_ENDED) return 2; out = v; return 1;
    case BB_OFFSET: {
      unsigned bo; r = tapeAlign(s, c, bo); if (r == T_ENDED) return 2;
      E by = mkVar("byteoff", 64); s.model[(uint32_t)by->c] = 3; addCons(s, mkBin(ULT, by, mkConst(100000, 64)));
      if (!storeMem(s, a[1], by, 8)) return 2; if (!storeMem(s, a[2], mkConst(bo, 64), 8)) return 2;
      out = nullptr; return 1;
    }
    case BB_SEEK: dropState(s, "Seek on a symbolic stream"); return 2;
  }
  return 0;
}

static bool memCopy(State& s, E d, E src, E n, bool) {
  uint64_t len; if (!concretize(s, n, len)) return false; if (!len) return true;
  Ref rs, rd; if (!resolve(s, src, len, rs, "read (memcpy)")) return false; if (!resolve(s, d, len, rd, "write (memcpy)")) return false;
  if (!rs.conc) { uint64_t v; if (!concretize(s, rs.addr, v)) return false; rs.off = v; }
  if (!rd.conc) { uint64_t v; if (!concretize(s, rd.addr, v)) return false; rd.off = v; }
  if (rd.o->ro) { errorState(s, "write-to-constant", rd.o->name); return false; }
  std::vector<E> t(rs.o->b.begin() + rs.off, rs.o->b.begin() + rs.off + len);
  Obj* o = writable(s, rd.o); std::copy(t.begin(), t.end(), o->b.begin() + rd.off); return true;
}
static bool memSet(State& s, E d, E v, E n) {
  uint64_t len; if (!concretize(s, n, len)) return false; if (!len) return true;
  Ref rd; if (!resolve(s, d, len, rd, "write (memset)")) return false;
  if (!rd.conc) { uint64_t x; if (!concretize(s, rd.addr, x)) return false; rd.off = x; }
  Obj* o = writable(s, rd.o); E b = mkExtract(v, 0, 8); for (uint64_t i = 0; i < len; i++) o->b[rd.off + i] = b; return true;
}
static bool doFree(State& s, E p, int kindWanted) {
  uint64_t a; if (!concretize(s, p, a)) return false; if (!a) return true;
  auto it = s.mem.find(a);
  if (it == s.mem.end() || (it->second->kind != OK_HEAP && it->second->kind != OK_HEAPARR && it->second->kind != OK_GLOBAL)) { errorState(s, "bad-free", "free/delete of a pointer that is not a live heap block (double free?)"); return false; }
  (void)kindWanted; s.mem.erase(it); return true;
}
static bool doMalloc(State& s, E n, E& out, bool zero) {
  uint64_t len; if (!concretize(s, n, len)) return false;
  if (len > (1u << 20)) { errorState(s, "alloc", "allocation of " + std::to_string(len) + " bytes"); return false; }
  out = mkConst(allocObj(s, len, OK_HEAP, "heap block of " + std::to_string(len) + " bytes", zero ? c8[0] : nullptr), 64); return true;
}
static bool vkAssert(State& s, E c, const std::string& msg) {
  ST.asserts++; g_assertSeen[msg]++;
  if (isTrue(c)) return true;
  ST.assertQ++;
  Model m; int r = mayBe(s, mkNot(c), &m);
  if (r == 1) { reportFail(s, m, "assert", msg); if (!assume(s, c)) { if (!s.done) { s.done = true; s.endWhy = "error: assert"; } return false; } return true; }
  if (r < 0) { g_dropped["solver unknown on assertion: " + msg]++; ST.dropped++; }
  addCons(s, c); return true;
}
static void abortLike(State& s, const std::string& what) { errorState(s, "abort", what); }

static void initHandlers() {
  auto ptrArg = [](std::vector<E>& a, size_t i) { return a[i]; };
  (void)ptrArg;
  // ---- harness API
  H["vk_u"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { std::string n; if (!readCStr(s, a[0], n)) return false; uint64_t w; if (!concretize(s, a[1], w)) return false; E v = mkVar(n, (unsigned)w); s.syms.push_back({n, v}); out = mkZExt(v, 64); return true; };
  H["vk_bytes"] = [](State& s, CallBase*, std::vector<E>& a, E&) { uint64_t n; std::string nm; if (!concretize(s, a[1], n)) return false; if (!readCStr(s, a[2], nm)) return false; std::vector<E> b; for (uint64_t i = 0; i < n; i++) { E v = mkVar(nm + std::to_string(i), 8); b.push_back(v); if (!storeMem(s, mkAdd(mkConst(i, 64), a[0]), v, 1)) return false; } s.bufs.push_back({nm, b}); return true; };
  H["vk_assume"] = [](State& s, CallBase*, std::vector<E>& a, E&) { E c = mkNot(mkEq(mkConst(0, a[0]->w), a[0])); if (!assume(s, c)) { if (!s.done) { s.done = true; s.endWhy = "assume"; } return false; } return true; };
  H["vk_assert"] = [](State& s, CallBase*, std::vector<E>& a, E&) { std::string m; if (!readCStr(s, a[1], m)) return false; E c = mkNot(mkEq(mkConst(0, a[0]->w), a[0])); return vkAssert(s, c, m); };
  H["vk_reach"] = [](State& s, CallBase*, std::vector<E>& a, E&) { std::string m; if (!readCStr(s, a[0], m)) return false; g_reached.insert(m); return true; };
  H["vk_preempt"] = [](State& s, CallBase*, std::vector<E>& a, E&) { uint64_t f, n; if (!concretize(s, a[0], f) || !concretize(s, a[1], n)) return false; auto it = g_fnAt.find(f); s.pre = it == g_fnAt.end() ? nullptr : it->second; s.preAt = n; s.preCnt = 0; return true; };
  H["vk_skip"] = [](State& s, CallBase*, std::vector<E>&, E&) { s.done = true; s.endWhy = "skip"; return false; };
  H["vk_concretize"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t v; if (!concretize(s, a[0], v)) return false; out = mkConst(v, 64); return true; };
  H["vk_native"] = [](State&, CallBase* cb, std::vector<E>&, E& out) { out = mkConst(0, tyBits(cb->getType())); return true; };
  H["vk_heap_live"] = [](State& s, CallBase*, std::vector<E>&, E& out) { uint64_t n = 0; for (auto& p : s.mem) if (p.second->kind == OK_HEAP) n++; out = mkConst(n, 64); return true; };
  H["vk_tape_bind"] = [](State& s, CallBase*, std::vector<E>& a, E&) { uint64_t p, t; if (!concretize(s, a[0], p) || !concretize(s, a[1], t)) return false; Cursor c; c.tape = (int)t; s.cur[p] = c; s.tapes[(int)t]; return true; };
  H["vk_tape_u"] = [](State& s, CallBase*, std::vector<E>& a, E&) { uint64_t t, n; if (!concretize(s, a[0], t) || !concretize(s, a[1], n)) return false; s.tapes[(int)t].a.push_back({false, mkExtract(a[2], 0, (unsigned)n), (unsigned)n}); return true; };
  H["vk_tape_ue"] = [](State& s, CallBase*, std::vector<E>& a, E&) { uint64_t t; if (!concretize(s, a[0], t)) return false; if (!assume(s, mkNot(mkEq(a[1], mkConst(0xffffffffu, 32))))) return false; s.tapes[(int)t].a.push_back({true, a[1], 0}); return true; };
  H["vk_tape_end"] = [](State& s, CallBase*, std::vector<E>& a, E&) { uint64_t t; if (!concretize(s, a[0], t)) return false; if (!tapeClose(s, s.tapes[(int)t], 63, true)) { s.done = true; s.endWhy = "infeasible"; return false; } return true; };
  H["vkr_reset"] = [](State& s, CallBase*, std::vector<E>& a, E&) { uint64_t t; if (!concretize(s, a[0], t)) return false; Cursor c; c.tape = (int)t; s.rcur[(int)t] = c; s.tapes[(int)t]; return true; };
  auto refRead = [](bool peek) { return [peek](State& s, CallBase* cb, std::vector<E>& a, E& out) { uint64_t t, n; if (!concretize(s, a[0], t) || !concretize(s, a[1], n)) return false; Cursor c = s.rcur[(int)t]; E v; if (n == 0) { if (!storeMem(s, a[2], mkConst(0, 64), 8)) return false; out = boolRet(cb, true); return true; } refAppend(s, (int)t); TR r = tapeBits(s, c, (unsigned)n, v); if (r == T_ENDED) return false; if (r == T_FAIL) { out = boolRet(cb, false); return true; } if (!storeMem(s, a[2], mkZx(v, 64), 8)) return false; if (!peek) s.rcur[(int)t] = c; out = boolRet(cb, true); return true; }; };
  H["vkr_u"] = refRead(false); H["vkr_peek"] = refRead(true);
  H["vkr_ue"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { uint64_t t; if (!concretize(s, a[0], t)) return false; Cursor c = s.rcur[(int)t]; E v; refAppend(s, (int)t); TR r = tapeUe(s, c, v); if (r == T_ENDED) return false; if (r == T_FAIL) { out = boolRet(cb, false); return true; } if (!storeMem(s, a[1], v, 4)) return false; s.rcur[(int)t] = c; out = boolRet(cb, true); return true; };
  H["vkr_remaining"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t t; if (!concretize(s, a[0], t)) return false; Cursor c = s.rcur[(int)t]; TR r = tapeRemaining(s, c, out); return r == T_OK; };
  H["vk_same_pos"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) {
    uint64_t p, t; if (!concretize(s, a[0], p) || !concretize(s, a[1], t)) return false;
    Cursor x = s.cur[p], y = s.rcur[(int)t]; Tape& tp = s.tapes[(int)t]; curNorm(tp, x); curNorm(tp, y);
    if (x.atom == y.atom && x.off == y.off) { out = boolRet(cb, true); return true; }
    out = mkZx(mkEq(posExpr(tp, x.atom, x.off), posExpr(tp, y.atom, y.off)), tyBits(cb->getType())); return true; };
  H["vk_file"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t t; if (!concretize(s, a[0], t)) return false; s.logs[FILE_BASE + 16 + t]; out = mkConst(FILE_BASE + 16 + t, 64); return true; };
  H["vk_stdout"] = [](State&, CallBase*, std::vector<E>&, E& out) { out = mkConst(FILE_BASE + 2, 64); return true; };
  H["vk_same_output"] = [](State& s, CallBase*, std::vector<E>& a, E&) {
    uint64_t x, y; std::string msg; if (!concretize(s, a[0], x) || !concretize(s, a[1], y)) return false; if (!readCStr(s, a[2], msg)) return false;
    auto A = s.logs[x], B = s.logs[y];
    // values that became concrete under the path condition are compared as values, texts as texts
    size_t i = 0; auto same = [&] { if (A.size() != B.size()) return false; for (size_t k = 0; k < A.size(); k++) if (A[k].conv != B[k].conv || A[k].text != B[k].text) return false; return true; };
    bool structural = same();
    if (!structural) { // a value the path condition determines may be printed as a constant on one side only
      auto norm = [&](std::vector<Piece>& L) { std::vector<Piece> o; for (auto& p : L) { std::string tx = p.text; bool isText = p.conv.empty();
          if (!isText && p.conv != "%c" && strchr("dxX", p.conv.back())) { E v = rw(s, p.val); u128 c = evalExpr(v, s.model); if (mustBe(s, mkEq(mkConst(c, v->w), v))) { char buf[256]; std::string sp = p.conv; sp.insert(sp.size() - 1, "ll"); snprintf(buf, sizeof buf, sp.c_str(), (long long)(uint64_t)c); tx = buf; isText = true; } }
          if (isText) { if (!o.empty() && o.back().conv.empty()) o.back().text += tx; else o.push_back({tx, "", nullptr}); } else o.push_back(p); } L = o; };
      norm(A); norm(B); structural = same();
    }
    if (!structural) {
      if (O.verbose) { fprintf(stderr, "OUTPUT MISMATCH\n real: "); for (auto& p : A) fprintf(stderr, "%s", p.conv.empty() ? p.text.c_str() : ("<" + p.conv + ">").c_str()); fprintf(stderr, "\n ref : "); for (auto& p : B) fprintf(stderr, "%s", p.conv.empty() ? p.text.c_str() : ("<" + p.conv + ">").c_str()); fprintf(stderr, "\n"); }
      return vkAssert(s, mkFalse(), msg + " (text)");
    }
    for (i = 0; i < A.size(); i++) if (!A[i].conv.empty()) if (!vkAssert(s, mkEq(A[i].val, B[i].val), msg)) return false;
    ST.asserts++; g_assertSeen[msg]++; return true; };
  H["vk_output_empty"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { uint64_t x; if (!concretize(s, a[0], x)) return false; out = boolRet(cb, s.logs[x].empty()); return true; };
  // ---- memory / libc
  Handler mcpy = [](State& s, CallBase*, std::vector<E>& a, E& out) { out = a[0]; return memCopy(s, a[0], a[1], a[2], true); };
  H["memcpy"] = H["memmove"] = H["__memcpy_chk"] = mcpy;
  H["memset"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { out = a[0]; return memSet(s, a[0], a[1], a[2]); };
  Handler cmp = [](State& s, CallBase* cb, std::vector<E>& a, E& out) {
    uint64_t n; if (!concretize(s, a[2], n)) return false; E res = mkConst(0, 32);
    for (int64_t i = (int64_t)n - 1; i >= 0; i--) { E x, y; if (!loadMem(s, mkAdd(mkConst(i, 64), a[0]), 1, x) || !loadMem(s, mkAdd(mkConst(i, 64), a[1]), 1, y)) return false; res = mkIte(mkEq(x, y), res, mkSub(mkZExt(x, 32), mkZExt(y, 32))); }
    out = mkZx(res, tyBits(cb->getType())); return true; };
  H["memcmp"] = H["bcmp"] = cmp;
  H["memchr"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t n; if (!concretize(s, a[2], n)) return false; E r = mkConst(0, 64); for (int64_t i = (int64_t)n - 1; i >= 0; i--) { E x; E p = mkAdd(mkConst(i, 64), a[0]); if (!loadMem(s, p, 1, x)) return false; r = mkIte(mkEq(x, mkExtract(a[1], 0, 8)), p, r); } out = r; return true; };
  H["strlen"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t p; if (!concretize(s, a[0], p)) return false; uint64_t n = 0; for (;; n++) { E b; if (!loadMem(s, mkConst(p + n, 64), 1, b)) return false; if (!decide(s, mkNot(mkEq(mkConst(0, 8), b)))) break; } out = mkConst(n, 64); return true; };
  H["strcmp"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { std::string x, y; if (!readCStr(s, a[0], x) || !readCStr(s, a[1], y)) return false; out = mkConst((u128)(int64_t)x.compare(y), tyBits(cb->getType())); return true; };
  Handler nw = [](State& s, CallBase*, std::vector<E>& a, E& out) { return doMalloc(s, a[0], out, false); };
  H["malloc"] = H["_Znwm"] = H["_Znam"] = H["_ZnwmRKSt9nothrow_t"] = H["_ZnamRKSt9nothrow_t"] = nw;
  H["calloc"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { return doMalloc(s, mkBin(MUL, a[0], a[1]), out, true); };
  Handler fr = [](State& s, CallBase*, std::vector<E>& a, E&) { return doFree(s, a[0], 0); };
  H["free"] = H["_ZdlPv"] = H["_ZdlPvm"] = H["_ZdaPv"] = H["_ZdaPvm"] = fr;
  H["abort"] = [](State& s, CallBase*, std::vector<E>&, E&) { abortLike(s, "abort()"); return false; };
  H["__assert_fail"] = [](State& s, CallBase*, std::vector<E>& a, E&) { std::string m; if (readCStr(s, a[0], m)) abortLike(s, "assertion failed: " + m); return false; };
  for (auto n : {"_ZSt9terminatev", "__clang_call_terminate", "__cxa_throw", "__cxa_rethrow", "__cxa_pure_virtual", "__stack_chk_fail"}) { std::string nm = n; H[nm] = [nm](State& s, CallBase*, std::vector<E>&, E&) { abortLike(s, nm); return false; }; }
  Handler ex = [](State& s, CallBase*, std::vector<E>& a, E&) { uint64_t c; if (!concretize(s, a[0], c)) return false; s.done = true; s.exitCode = (int)c; s.endWhy = "exit"; return false; };
  H["exit"] = H["_exit"] = ex;
  Handler zero = [](State&, CallBase* cb, std::vector<E>&, E& out) { unsigned w = tyBits(cb->getType()); if (w) out = mkConst(0, w); return true; };
  for (auto n : {"__cxa_atexit", "fclose", "fflush", "__cxa_guard_abort", "perror", "ferror", "setvbuf"}) H[n] = zero;
  H["__cxa_guard_acquire"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { E b; if (!loadMem(s, a[0], 1, b)) return false; out = mkZx(mkEq(b, c8[0]), tyBits(cb->getType())); return true; };
  H["__cxa_guard_release"] = [](State& s, CallBase*, std::vector<E>& a, E&) { return storeMem(s, a[0], c8[1], 1); };
  // ---- stdio
  H["fprintf"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { std::vector<E> va(a.begin() + 2, a.end()); out = mkConst(1, tyBits(cb->getType())); return doPrintf(s, a[0], a[1], va); };
  H["printf"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { std::vector<E> va(a.begin() + 1, a.end()); out = mkConst(1, tyBits(cb->getType())); return doPrintf(s, mkConst(FILE_BASE + 2, 64), a[0], va); };
  H["fputs"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { std::string t; if (!readCStr(s, a[0], t)) return false; uint64_t f; if (!concretize(s, a[1], f)) return false; if (f != FILE_BASE + 1) logText(s, f, t); out = mkConst(1, tyBits(cb->getType())); return true; };
  H["puts"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { std::string t; if (!readCStr(s, a[0], t)) return false; logText(s, FILE_BASE + 2, t + "\n"); out = mkConst(1, tyBits(cb->getType())); return true; };
  Handler fpc = [](State& s, CallBase* cb, std::vector<E>& a, E& out) { uint64_t c, f = FILE_BASE + 2; if (!concretize(s, a[0], c)) return false; if (a.size() > 1 && !concretize(s, a[1], f)) return false; if (f != FILE_BASE + 1) logText(s, f, std::string(1, (char)c)); out = mkConst(1, tyBits(cb->getType())); return true; };
  H["fputc"] = H["putc"] = H["putchar"] = H["_IO_putc"] = fpc;
  H["fwrite"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t p, n, k, f; if (!concretize(s, a[0], p) || !concretize(s, a[1], n) || !concretize(s, a[2], k) || !concretize(s, a[3], f)) return false; std::string t; for (uint64_t i = 0; i < n * k; i++) { E b; if (!loadMem(s, mkConst(p + i, 64), 1, b)) return false; uint64_t c; if (!concretize(s, b, c)) return false; t += (char)c; } if (f != FILE_BASE + 1) logText(s, f, t); out = mkConst(k, 64); return true; };
  H["snprintf"] = [](State& s, CallBase* cb, std::vector<E>& a, E& out) {
    std::string fmt; if (!readCStr(s, a[2], fmt)) return false; std::vector<E> va(a.begin() + 3, a.end()); std::vector<Piece> ps; if (!fmtPieces(s, fmt, va, ps)) return false;
    uint64_t n; if (!concretize(s, a[1], n)) return false; std::vector<E> b; if (!piecesToBytes(s, ps, b)) return false;
    uint64_t k = n ? std::min<uint64_t>(b.size(), n - 1) : 0; for (uint64_t i = 0; i < k; i++) if (!storeMem(s, mkAdd(mkConst(i, 64), a[0]), b[i], 1)) return false; if (n) if (!storeMem(s, mkAdd(mkConst(k, 64), a[0]), c8[0], 1)) return false;
    out = mkConst(b.size(), tyBits(cb->getType())); return true; };
  // ---- math on doubles: exact on concrete arguments; symbolic arguments are enumerated
  auto math1 = [](double (*fn)(double)) { return [fn](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t x; if (!concretize(s, a[0], x)) return false; double d; memcpy(&d, &x, 8); d = fn(d); memcpy(&x, &d, 8); out = mkConst(x, 64); return true; }; };
  H["log2"] = math1(log2); H["log"] = math1(log); H["log10"] = math1(log10); H["exp2"] = math1(exp2); H["sqrt"] = math1(sqrt); H["round"] = math1(round);
  auto math1f = [](float (*fn)(float)) { return [fn](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t x; if (!concretize(s, a[0], x)) return false; float d; memcpy(&d, &x, 4); d = fn(d); uint32_t y; memcpy(&y, &d, 4); out = mkConst(y, 32); return true; }; };
  H["log2f"] = math1f(log2f); H["roundf"] = math1f(roundf); H["sqrtf"] = math1f(sqrtf);
  H["pow"] = [](State& s, CallBase*, std::vector<E>& a, E& out) { uint64_t x, y; if (!concretize(s, a[0], x) || !concretize(s, a[1], y)) return false; double d, e; memcpy(&d, &x, 8); memcpy(&e, &y, 8); d = pow(d, e); memcpy(&x, &d, 8); out = mkConst(x, 64); return true; };
  H["ceil"] = [](State&, CallBase*, std::vector<E>& a, E& out) { out = mkFp(FP_CEIL, 64, a[0]); return true; };
  H["floor"] = [](State&, CallBase*, std::vector<E>& a, E& out) { out = mkFp(FP_FLOOR, 64, a[0]); return true; };
  H["ceilf"] = [](State&, CallBase*, std::vector<E>& a, E& out) { out = mkFp(FP_CEIL, 32, a[0]); return true; };
  H["floorf"] = [](State&, CallBase*, std::vector<E>& a, E& out) { out = mkFp(FP_FLOOR, 32, a[0]); return true; };
  auto bsw = [](unsigned w) { return [w](State&, CallBase*, std::vector<E>& a, E& out) { E v = mkZx(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(v, 8 * i, 8); r = r ? mkConcat(r, b) : b; } out = r; return true; }; };
  H["htonl"] = H["ntohl"] = bsw(32); H["htons"] = H["ntohs"] = bsw(16);
}

static E ctz(E a, bool lead) { unsigned w = a->w; E r = mkConst(w, w); if (lead) { for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); } else { for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); } return r; }

static bool doIntrinsic(State& s, CallBase* cb, Intrinsic::ID id, std::vector<E>& a, E& out) {
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: return true;
    case Intrinsic::assume: return true;
    case Intrinsic::stacksave: out = mkConst(0, 64); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return memCopy(s, a[0], a[1], a[2], true);
    case Intrinsic::memset: return memSet(s, a[0], a[1], a[2]);
    case Intrinsic::expect: case Intrinsic::expect_with_probability: out = a[0]; return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence: out = a[0]; return true;
    case Intrinsic::umin: out = mkIte(mkBin(ULT, a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::umax: out = mkIte(mkBin(ULT, a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::smin: out = mkIte(mkBin(SLT, a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::smax: out = mkIte(mkBin(SLT, a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::abs: out = mkIte(mkBin(SLT, a[0], mkConst(0, a[0]->w)), mkSub(mkConst(0, a[0]->w), a[0]), a[0]); return true;
    case Intrinsic::ctlz: out = ctz(a[0], true); return true;
    case Intrinsic::cttz: out = ctz(a[0], false); return true;
    case Intrinsic::ctpop: { unsigned w = a[0]->w; E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZx(mkExtract(a[0], i, 1), w)); out = r; return true; }
    case Intrinsic::bswap: { unsigned w = a[0]->w; E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(a[0], 8 * i, 8); r = r ? mkConcat(r, b) : b; } out = r; return true; }
    case Intrinsic::bitreverse: { unsigned w = a[0]->w; E r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(a[0], i, 1); r = r ? mkConcat(r, b) : b; } out = r; return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = a[0]->w; uint64_t n; if (!concretize(s, a[2], n)) return false; n %= w; E cc = mkConst(0, 1); (void)cc;
      if (n == 0) { out = id == Intrinsic::fshl ? a[0] : a[1]; return true; }
      unsigned k = id == Intrinsic::fshl ? (unsigned)n : w - (unsigned)n; // left shift amount
      out = mkConcat(mkExtract(a[0], 0, w - k), mkExtract(a[1], w - k, k)); return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = a[0]->w; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? SUB : MUL;
      unsigned W = op == MUL ? 2 * w : w + 2; if (W > 128) { dropState(s, "wide overflow intrinsic"); return false; }
      E x = sg ? mkSExt(a[0], W) : mkZExt(a[0], W), y = sg ? mkSExt(a[1], W) : mkZExt(a[1], W); E full = mkBin(op, x, y), r = mkBin(op, a[0], a[1]);
      E back = sg ? mkSExt(r, W) : mkZExt(r, W); out = mkConcat(mkNot(mkEq(full, back)), r); return true;
    }
    case Intrinsic::usub_sat: out = mkIte(mkBin(ULT, a[0], a[1]), mkConst(0, a[0]->w), mkSub(a[0], a[1])); return true;
    case Intrinsic::uadd_sat: { E r = mkAdd(a[0], a[1]); out = mkIte(mkBin(ULT, r, a[0]), mkConst(~(u128)0, a[0]->w), r); return true; }
    case Intrinsic::objectsize: out = mkConst(~(u128)0, tyBits(cb->getType())); return true;
    case Intrinsic::is_constant: out = mkFalse(); return true;
    case Intrinsic::ubsantrap: { errorState(s, "ubsan", "undefined behaviour (check " + std::to_string((unsigned)a[0]->c) + ")"); return false; }
    case Intrinsic::trap: case Intrinsic::debugtrap: errorState(s, "trap", "trap"); return false;
    case Intrinsic::ceil: out = mkFp(FP_CEIL, a[0]->w, a[0]); return true;
    case Intrinsic::floor: out = mkFp(FP_FLOOR, a[0]->w, a[0]); return true;
    case Intrinsic::trunc: out = mkFp(FP_TRUNC, a[0]->w, a[0]); return true;
    case Intrinsic::fabs: out = mkFp(FP_ABS, a[0]->w, a[0]); return true;
    case Intrinsic::fmuladd: out = mkFp(FP_ADD, a[0]->w, mkFp(FP_MUL, a[0]->w, a[0], a[1]), a[2]); return true;
    case Intrinsic::log2: return a[0]->w == 64 ? H["log2"](s, cb, a, out) : H["log2f"](s, cb, a, out);
    case Intrinsic::log: return H["log"](s, cb, a, out);
    case Intrinsic::exp2: return H["exp2"](s, cb, a, out);
    case Intrinsic::sqrt: return a[0]->w == 64 ? H["sqrt"](s, cb, a, out) : H["sqrtf"](s, cb, a, out);
    case Intrinsic::round: return a[0]->w == 64 ? H["round"](s, cb, a, out) : H["roundf"](s, cb, a, out);
    case Intrinsic::pow: return H["pow"](s, cb, a, out);
    case Intrinsic::eh_typeid_for: out = mkConst(0, 32); return true;
    default: dropState(s, std::string("intrinsic ") + Intrinsic::getBaseName(id).str()); return false;
  }
}

static void doCall(State& s, CallBase* cb) {
  if (H.empty()) initHandlers();
  Frame& f = s.st.back();
  Function* fn = cb->getCalledFunction();
  if (cb->isInlineAsm()) { ++f.pc; return; }
  if (fn && (fn->getIntrinsicID() == Intrinsic::dbg_value || fn->getIntrinsicID() == Intrinsic::dbg_declare || fn->getIntrinsicID() == Intrinsic::dbg_label || fn->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)) { ++f.pc; return; }
  if (!fn) {
    Value* cv = cb->getCalledOperand()->stripPointerCasts(); fn = dyn_cast<Function>(cv);
    if (!fn) { if (auto* al = dyn_cast<GlobalAlias>(cv)) fn = dyn_cast<Function>(al->getAliaseeObject()); }
    if (!fn) { uint64_t a; if (!concretize(s, val(f, cv), a)) return; auto it = g_fnAt.find(a); if (it == g_fnAt.end()) { errorState(s, "bad-call", "call through an invalid function pointer"); return; } fn = it->second; }
  }
  Frame& f2 = s.st.back();
  std::vector<E> args; for (auto& u : cb->args()) { if (u->getType()->isMetadataTy()) { args.push_back(mkConst(0, 64)); continue; } if (!supportedTy(u->getType())) { dropState(s, "unsupported argument type"); return; } args.push_back(val(f2, u)); }
  // byval copies
  for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); uint64_t p = allocObj(s, sz, OK_STACK, "byval"); s.st.back().allocas.push_back(p); if (!memCopy(s, mkConst(p, 64), args[i], mkConst(sz, 64), true)) return; args[i] = mkConst(p, 64); }
  if (Intrinsic::ID id = fn->getIntrinsicID()) { E out = nullptr; if (!doIntrinsic(s, cb, id, args, out)) return; if (s.done) return; finishCall(s, cb, out); return; }
  int k = bbKind(fn);
  if (k != BB_NONE) { E out = nullptr; int r = bbCall(s, cb, k, args, out); if (r == 2) return; if (r == 1) { if (s.done) return; finishCall(s, cb, out); return; } }
  const Handler* h = nullptr; auto hi = g_hcache.find(fn);
  if (hi != g_hcache.end()) h = hi->second; else { auto it = H.find(fn->getName().str()); if (it != H.end() && (fn->isDeclaration() || fn->getName().starts_with("vk"))) h = &it->second; g_hcache[fn] = h; }
  if (h) { E out = nullptr; if (!(*h)(s, cb, args, out)) return; if (s.done) return; finishCall(s, cb, out); return; }
  if (!O.cut.empty()) { auto ci = g_cut.find(fn); if (ci == g_cut.end()) { std::string d = demangle(fn->getName().str()); d = d.substr(0, d.find('(')); int c = 0; for (auto& x : O.cut) if (d.find(x) != std::string::npos) c = 1; ci = g_cut.insert({fn, c}).first; } if (ci->second) { std::string d = demangle(fn->getName().str()); g_dropped["cut at " + d.substr(0, d.find('('))]++; s.done = true; s.endWhy = "cut"; return; } }
  if (!fn->isDeclaration()) { if (s.st.size() > 400) { errorState(s, "stack-overflow", "recursion depth"); return; } pushFrame(s, fn, args, cb); return; }
  std::string nm = fn->getName().str();
  if (nm.compare(0, 11, "_ZSt19__thr") == 0 || nm.find("__throw_") != std::string::npos) { abortLike(s, demangle(nm)); return; }
  dropState(s, "call to unmodelled function " + nm);
}
