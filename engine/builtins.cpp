// Models of compiler intrinsics, libc and the harness interface (sx_*).
#include "engine.h"

extern std::unordered_set<uint32_t> g_tlsIdx;
extern Val cmpVal(unsigned pred, unsigned w, Val a, Val b);
extern void copyMem(Exec &x, uint64_t d, uint64_t s, uint64_t n);
std::vector<std::string> g_labels;
std::unordered_map<std::string, uint32_t> g_labelIdx;
uint32_t labelId(const std::string &s) {
  auto it = g_labelIdx.find(s);
  if (it != g_labelIdx.end()) return it->second;
  g_labels.push_back(s);
  return g_labelIdx[s] = g_labels.size() - 1;
}

Val Args::v(unsigned i) const {
  Thread &t = s.threads[s.cur];
  int32_t o = ci.args[i];
  return o >= 0 ? t.regs[t.frames.back().base + o] : g_constTls[~o] ? C(tlsAddr(s, t.tid, g_consts[~o].c)) : g_consts[~o];
}
uint64_t Args::c(unsigned i) const { return x.concretize(v(i), ci.argw[i]); }
void setRet(Exec &x, const CallInfo &ci, unsigned i, Val v) {
  if (ci.dst < 0) return;
  Thread &t = x.s->threads[x.s->cur];
  if (!v.e && i < ci.retw.size() && ci.retw[i] < 64) v.c &= (1ull << ci.retw[i]) - 1;
  t.regs[t.frames.back().base + ci.dst + i] = v;
}
void setErrno(Exec &x, int e) {
  Thread &t = x.s->threads[x.s->cur];
  if (!t.errnoAddr) t.errnoAddr = allocObj(*x.s, 8, OK_GLOBAL, 0);
  storeVal(x, t.errnoAddr, C((uint32_t)e), 32);
}

#define BI(name) addB(name, [](Exec &x, State &s, const CallInfo &ci) { Args a{x, s, ci}; (void)a;
#define END });
#define RET(v) setRet(x, ci, 0, v)

static uint64_t heapAlloc(State &s, uint64_t n, uint8_t fill) { s.heapLive++; return allocObj(s, n, OK_HEAP, fill); }
static Obj *heapObj(State &s, uint64_t p, const char *what) {
  int64_t off; Obj *o = objAt(s, p, 0, false, off, what);
  if (o->kind != OK_HEAP || off != 0) pathEnd(E_MEM, std::string(what) + ": pointer is not the start of a heap allocation");
  return o;
}
static void heapFree(State &s, uint64_t p) {
  if (!p) return;
  heapObj(s, p, "free (double free or invalid pointer)");
  freeObj(s, p, OK_HEAP);
  s.heapLive--;
}

static Val memcmpVal(Exec &x, uint64_t p, uint64_t q, uint64_t n, bool eqOnly) {
  Expr *r = nullptr; // 32-bit result
  Expr *one = mkConst(1, 32), *neg = mkConst(0xffffffffu, 32), *zero = mkConst(0, 32);
  if (eqOnly) {
    Expr *all = mkConst(1, 1);
    for (uint64_t i = 0; i < n; i++) {
      Val a = loadVal(x, p + i, 8), b = loadVal(x, q + i, 8);
      if (!a.e && !b.e) { if (a.c != b.c) return C(1); continue; }
      all = mkBin(K_AND, all, mkCmp(K_EQ, toE(a, 8), toE(b, 8)));
    }
    return fromE(mkIte(all, zero, one));
  }
  r = zero;
  // find concrete prefix decision quickly
  for (uint64_t i = n; i-- > 0;) {
    Val a = loadVal(x, p + i, 8), b = loadVal(x, q + i, 8);
    if (!a.e && !b.e) { if (a.c != b.c) r = a.c < b.c ? neg : one; continue; }
    Expr *ea = toE(a, 8), *eb = toE(b, 8);
    r = mkIte(mkCmp(K_EQ, ea, eb), r, mkIte(mkCmp(K_ULT, ea, eb), neg, one));
  }
  return fromE(r);
}
static void memsetV(Exec &x, uint64_t p, Val v, uint64_t n) {
  if (!n) return;
  int64_t off; Obj *o = objAt(*x.s, p, n, true, off, "memset");
  if (!v.e) { memset(o->d + off, (int)v.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr *)); }
  else { if (!o->s) o->s = (Expr **)calloc(o->size, sizeof(Expr *)); for (uint64_t i = 0; i < n; i++) o->s[off + i] = v.e; }
}

static void ovf(Exec &x, State &s, const CallInfo &ci, Kind k, bool sgn) {
  Args a{x, s, ci};
  unsigned w = ci.argw[0];
  Val p = a.v(0), q = a.v(1);
  if (!p.e && !q.e) {
    u128 full;
    if (sgn) {
      i128 l = sextv(p.c, w), r = sextv(q.c, w);
      i128 v = k == K_ADD ? l + r : k == K_SUB ? l - r : l * r;
      full = (u128)v & maskw(w);
      setRet(x, ci, 0, C((uint64_t)full)); setRet(x, ci, 1, C(sextv(full, w) != v));
    } else {
      u128 l = p.c, r = q.c;
      if (k == K_SUB) { setRet(x, ci, 0, C((uint64_t)((l - r) & maskw(w)))); setRet(x, ci, 1, C(l < r)); return; }
      u128 v = k == K_ADD ? l + r : l * r;
      setRet(x, ci, 0, C((uint64_t)(v & maskw(w)))); setRet(x, ci, 1, C(v > maskw(w)));
    }
    return;
  }
  Expr *l = toE(p, w), *r = toE(q, w);
  Expr *res = mkBin(k, l, r), *o;
  if (!sgn) {
    if (k == K_ADD) o = mkCmp(K_ULT, res, l);
    else if (k == K_SUB) o = mkCmp(K_ULT, l, r);
    else {
      if (w > 64) pathEnd(E_UNSUP, "umul.overflow width");
      Expr *wide = mkBin(K_MUL, mkZext(l, 2 * w), mkZext(r, 2 * w));
      o = mkNot(mkCmp(K_EQ, mkExtract(wide, w, w), mkConst(0, w)));
    }
  } else {
    unsigned ww = k == K_MUL ? 2 * w : w + 1;
    if (ww > 128) pathEnd(E_UNSUP, "smul.overflow width");
    Expr *wide = mkBin(k, mkSext(l, ww), mkSext(r, ww));
    o = mkNot(mkCmp(K_EQ, wide, mkSext(res, ww)));
  }
  setRet(x, ci, 0, fromE(res)); setRet(x, ci, 1, fromE(o));
}
static void minmax(Exec &x, State &s, const CallInfo &ci, unsigned pred) {
  Args a{x, s, ci};
  unsigned w = ci.argw[0];
  Val p = a.v(0), q = a.v(1), c = cmpVal(pred, w, p, q);
  if (!c.e) setRet(x, ci, 0, c.c ? p : q);
  else setRet(x, ci, 0, fromE(mkIte(c.e, toE(p, w), toE(q, w))));
}
static void panicHit(Exec &x, State &s, const CallInfo &ci) {
  (void)ci;
  if (s.catchDepth > 0) { // run the real panic machinery
    Thread &t = s.threads[s.cur];
    Frame &fr = t.frames.back();
    const Inst &in = fr.fn->code[fr.pc];
    const CallInfo &c = fr.fn->calls[in.aux];
    Fn *f = c.fn;
    if (!f) f = g_fnByAddr[x.concretize(c.callee >= 0 ? t.regs[fr.base + c.callee] : g_consts[~c.callee], 64)];
    if (!f->hasBody) pathEnd(E_UNSUP, "no body: " + f->name);
    x.pushCall(t, f, &c);
    return;
  }
  // message, if the first argument is a string slice
  std::string m;
  Thread &t = s.threads[s.cur];
  for (size_t i = t.frames.size(); i-- > 0 && m.size() < 300;) { if (!m.empty()) m += " <- "; m += t.frames[i].fn->name; }
  if (s.expectPanic) pathEnd(E_EXPANIC, m);
  pathEnd(E_PANIC, m);
}

uint64_t fconv(unsigned op, unsigned dw, unsigned sw, uint64_t a) {
  auto D = [&](uint64_t v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } float f; uint32_t q = v; memcpy(&f, &q, 4); return (double)f; };
  auto U = [&](double d, unsigned w) { uint64_t v = 0; if (w == 64) memcpy(&v, &d, 8); else { float f = d; memcpy(&v, &f, 4); } return v; };
  uint64_t m = dw >= 64 ? ~0ull : (1ull << dw) - 1;
  switch (op) {
    case 41: return (uint64_t)D(a, sw) & m;
    case 42: return (uint64_t)(int64_t)D(a, sw) & m;
    case 43: return U((double)a, dw);
    case 44: return U((double)(int64_t)sextv(a, sw), dw);
    case 45: case 46: return U(D(a, sw), dw);
  }
  pathEnd(E_UNSUP, "float conversion");
}
static double asDouble(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromDouble(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

void inputCall(Exec &x, State &s, const CallInfo &ci, unsigned w) { (void)x; RET(freshInput(s, w)); }

void regBuiltins() {
  // ---- harness interface
  addB("sx_u8", [](Exec &x, State &s, const CallInfo &ci) { inputCall(x, s, ci, 8); });
  addB("sx_u16", [](Exec &x, State &s, const CallInfo &ci) { inputCall(x, s, ci, 16); });
  addB("sx_u32", [](Exec &x, State &s, const CallInfo &ci) { inputCall(x, s, ci, 32); });
  addB("sx_u64", [](Exec &x, State &s, const CallInfo &ci) { inputCall(x, s, ci, 64); });
  addB("sx_bool", [](Exec &x, State &s, const CallInfo &ci) {
    Val v = freshInput(s, 8);
    x.addPc(s, mkCmp(K_ULT, v.e, mkConst(2, 8)));
    RET(fromE(mkExtract(v.e, 0, 1)));
  });
  // an arbitrary value below n, made concrete by exploring every one of them
  BI("sx_choose") uint64_t n = a.c(0); RET(C(x.choice(n))); END
  // an arbitrary value below n, kept symbolic
  BI("sx_below")
    uint64_t n = a.c(0);
    Val v = freshInput(s, 64);
    x.addPc(s, mkCmp(K_ULT, v.e, mkConst(n, 64)));
    RET(v);
  END
  BI("sx_assume") Val v = a.v(0); { int b = x.flush(s); if (b >= 0) pathEnd(E_CHECK, g_labels[b]); } if (v.e) x.assume(mkExtract(v.e, 0, 1)); else if (!(v.c & 1)) pathEnd(E_ASSUME, "assume"); END
  BI("sx_check")
    Val v = a.v(0);
    s.nchecks++;
    Expr *e = v.e ? mkExtract(v.e, 0, 1) : nullptr;
    if (e && isC(e)) { v = C(e->val != 0); e = nullptr; }
    if (!e && (v.c & 1)) return;
    uint64_t p = a.c(1), n = a.c(2); std::string m;
    for (uint64_t i = 0; i < n; i++) m.push_back((char)loadVal(x, p + i, 8).c);
    if (!e) pathEnd(E_CHECK, m);
    for (auto &d : s.deferred) if (d.first == e) return;
    s.deferred.push_back({e, labelId(m)});
  END
  BI("sx_reach")
    uint64_t p = a.c(0), n = a.c(1); std::string m;
    for (uint64_t i = 0; i < n; i++) m.push_back((char)loadVal(x, p + i, 8).c);
    s.marks.push_back(labelId(m));
  END
  BI("sx_observe") s.obs.push_back(a.v(0)); END
  BI("sx_concretize") RET(C(a.c(0))); END
  BI("sx_heap_live") RET(C((uint64_t)s.heapLive)); END
  BI("sx_expect_panic") s.expectPanic = a.c(0) & 1; END
  BI("sx_catch") s.catchDepth += (int)(int64_t)(int32_t)a.c(0); END
  BI("sx_end") pathEnd(E_ASSUME, "sx_end"); END
  BI("sx_engine") RET(C(1)); END

  // ---- panics
  for (const char *n : {"_ZN4core9panicking*", "_ZN3std9panicking11begin_panic*", "_ZN3std9panicking20rust_panic_with_hookE", "_ZN3std9panicking19begin_panic_handler*",
                        "rust_begin_unwind", "_ZN5alloc7raw_vec17capacity_overflow*", "_ZN5alloc5alloc18handle_alloc_error*", "_ZN4core6option13expect_failed*", "_ZN4core6result13unwrap_failed*"})
    addB(n, panicHit);
  BI("_ZN3std9panicking12default_hookE") END
  BI("_ZN3std2io5stdio6_printE") END
  BI("_ZN3std2io5stdio7_eprintE") END
  BI("_Unwind_RaiseException") Val e = a.v(0); x.unwind(s.threads[s.cur], e); END
  BI("_Unwind_DeleteException") END

  // ---- memory
  BI("malloc") RET(C(heapAlloc(s, a.c(0), 0xA5))); END
  BI("calloc") uint64_t n = a.c(0), m = a.c(1); RET(C(heapAlloc(s, n * m, 0))); END
  BI("free") heapFree(s, a.c(0)); END
  BI("realloc")
    uint64_t p = a.c(0), n = a.c(1);
    if (!p) { RET(C(heapAlloc(s, n, 0xA5))); return; }
    uint64_t old = heapObj(s, p, "realloc")->size;
    uint64_t q = heapAlloc(s, n, 0xA5);
    copyMem(x, q, p, old < n ? old : n);
    heapFree(s, p);
    RET(C(q));
  END
  BI("posix_memalign")
    uint64_t pp = a.c(0), n = a.c(2);
    uint64_t q = heapAlloc(s, n, 0xA5);
    storeVal(x, pp, C(q), 64);
    RET(C(0));
  END
  auto cpy = [](Exec &x, State &s, const CallInfo &ci) { Args a{x, s, ci}; uint64_t d = a.c(0), q = a.c(1), n = a.c(2); copyMem(x, d, q, n); RET(C(d)); };
  addB("@llvm.memcpy", cpy); addB("@llvm.memmove", cpy); addB("@llvm.memcpy.inline", cpy); addB("memcpy", cpy); addB("memmove", cpy);
  auto set = [](Exec &x, State &s, const CallInfo &ci) { Args a{x, s, ci}; uint64_t d = a.c(0), n = a.c(2); Val v = a.v(1); if (v.e && v.e->width > 8) v = fromE(mkExtract(v.e, 0, 8)); memsetV(x, d, v, n); RET(C(d)); };
  addB("@llvm.memset", set); addB("memset", set);
  BI("bcmp") uint64_t p = a.c(0), q = a.c(1), n = a.c(2); RET(memcmpVal(x, p, q, n, true)); END
  BI("memcmp") uint64_t p = a.c(0), q = a.c(1), n = a.c(2); RET(memcmpVal(x, p, q, n, false)); END
  BI("strlen") uint64_t p = a.c(0); uint64_t n = 0; while (x.concretize(loadVal(x, p + n, 8), 8)) n++; RET(C(n)); END

  // ---- intrinsics
  addB("@llvm.uadd.with.overflow", [](Exec &x, State &s, const CallInfo &ci) { ovf(x, s, ci, K_ADD, false); });
  addB("@llvm.sadd.with.overflow", [](Exec &x, State &s, const CallInfo &ci) { ovf(x, s, ci, K_ADD, true); });
  addB("@llvm.usub.with.overflow", [](Exec &x, State &s, const CallInfo &ci) { ovf(x, s, ci, K_SUB, false); });
  addB("@llvm.ssub.with.overflow", [](Exec &x, State &s, const CallInfo &ci) { ovf(x, s, ci, K_SUB, true); });
  addB("@llvm.umul.with.overflow", [](Exec &x, State &s, const CallInfo &ci) { ovf(x, s, ci, K_MUL, false); });
  addB("@llvm.smul.with.overflow", [](Exec &x, State &s, const CallInfo &ci) { ovf(x, s, ci, K_MUL, true); });
  addB("@llvm.umin", [](Exec &x, State &s, const CallInfo &ci) { minmax(x, s, ci, 36); });
  addB("@llvm.umax", [](Exec &x, State &s, const CallInfo &ci) { minmax(x, s, ci, 34); });
  addB("@llvm.smin", [](Exec &x, State &s, const CallInfo &ci) { minmax(x, s, ci, 40); });
  addB("@llvm.smax", [](Exec &x, State &s, const CallInfo &ci) { minmax(x, s, ci, 38); });
  BI("@llvm.abs") unsigned w = a.w(0); Expr *e = toE(a.v(0), w); RET(fromE(mkIte(mkCmp(K_SLT, e, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), e), e))); END
  BI("@llvm.uadd.sat") unsigned w = a.w(0); Expr *p = toE(a.v(0), w), *q = toE(a.v(1), w), *r = mkBin(K_ADD, p, q); RET(fromE(mkIte(mkCmp(K_ULT, r, p), mkConst(maskw(w), w), r))); END
  BI("@llvm.usub.sat") unsigned w = a.w(0); Expr *p = toE(a.v(0), w), *q = toE(a.v(1), w); RET(fromE(mkIte(mkCmp(K_ULT, p, q), mkConst(0, w), mkBin(K_SUB, p, q)))); END
  BI("@llvm.sadd.sat") unsigned w = a.w(0); i128 v = sextv(a.c(0), w) + sextv(a.c(1), w); i128 mx = ((i128)1 << (w - 1)) - 1; if (v > mx) v = mx; if (v < -mx - 1) v = -mx - 1; RET(C((uint64_t)((u128)v & maskw(w)))); END
  BI("@llvm.ssub.sat") unsigned w = a.w(0); i128 v = sextv(a.c(0), w) - sextv(a.c(1), w); i128 mx = ((i128)1 << (w - 1)) - 1; if (v > mx) v = mx; if (v < -mx - 1) v = -mx - 1; RET(C((uint64_t)((u128)v & maskw(w)))); END
  BI("@llvm.ctpop") unsigned w = a.w(0); Val v = a.v(0); if (v.e) { Expr *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZext(mkExtract(v.e, i, 1), w)); RET(fromE(r)); } else RET(C(__builtin_popcountll(v.c))); END
  BI("@llvm.ctlz") unsigned w = a.w(0); Val v = a.v(0);
    if (v.e) { Expr *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(v.e, i, 1), mkConst(w - 1 - i, w), r); RET(fromE(r)); }
    else { unsigned n = 0; while (n < w && !((v.c >> (w - 1 - n)) & 1)) n++; RET(C(n)); } END
  BI("@llvm.cttz") unsigned w = a.w(0); Val v = a.v(0);
    if (v.e) { Expr *r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(v.e, i, 1), mkConst(i, w), r); RET(fromE(r)); }
    else { unsigned n = 0; while (n < w && !((v.c >> n) & 1)) n++; RET(C(n)); } END
  BI("@llvm.bswap") unsigned w = a.w(0); Expr *e = toE(a.v(0), w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } RET(fromE(r)); END
  BI("@llvm.bitreverse") unsigned w = a.w(0); Expr *e = toE(a.v(0), w), *r = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } RET(fromE(r)); END
  auto fsh = [](Exec &x, State &s, const CallInfo &ci, bool left) {
    Args a{x, s, ci}; unsigned w = a.w(0); Val v = a.v(2);
    if (v.e) pathEnd(E_UNSUP, "symbolic funnel shift");
    unsigned k = v.c % w; Expr *p = toE(a.v(0), w), *q = toE(a.v(1), w);
    if (!k) { RET(fromE(left ? p : q)); return; }
    if (left) RET(fromE(mkConcat(mkExtract(p, 0, w - k), mkExtract(q, w - k, k))));
    else RET(fromE(mkConcat(mkExtract(p, 0, k), mkExtract(q, k, w - k))));
  };
  static auto fshs = fsh;
  addB("@llvm.fshl", [](Exec &x, State &s, const CallInfo &ci) { fshs(x, s, ci, true); });
  addB("@llvm.fshr", [](Exec &x, State &s, const CallInfo &ci) { fshs(x, s, ci, false); });
  BI("@llvm.is.constant") RET(C(0)); END
  BI("@llvm.eh.typeid.for") RET(C(1)); END
  BI("@llvm.trap") if (s.expectPanic) pathEnd(E_EXPANIC, "trap"); pathEnd(E_ABORT, "trap"); END
  BI("@llvm.ubsantrap") pathEnd(E_ABORT, "trap"); END
  BI("@llvm.x86.sse2.pause") END
  BI("@llvm.ptrmask") uint64_t p = a.c(0), m = a.c(1); RET(C(p & m)); END
  BI("@llvm.load.relative") uint64_t p = a.c(0), o = a.c(1); Val v = loadVal(x, p + o, 32); RET(C(p + (int64_t)(int32_t)v.c)); END
  BI("@llvm.objectsize") RET(C(~0ull)); END
  BI("@llvm.stacksave") RET(C(0)); END
  BI("@llvm.stackrestore") END
  BI("@llvm.frameaddress") RET(C(0)); END
  BI("@llvm.returnaddress") RET(C(0)); END
  BI("@llvm.sqrt") RET(C(fromDouble(__builtin_sqrt(asDouble(a.c(0)))))); END
  BI("@llvm.floor") RET(C(fromDouble(__builtin_floor(asDouble(a.c(0)))))); END
  BI("@llvm.ceil") RET(C(fromDouble(__builtin_ceil(asDouble(a.c(0)))))); END
  BI("@llvm.trunc") RET(C(fromDouble(__builtin_trunc(asDouble(a.c(0)))))); END
  BI("@llvm.fabs") RET(C(fromDouble(__builtin_fabs(asDouble(a.c(0)))))); END
  BI("@llvm.fptoui.sat") double d = asDouble(a.c(0)); unsigned w = ci.retw[0]; double mx = w >= 64 ? 18446744073709551615.0 : (double)((1ull << w) - 1);
    uint64_t r = d != d || d <= 0 ? 0 : d >= mx ? (w >= 64 ? ~0ull : (1ull << w) - 1) : (uint64_t)d; RET(C(r)); END
  BI("@llvm.fptosi.sat") double d = asDouble(a.c(0)); unsigned w = ci.retw[0]; int64_t r = d != d ? 0 : d >= 9.2e18 ? INT64_MAX : d <= -9.2e18 ? INT64_MIN : (int64_t)d; RET(C((uint64_t)r & (uint64_t)maskw(w))); END
  BI("@llvm.threadlocal.address") RET(C(tlsAddr(s, s.threads[s.cur].tid, a.c(0)))); END

  // ---- libc odds and ends
  BI("__errno_location") Thread &t = s.threads[s.cur]; if (!t.errnoAddr) t.errnoAddr = allocObj(s, 8, OK_GLOBAL, 0); RET(C(t.errnoAddr)); END
  BI("abort") if (s.expectPanic) pathEnd(E_EXPANIC, "abort"); pathEnd(E_ABORT, "abort"); END
  BI("_ZN3std7process5abortE") if (s.expectPanic) pathEnd(E_EXPANIC, "abort"); pathEnd(E_ABORT, "abort"); END
  BI("exit") pathEnd(E_ABORT, "exit"); END
  BI("_exit") pathEnd(E_ABORT, "exit"); END
  BI("getenv") RET(C(0)); END
  BI("dlsym") RET(C(0)); END
  BI("__cxa_thread_atexit_impl") RET(C(0)); END
  BI("clock_gettime") uint64_t p = a.c(1); s.tick++; storeVal(x, p, C(1000000 + s.tick), 64); storeVal(x, p + 8, C(0), 64); RET(C(0)); END
  BI("getrandom") uint64_t p = a.c(0), n = a.c(1); memsetV(x, p, C(7), n); RET(C(n)); END
  BI("sysconf") uint64_t n = a.c(0); RET(C(n == 30 ? 4096 : n == 84 ? 8 : 0)); END
  BI("poll") RET(C(0)); END
  BI("signal") RET(C(0)); END
  BI("sigaction") RET(C(0)); END
  BI("sigaltstack") RET(C(0)); END
  BI("mmap64") RET(C(~0ull)); END
  BI("mmap") RET(C(~0ull)); END
  BI("munmap") RET(C(0)); END
  BI("mprotect") RET(C(0)); END
  BI("nanosleep") RET(C(0)); END
  BI("clock_nanosleep") RET(C(0)); END
  regThreadBuiltins();
  regFsBuiltins();
}
