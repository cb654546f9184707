// Symbolic interpreter: memory, solver, instruction semantics.
#include "engine.h"
#include <chrono>
#include <cmath>

std::vector<Val> g_consts;
static std::unordered_map<uint64_t, int32_t> constIdx;
std::vector<std::string> g_strs;
std::vector<Builtin> g_builtins;
std::vector<std::string> g_builtinNames;
static std::unordered_map<std::string, int> builtinIdx;
State *g_base = nullptr;
static std::vector<std::string> g_objNames;
std::unordered_set<uint32_t> g_tlsIdx;
uint64_t g_maxInst = 50000000;

// constants that are addresses of thread-local variables
std::vector<uint8_t> g_constTls;
static bool isTls(Val v) {
  if (v.e || !g_tlsIdx.count(addrIdx(v.c)) || addrGen(v.c)) return false;
  int64_t off = addrOff(v.c);
  return off >= 0 && off < (1 << 20);
}
// the calling thread's instance of a thread-local variable
uint64_t tlsAddr(State &s, int tid, uint64_t g) {
  if (tid == 0 || !g_tlsIdx.count(addrIdx(g))) return g;
  uint64_t base = mkAddr(addrIdx(g), 0), key = ((uint64_t)tid << 40) | addrIdx(g);
  for (auto &p : s.tls) if (p.first == key) return p.second + (g - base);
  int64_t off; Obj *o = objAt(*g_base, base, 0, false, off, "tls");
  uint64_t n = allocObj(s, o->size, OK_GLOBAL, 0);
  Obj *d = objAt(s, n, 0, true, off, "tls");
  memcpy(d->d, o->d, o->size);
  s.tls.push_back({key, n});
  return n + (g - base);
}
State *g_cur = nullptr;
int32_t engineConst(Val v) {
  while (g_constTls.size() <= g_consts.size()) g_constTls.push_back(0);
  g_constTls[g_consts.size()] = isTls(v);
  if (!v.e) {
    auto it = constIdx.find(v.c);
    if (it != constIdx.end()) return it->second;
    int32_t r = ~(int32_t)g_consts.size();
    g_consts.push_back(v);
    constIdx[v.c] = r;
    return r;
  }
  g_consts.push_back(v);
  return ~(int32_t)(g_consts.size() - 1);
}
uint64_t internStr(const std::string &s) { g_strs.push_back(s); return g_strs.size() - 1; }
const std::string &strOf(uint64_t i) { return g_strs[i]; }
void addB(const char *name, Builtin b) { builtinIdx[name] = g_builtins.size(); g_builtins.push_back(b); g_builtinNames.push_back(name); }
int findBuiltin(const std::string &n) {
  auto it = builtinIdx.find(n);
  if (it != builtinIdx.end()) return it->second;
  for (auto &p : builtinIdx)
    if (p.first.back() == '*' && n.compare(0, p.first.size() - 1, p.first, 0, p.first.size() - 1) == 0) return p.second;
  return -1;
}
void pathEnd(int kind, const std::string &msg) { throw PathEnd{kind, msg}; }

// ---------------------------------------------------------------- objects
static std::vector<Obj *> objPool;
static Obj *newObj(uint32_t size, ObjKind k, bool ro) {
  Obj *o = (Obj *)malloc(sizeof(Obj));
  o->rc = 1; o->size = size; o->cap = size; o->kind = k; o->ro = ro; o->s = nullptr; o->site = nullptr; o->align = 0;
  o->d = (uint8_t *)malloc(size ? size : 1);
  return o;
}
static void unrefObj(Obj *o) {
  if (o && --o->rc == 0) { free(o->d); free(o->s); free(o); }
}
static Obj *cloneObj(Obj *o) {
  Obj *n = newObj(o->size, o->kind, o->ro);
  memcpy(n->d, o->d, o->size);
  n->align = o->align; n->site = o->site;
  if (o->s) { n->s = (Expr **)malloc(sizeof(Expr *) * (o->size ? o->size : 1)); memcpy(n->s, o->s, sizeof(Expr *) * o->size); }
  return n;
}
static void unrefChunk(Chunk *c) {
  if (--c->rc == 0) { for (unsigned i = 0; i < CH; i++) unrefObj(c->s[i].o); free(c); }
}
static Chunk *ownChunk(State &s, uint32_t ci) {
  Chunk *c = s.chunks[ci];
  if (c->rc == 1) return c;
  Chunk *n = (Chunk *)malloc(sizeof(Chunk));
  *n = *c; n->rc = 1;
  for (unsigned i = 0; i < CH; i++) if (n->s[i].o) n->s[i].o->rc++;
  c->rc--;
  s.chunks[ci] = n;
  return n;
}
static Slot &slotW(State &s, uint32_t idx) { return ownChunk(s, idx / CH)->s[idx % CH]; }
static const Slot &slotR(const State &s, uint32_t idx) { return s.chunks[idx / CH]->s[idx % CH]; }

State::State(const State &o) : ord(o.ord), chunks(o.chunks), nslots(o.nslots), freeHead(o.freeHead), threads(o.threads), cur(o.cur), pc(o.pc), wit(o.wit), inw(o.inw),
  obs(o.obs), marks(o.marks), tls(o.tls), fs(o.fs), ninst(o.ninst), catchDepth(o.catchDepth), expectPanic(o.expectPanic), heapLive(o.heapLive), tick(o.tick),
  schedMode(o.schedMode), preempt(o.preempt), forks(o.forks), faultAt(o.faultAt), faultVar(o.faultVar), fsOps(o.fsOps), faultArmed(o.faultArmed), faultBg(o.faultBg), faultFired(o.faultFired),
  tsd(o.tsd), keyDtor(o.keyDtor), pendValid(o.pendValid), pend(o.pend), nextTid(o.nextTid), fixedIn(o.fixedIn), deferred(o.deferred), nchecks(o.nchecks), switches(o.switches) {
  for (auto *c : chunks) c->rc++;
  if (fs) fs->rc++;
}
State::~State() {
  for (auto *c : chunks) unrefChunk(c);
  if (fs && --fs->rc == 0) delete fs;
}

uint64_t allocObj(State &s, uint64_t size, ObjKind k, uint8_t fill, bool ro) {
  if (size > (1ull << 26)) pathEnd(E_LIMIT, "allocation of " + std::to_string(size) + " bytes");
  uint32_t idx;
  if (s.freeHead) {
    idx = s.freeHead;
    s.freeHead = slotR(s, idx).next;
  } else {
    idx = s.nslots++;
    if (idx / CH >= s.chunks.size()) { Chunk *c = (Chunk *)calloc(1, sizeof(Chunk)); c->rc = 1; s.chunks.push_back(c); }
    if (idx >= (1u << IDXBITS)) pathEnd(E_LIMIT, "too many objects");
  }
  Slot &sl = slotW(s, idx);
  sl.o = newObj(size, k, ro);
  memset(sl.o->d, fill, size);
  return mkAddr(idx, sl.gen);
}
void freeObj(State &s, uint64_t addr, ObjKind k) {
  uint32_t idx = addrIdx(addr);
  Slot &sl = slotW(s, idx);
  unrefObj(sl.o); sl.o = nullptr;
  sl.gen = (sl.gen + 1) & 0x1fff;
  sl.next = s.freeHead;
  s.freeHead = idx;
}
static std::string hex(uint64_t a) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)a); return b; }
static std::string objName(uint32_t idx) { return idx < g_objNames.size() ? g_objNames[idx] : ""; }
Obj *objAt(State &s, uint64_t addr, uint64_t n, bool write, int64_t &off, const char *what) {
  uint32_t idx = addrIdx(addr);
  if (idx == 0 || idx >= s.nslots || (addr >> 61)) pathEnd(E_MEM, std::string(what) + ": invalid address " + hex(addr) + " size " + std::to_string(n));
  const Slot &r = slotR(s, idx);
  if (!r.o) pathEnd(E_MEM, std::string(what) + ": use after free at " + hex(addr));
  if (r.gen != addrGen(addr)) pathEnd(E_MEM, std::string(what) + ": use after free (slot reused) at " + hex(addr));
  off = addrOff(addr);
  if (off < 0 || (uint64_t)off + n > r.o->size) pathEnd(E_MEM, std::string(what) + ": out of bounds, offset " + std::to_string(off) + " size " + std::to_string(n) + " in object of " + std::to_string(r.o->size) + " bytes " + objName(idx));
  if (!write) return r.o;
  if (r.o->ro) pathEnd(E_MEM, std::string(what) + ": write to read-only object " + objName(idx));
  Slot &w = slotW(s, idx);
  if (w.o->rc > 1) { Obj *nw = cloneObj(w.o); w.o->rc--; w.o = nw; }
  return w.o;
}

Expr *toE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
Val fromE(Expr *e) {
  if (isC(e) && e->width <= 64) return Val{(uint64_t)e->val, nullptr};
  return Val{0, e};
}
static inline uint64_t rd(const uint8_t *p, unsigned n) { uint64_t v = 0; memcpy(&v, p, n); return v; }

Val objLoad(Obj *o, int64_t off, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (o->s) {
    bool sym = false;
    for (unsigned i = 0; i < nb; i++) if (o->s[off + i]) { sym = true; break; }
    if (sym) {
      Expr *r = nullptr;
      for (unsigned i = 0; i < nb; i++) {
        Expr *b = o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8);
        r = r ? mkConcat(b, r) : b;
      }
      if (w != nb * 8) r = mkExtract(r, 0, w);
      return fromE(r);
    }
  }
  if (w > 64) {
    u128 v = 0; memcpy(&v, o->d + off, nb);
    return Val{0, mkConst(v, w)};
  }
  uint64_t v = rd(o->d + off, nb);
  if (w < 64) v &= (1ull << w) - 1;
  return Val{v, nullptr};
}
void objStore(Obj *o, int64_t off, Val v, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (v.e && !isC(v.e)) {
    if (!o->s) o->s = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
    Expr *e = w != nb * 8 ? mkZext(v.e, nb * 8) : v.e;
    for (unsigned i = 0; i < nb; i++) {
      Expr *b = mkExtract(e, i * 8, 8);
      if (isC(b)) { o->s[off + i] = nullptr; o->d[off + i] = (uint8_t)b->val; } else o->s[off + i] = b;
    }
    return;
  }
  u128 x = v.e ? v.e->val : v.c;
  memcpy(o->d + off, &x, nb);
  if (o->s) for (unsigned i = 0; i < nb; i++) o->s[off + i] = nullptr;
}
Val loadVal(Exec &x, uint64_t addr, unsigned w) {
  int64_t off; Obj *o = objAt(*x.s, addr, (w + 7) / 8, false, off, "load");
  return objLoad(o, off, w);
}
void storeVal(Exec &x, uint64_t addr, Val v, unsigned w) {
  int64_t off; Obj *o = objAt(*x.s, addr, (w + 7) / 8, true, off, "store");
  objStore(o, off, v, w);
}
void copyMem(Exec &x, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  int64_t so, dof;
  objAt(*x.s, s, n, false, so, "memcpy source");
  Obj *D = objAt(*x.s, d, n, true, dof, "memcpy destination");
  Obj *S = objAt(*x.s, s, n, false, so, "memcpy source");
  memmove(D->d + dof, S->d + so, n);
  if (S->s || D->s) {
    if (!D->s) {
      bool any = false;
      for (uint64_t i = 0; i < n; i++) if (S->s[so + i]) { any = true; break; }
      if (!any) return;
      D->s = (Expr **)calloc(D->size, sizeof(Expr *));
    }
    if (S->s) memmove(D->s + dof, S->s + so, n * sizeof(Expr *));
    else memset(D->s + dof, 0, n * sizeof(Expr *));
  }
}
std::string readCStr(Exec &x, uint64_t a, size_t max) {
  std::string r;
  for (size_t i = 0; i < max; i++) {
    Val v = loadVal(x, a + i, 8);
    uint64_t c = x.concretize(v, 8);
    if (!c) return r;
    r.push_back((char)c);
  }
  return r;
}

// globals
uint64_t newGlobalObject(uint64_t size, bool ro, const std::string &name, bool tls) {
  if (!g_base) { g_base = new State; g_base->nslots = 1; Chunk *c = (Chunk *)calloc(1, sizeof(Chunk)); c->rc = 1; g_base->chunks.push_back(c); g_base->fs = new Fs; }
  uint64_t a = allocObj(*g_base, size, OK_GLOBAL, 0, ro);
  if (g_objNames.size() <= addrIdx(a)) g_objNames.resize(addrIdx(a) + 1);
  g_objNames[addrIdx(a)] = name;
  if (tls) g_tlsIdx.insert(addrIdx(a));
  return a;
}
void initGlobalObject(uint64_t addr, const uint8_t *d, uint64_t n) { Obj *o = slotW(*g_base, addrIdx(addr)).o; memcpy(o->d, d, n); }
void externGlobal(const std::string &name, uint64_t addr) { (void)name; (void)addr; }

// ---------------------------------------------------------------- solver
void Exec::initSolver() {
  Z3_config cfg = Z3_mk_config();
  z = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  const char *mode = getenv("SYMX_SOLVER");
  if (mode && !strcmp(mode, "qfbv")) sol = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
  else sol = Z3_mk_simple_solver(z);
  Z3_solver_inc_ref(z, sol);
  Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
  Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "rlimit"), 20000000);
  Z3_solver_set_params(z, sol, p);
}
Z3_ast Exec::lower(Expr *e) {
  if (e->z3) return e->z3;
  Z3_ast r = nullptr;
  auto bv = [&](Expr *x) { return lower(x); };
  Z3_sort so = Z3_mk_bv_sort(z, e->width);
  auto b2v = [&](Z3_ast b) { return Z3_mk_ite(z, b, Z3_mk_unsigned_int64(z, 1, so), Z3_mk_unsigned_int64(z, 0, so)); };
  switch (e->kind) {
    case K_CONST:
      if (e->width <= 64) r = Z3_mk_unsigned_int64(z, (uint64_t)e->val, so);
      else r = Z3_mk_concat(z, Z3_mk_unsigned_int64(z, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(z, e->width - 64)), Z3_mk_unsigned_int64(z, (uint64_t)e->val, Z3_mk_bv_sort(z, 64)));
      break;
    case K_VAR: { char nm[32]; snprintf(nm, 32, "x%u_%u", (unsigned)e->val, e->width); r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm), so); break; }
    case K_ADD: r = Z3_mk_bvadd(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_SUB: r = Z3_mk_bvsub(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_MUL: r = Z3_mk_bvmul(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_UDIV: r = Z3_mk_bvudiv(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_SDIV: r = Z3_mk_bvsdiv(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_UREM: r = Z3_mk_bvurem(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_SREM: r = Z3_mk_bvsrem(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_AND: r = Z3_mk_bvand(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_OR: r = Z3_mk_bvor(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_XOR: r = Z3_mk_bvxor(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_SHL: r = Z3_mk_bvshl(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_LSHR: r = Z3_mk_bvlshr(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_ASHR: r = Z3_mk_bvashr(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_CONCAT: r = Z3_mk_concat(z, bv(e->k[0]), bv(e->k[1])); break;
    case K_EXTRACT: r = Z3_mk_extract(z, (unsigned)e->val + e->width - 1, (unsigned)e->val, bv(e->k[0])); break;
    case K_ZEXT: r = Z3_mk_zero_ext(z, e->width - e->k[0]->width, bv(e->k[0])); break;
    case K_SEXT: r = Z3_mk_sign_ext(z, e->width - e->k[0]->width, bv(e->k[0])); break;
    case K_EQ: r = b2v(Z3_mk_eq(z, bv(e->k[0]), bv(e->k[1]))); break;
    case K_ULT: r = b2v(Z3_mk_bvult(z, bv(e->k[0]), bv(e->k[1]))); break;
    case K_ULE: r = b2v(Z3_mk_bvule(z, bv(e->k[0]), bv(e->k[1]))); break;
    case K_SLT: r = b2v(Z3_mk_bvslt(z, bv(e->k[0]), bv(e->k[1]))); break;
    case K_SLE: r = b2v(Z3_mk_bvsle(z, bv(e->k[0]), bv(e->k[1]))); break;
    case K_ITE: r = Z3_mk_ite(z, Z3_mk_eq(z, bv(e->k[0]), Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1))), bv(e->k[1]), bv(e->k[2])); break;
  }
  Z3_inc_ref(z, r);
  e->z3 = r;
  return r;
}
static Z3_ast lowerBool(Exec &x, Expr *e) {
  Z3_context z = x.z;
  switch (e->kind) {
    case K_EQ: return Z3_mk_eq(z, x.lower(e->k[0]), x.lower(e->k[1]));
    case K_ULT: return Z3_mk_bvult(z, x.lower(e->k[0]), x.lower(e->k[1]));
    case K_ULE: return Z3_mk_bvule(z, x.lower(e->k[0]), x.lower(e->k[1]));
    case K_SLT: return Z3_mk_bvslt(z, x.lower(e->k[0]), x.lower(e->k[1]));
    case K_SLE: return Z3_mk_bvsle(z, x.lower(e->k[0]), x.lower(e->k[1]));
    case K_CONST: return e->val ? Z3_mk_true(z) : Z3_mk_false(z);
    case K_AND: { Z3_ast a[2] = {lowerBool(x, e->k[0]), lowerBool(x, e->k[1])}; return Z3_mk_and(z, 2, a); }
    case K_OR: { Z3_ast a[2] = {lowerBool(x, e->k[0]), lowerBool(x, e->k[1])}; return Z3_mk_or(z, 2, a); }
    case K_XOR: if (isC(e->k[1])) return e->k[1]->val ? Z3_mk_not(z, lowerBool(x, e->k[0])) : lowerBool(x, e->k[0]); break;
    default: break;
  }
  return Z3_mk_eq(z, x.lower(e), Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)));
}
void Exec::sync(State &st) {
  size_t n = 0;
  while (n < asserted.size() && n < st.pc.size() && asserted[n] == st.pc[n]) n++;
  if (asserted.size() > n) { Z3_solver_pop(z, sol, asserted.size() - n); asserted.resize(n); }
  for (; n < st.pc.size(); n++) {
    Z3_solver_push(z, sol);
    Z3_solver_assert(z, sol, lowerBool(*this, st.pc[n]));
    asserted.push_back(st.pc[n]);
  }
}
int Exec::check(State &st, Expr *extra, std::vector<uint64_t> *model) {
  if (isC(extra) && !extra->val) return 0;
  auto t0 = std::chrono::steady_clock::now();
  sync(st);
  Z3_solver_push(z, sol);
  Z3_solver_assert(z, sol, lowerBool(*this, extra));
  Z3_lbool r = Z3_solver_check(z, sol);
  nq++;
  if (r == Z3_L_TRUE) {
    nsat++;
    if (model) {
      Z3_model m = Z3_solver_get_model(z, sol);
      Z3_model_inc_ref(z, m);
      model->assign(st.wit.size(), 0);
      for (size_t i = 0; i < st.wit.size(); i++) {
        Expr *v = mkVar(i, st.inw[i]);
        if (!v->z3 || st.fixedIn[i]) { (*model)[i] = st.wit[i]; continue; }
        Z3_ast out;
        uint64_t val = 0;
        Z3_func_decl fd = Z3_get_app_decl(z, Z3_to_app(z, v->z3));
        Z3_ast ci = Z3_model_get_const_interp(z, m, fd);
        if (ci && Z3_get_numeral_uint64(z, ci, &val)) (*model)[i] = val;
        else (*model)[i] = 0;
        (void)out;
      }
      Z3_model_dec_ref(z, m);
    }
  } else if (r == Z3_L_FALSE) nunsat++;
  Z3_solver_pop(z, sol, 1);
  solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
u128 Exec::evalRec(Expr *e, const std::vector<uint64_t> &w) {
  if (e->kind == K_CONST) return e->val;
  if (e->kind == K_VAR) return e->val < w.size() ? (u128)w[(size_t)e->val] & maskw(e->width) : 0;
  if (e->epoch == epoch) return e->ev;
  u128 r = 0;
  switch (e->kind) {
    case K_CONCAT: r = (evalRec(e->k[0], w) << e->k[1]->width) | evalRec(e->k[1], w); break;
    case K_EXTRACT: r = (evalRec(e->k[0], w) >> (unsigned)e->val) & maskw(e->width); break;
    case K_ZEXT: r = evalRec(e->k[0], w); break;
    case K_SEXT: r = (u128)sextv(evalRec(e->k[0], w), e->k[0]->width) & maskw(e->width); break;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = foldCmp(e->kind, evalRec(e->k[0], w), evalRec(e->k[1], w), e->k[0]->width); break;
    case K_ITE: r = evalRec(e->k[0], w) ? evalRec(e->k[1], w) : evalRec(e->k[2], w); break;
    default: r = foldBin(e->kind, evalRec(e->k[0], w), evalRec(e->k[1], w), e->width);
  }
  e->epoch = epoch; e->ev = r;
  return r;
}
u128 Exec::eval(Expr *e, const std::vector<uint64_t> &w) { if (++epoch == 0) epoch = 1; return evalRec(e, w); }

bool g_split = true;
// Decide a width-1 condition on the current path; the other side is queued if feasible.
void Exec::addPc(State &st, Expr *c) { st.pc.push_back(c); st.ord.fact(c); }
Expr *Exec::reduce(State &st, Expr *c) {
  Expr *r = simplifyUnder(st, c);
  if (isC(r)) {
    nknown++;
    if (++nreduce % 512 == 0) { // cross-check the closure with the solver
      auto t0 = std::chrono::steady_clock::now();
      if (!xs) {
        xs = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
        Z3_solver_inc_ref(z, xs);
        Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "rlimit"), 3000000);
        Z3_solver_set_params(z, xs, p);
      }
      Z3_solver_reset(z, xs);
      for (auto *e : st.pc) Z3_solver_assert(z, xs, lowerBool(*this, e));
      Z3_solver_assert(z, xs, lowerBool(*this, r->val ? mkNot(c) : c));
      Z3_lbool q = Z3_solver_check(z, xs);
      nxcheck++; nq++;
      if (q == Z3_L_FALSE) nunsat++;
      if (q == Z3_L_TRUE) { fprintf(stderr, "order closure disagrees with the solver: %s\n", exprStr(c).c_str()); pathEnd(E_UNKNOWN, "order closure cross-check"); }
      if (q == Z3_L_UNDEF) nxunk++;
      solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }
  }
  return r;
}
bool Exec::decide(Expr *c) {
  if (isC(c)) return c->val != 0;
  c = reduce(*s, c);
  if (isC(c)) return c->val != 0;
  Expr *nc = mkNot(c);
  for (size_t i = s->pc.size(); i-- > 0;) { if (s->pc[i] == c) { nknown++; return true; } if (s->pc[i] == nc) { nknown++; return false; } }
  bool t = eval(c, s->wit) != 0;
  Expr *mine = t ? c : nc, *other = t ? nc : c;
  std::vector<uint64_t> model;
  int r = check(*s, other, &model);
  if (r < 0) pathEnd(E_UNKNOWN, "solver returned unknown");
  if (r == 1) {
    State *n = new State(*s);
    addPc(*n, other);
    n->wit = model;
    if (eval(other, n->wit) != 1) { fprintf(stderr, "model does not satisfy the query: %s\n", exprStr(other).c_str()); pathEnd(E_UNKNOWN, "bad model"); }
    n->forks++;
    work.push_back(n);
    nfork++;
    s->forks++;
    addPc(*s, mine);
  } else s->ord.fact(mine); // implied: not added to the path condition, it follows from it
  return t;
}
uint64_t Exec::concretize(Val v, unsigned w) {
  if (!v.e) return v.c;
  if (isC(v.e)) return (uint64_t)v.e->val;
  for (;;) {
    // ite chains with constant leaves are split on their conditions
    u128 x = eval(v.e, s->wit);
    if (decide(mkCmp(K_EQ, v.e, mkConst(x, v.e->width)))) return (uint64_t)x;
  }
}
uint64_t Exec::choice(uint64_t n) {
  if (n <= 1) return 0;
  if (s->pendValid) { s->pendValid = false; return s->pend; }
  freshInput(*s, 8);
  s->fixedIn.back() = 1;
  for (uint64_t i = 1; i < n; i++) {
    State *c = new State(*s);
    c->wit.back() = i; c->pendValid = true; c->pend = i; c->forks++;
    work.push_back(c);
    nfork++;
  }
  s->forks++;
  return 0;
}
void Exec::assume(Expr *c) {
  if (isC(c)) { if (!c->val) pathEnd(E_ASSUME, "assume"); return; }
  if (eval(c, s->wit)) {
    c = reduce(*s, c);
    if (isC(c)) return;
    for (auto *p : s->pc) if (p == c) return;
    addPc(*s, c); return;
  }
  std::vector<uint64_t> m;
  int r = check(*s, c, &m);
  if (r < 0) pathEnd(E_UNKNOWN, "solver returned unknown");
  if (r == 0) pathEnd(E_ASSUME, "assume");
  addPc(*s, c);
  s->wit = m;
}
int Exec::flush(State &st) {
  if (st.deferred.empty()) return -1;
  Expr *all = mkConst(1, 1);
  for (auto &d : st.deferred) all = mkBin(K_AND, all, d.first);
  std::vector<uint64_t> m;
  all = reduce(st, all);
  if (isC(all) && all->val) { st.deferred.clear(); return -1; }
  Expr *bad = mkNot(all);
  int bl = -1;
  for (auto &d : st.deferred) if (eval(d.first, st.wit) == 0) { bl = d.second; break; }
  if (bl >= 0) { st.deferred.clear(); return bl; }
  int r = check(st, bad, &m);
  if (r < 0) pathEnd(E_UNKNOWN, "solver returned unknown");
  if (r == 0) { st.deferred.clear(); return -1; }
  st.wit = m;
  bl = st.deferred[0].second;
  for (auto &d : st.deferred) if (eval(d.first, m) == 0) { bl = d.second; break; }
  st.deferred.clear();
  return bl;
}
Val freshInput(State &s, unsigned w) {
  Expr *e = mkVar(s.wit.size(), w);
  s.wit.push_back(0);
  s.inw.push_back(w);
  s.fixedIn.push_back(0);
  return Val{0, e};
}

// ---------------------------------------------------------------- interpreter
static inline Val &reg(Thread &t, uint32_t base, int32_t i) { return t.regs[base + i]; }
static inline Val get(Thread &t, uint32_t base, int32_t o) {
  if (o >= 0) return t.regs[base + o];
  if (__builtin_expect(t.tid != 0, 0) && g_constTls[~o]) return C(tlsAddr(*g_cur, t.tid, g_consts[~o].c));
  return g_consts[~o];
}
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx64(uint64_t v, unsigned w) { return (int64_t)(v << (64 - w)) >> (64 - w); }

void Exec::pushCall(Thread &t, Fn *f, const CallInfo *ci) {
  translateFn(f);
  f->entered = true;
  if (t.frames.size() > 3000) pathEnd(E_LIMIT, "call depth");
  uint32_t ob = t.frames.empty() ? 0 : t.frames.back().base;
  uint32_t nb = t.frames.empty() ? 0 : ob + t.frames.back().fn->nslots;
  if (t.regs.size() < nb + f->nslots) t.regs.resize(nb + f->nslots + 64);
  if (ci) {
    if (ci->args.size() < f->nparams) pathEnd(E_UNSUP, "argument count mismatch calling " + f->name);
    for (unsigned i = 0; i < f->nparams; i++) t.regs[nb + i] = get(t, ob, ci->args[i]);
    for (size_t i = 0; i < ci->bytevalSize.size(); i++)
      if (ci->bytevalSize[i] >= 0) {
        uint64_t a = allocObj(*s, ci->bytevalSize[i], OK_STACK, 0);
        copyMem(*this, a, t.regs[nb + ci->argStart[i]].c, ci->bytevalSize[i]);
        t.regs[nb + ci->argStart[i]] = C(a); // freed with the path
      }
  }
  t.frames.push_back(Frame{f, 0, nb, (uint32_t)t.allocas.size()});
}
static void popFrame(State &s, Thread &t) {
  Frame &fr = t.frames.back();
  while (t.allocas.size() > fr.allocaStart) {
    uint32_t idx = t.allocas.back(); t.allocas.pop_back();
    freeObj(s, (uint64_t)idx << OFFBITS, OK_STACK);
  }
  t.frames.pop_back();
}
void Exec::takeEdge(Thread &t, Fn *f, uint32_t ei) {
  Edge &e = f->edges[ei];
  uint32_t base = t.frames.back().base;
  if (!e.par) for (auto &m : e.moves) t.regs[base + m.first] = get(t, base, m.second);
  else {
    Val tmp[256]; std::vector<Val> big; Val *p = tmp;
    if (e.moves.size() > 256) { big.resize(e.moves.size()); p = big.data(); }
    for (size_t i = 0; i < e.moves.size(); i++) p[i] = get(t, base, e.moves[i].second);
    for (size_t i = 0; i < e.moves.size(); i++) t.regs[base + e.moves[i].first] = p[i];
  }
  t.frames.back().pc = e.pc;
}
void Exec::doRet(Thread &t, const Val *v, unsigned n) {
  popFrame(*s, t);
  if (t.frames.empty()) {
    if (t.startFn != ~0ull) { t.retval = n ? v[0] : C(0); }
    if (t.tid != 0 && runTsdDtor(*this, t)) return;
    t.status = 3;
    return;
  }
  Frame &fr = t.frames.back();
  const Inst &in = fr.fn->code[fr.pc];
  const CallInfo &ci = fr.fn->calls[in.aux];
  if (ci.nret && n) for (unsigned i = 0; i < ci.nret && i < n; i++) t.regs[fr.base + ci.dst + i] = v[i];
  if (in.op == O_INVOKE) takeEdge(t, fr.fn, ci.normalEdge);
  else fr.pc++;
}
void Exec::unwind(Thread &t, Val exc) {
  // frames.back() is the frame whose call raised
  while (!t.frames.empty()) {
    Frame &fr = t.frames.back();
    const Inst &in = fr.fn->code[fr.pc];
    if (in.op == O_INVOKE) {
      const CallInfo &ci = fr.fn->calls[in.aux];
      t.exc = exc;
      takeEdge(t, fr.fn, ci.unwindEdge);
      return;
    }
    popFrame(*s, t);
  }
  pathEnd(E_PANIC, "uncaught panic");
}
static Fn *fnAt(uint64_t a) { auto it = g_fnByAddr.find(a); return it == g_fnByAddr.end() ? nullptr : it->second; }

static bool traceCalls = getenv("SYMX_TRACE");
void Exec::doCall(Thread &t, const Inst &in, bool invoke) {
  Frame &fr = t.frames.back();
  CallInfo &ci = fr.fn->calls[in.aux];
  int b = ci.builtin;
  Fn *f = ci.fn;
  if (b < 0 && !f) {
    uint64_t a = concretize(get(t, fr.base, ci.callee), 64);
    f = fnAt(a);
    if (!f) pathEnd(E_MEM, "call through invalid function pointer " + hex(a));
  }
  if (b < 0) b = f->builtin;
  if (traceCalls) fprintf(stderr, "%zu:%*s%s\n", (size_t)s->cur, (int)t.frames.size(), "", b >= 0 ? g_builtinNames[b].c_str() : f->name.c_str());
  if (b >= 0) {
    size_t tid = s->cur;
    uint32_t pc = fr.pc; Fn *fn = fr.fn; size_t depth = t.frames.size();
    s->rerun = false;
    g_builtins[b](*this, *s, ci);
    if (s->rerun) return;
    if ((size_t)s->cur != tid && !s->advance) return;
    Thread &t2 = s->threads[tid];
    if (t2.frames.size() != depth || t2.frames.back().pc != pc || t2.frames.back().fn != fn) return; // control was transferred
    if (invoke) takeEdge(t2, fn, ci.normalEdge); else t2.frames.back().pc++;
    return;
  }
  if (!f->hasBody) pathEnd(E_UNSUP, "external function " + f->name);
  pushCall(t, f, &ci);
}

static double asD(uint64_t v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } float f; uint32_t x = v; memcpy(&f, &x, 4); return f; }
static uint64_t fromD(double d, unsigned w) { if (w == 64) { uint64_t v; memcpy(&v, &d, 8); return v; } float f = (float)d; uint32_t v; memcpy(&v, &f, 4); return v; }
static uint64_t fop(uint64_t op, unsigned w, uint64_t a, uint64_t b, unsigned aux) {
  // LLVM opcodes: FAdd 14, FSub 16, FMul 18, FDiv 21, FRem 24
  switch (op) {
    case 14: return fromD(asD(a, w) + asD(b, w), w);
    case 16: return fromD(asD(a, w) - asD(b, w), w);
    case 18: return fromD(asD(a, w) * asD(b, w), w);
    case 21: return fromD(asD(a, w) / asD(b, w), w);
    case 24: return fromD(fmod(asD(a, w), asD(b, w)), w);
    case 1000: return fromD(-asD(a, w), w);
  }
  if (op >= 2000 && op < 2016) {
    double x = asD(a, w), y = asD(b, w); bool un = x != x || y != y; unsigned p = op - 2000;
    bool r = ((p & 1) && !un && x == y) || ((p & 2) && !un && x > y) || ((p & 4) && !un && x < y) || ((p & 8) && un);
    return r;
  }
  pathEnd(E_UNSUP, "floating-point op " + std::to_string(op));
}

static Val binop(unsigned op, unsigned w, Val a, Val b) {
  static const Kind km[] = {K_CONST, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR};
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, m = m64(w);
    switch (op) {
      case O_ADD: return C((x + y) & m);
      case O_SUB: return C((x - y) & m);
      case O_MUL: return C((x * y) & m);
      case O_AND: return C(x & y);
      case O_OR: return C(x | y);
      case O_XOR: return C(x ^ y);
      case O_SHL: return C(y >= w ? 0 : (x << y) & m);
      case O_LSHR: return C(y >= w ? 0 : x >> y);
      default: return C((uint64_t)foldBin(km[op], x, y, w));
    }
  }
  return fromE(mkBin(km[op], toE(a, w), toE(b, w)));
}
Val cmpVal(unsigned pred, unsigned w, Val a, Val b) {
  // LLVM predicates: EQ 32 NE 33 UGT 34 UGE 35 ULT 36 ULE 37 SGT 38 SGE 39 SLT 40 SLE 41
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = sx64(x, w), sy = sx64(y, w);
    switch (pred) {
      case 32: return C(x == y); case 33: return C(x != y); case 34: return C(x > y); case 35: return C(x >= y);
      case 36: return C(x < y); case 37: return C(x <= y); case 38: return C(sx > sy); case 39: return C(sx >= sy);
      case 40: return C(sx < sy); default: return C(sx <= sy);
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (pred) {
    case 32: return fromE(mkCmp(K_EQ, x, y)); case 33: return fromE(mkNot(mkCmp(K_EQ, x, y)));
    case 34: return fromE(mkCmp(K_ULT, y, x)); case 35: return fromE(mkCmp(K_ULE, y, x));
    case 36: return fromE(mkCmp(K_ULT, x, y)); case 37: return fromE(mkCmp(K_ULE, x, y));
    case 38: return fromE(mkCmp(K_SLT, y, x)); case 39: return fromE(mkCmp(K_SLE, y, x));
    case 40: return fromE(mkCmp(K_SLT, x, y)); default: return fromE(mkCmp(K_SLE, x, y));
  }
}

void Exec::step() {
  g_cur = s;
  Thread &t = s->threads[s->cur];
  for (;;) {
    Frame &fr = t.frames.back();
    Fn *f = fr.fn;
    const Inst &in = f->code[fr.pc];
    f->covered[fr.pc] = 1;
    s->ninst++;
    const uint32_t base = fr.base;
#define A get(t, base, in.a)
#define B get(t, base, in.b)
#define D t.regs[base + in.dst]
    switch (in.op) {
      case O_MOV: D = A; fr.pc++; continue;
      case O_ADD: case O_SUB: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR:
        D = binop(in.op, in.w, A, B); fr.pc++; continue;
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
        Val a = A, b = B;
        if (b.e ? decide(mkCmp(K_EQ, b.e, mkConst(0, in.w))) : b.c == 0) pathEnd(E_ABORT, "division by zero");
        D = binop(in.op, in.w, a, b); fr.pc++; continue;
      }
      case O_ICMP: D = cmpVal(in.imm, in.w, A, B); fr.pc++; continue;
      case O_ZEXT: { Val a = A; D = a.e || in.w > 64 ? fromE(mkZext(toE(a, in.aux), in.w)) : a; fr.pc++; continue; }
      case O_SEXT: { Val a = A; D = a.e || in.w > 64 ? fromE(mkSext(toE(a, in.aux), in.w)) : C((uint64_t)sx64(a.c, in.aux) & m64(in.w)); fr.pc++; continue; }
      case O_TRUNC: { Val a = A; D = a.e ? fromE(mkExtract(a.e, 0, in.w)) : C(a.c & m64(in.w)); fr.pc++; continue; }
      case O_SELECT: {
        Val c = A;
        if (!c.e) { D = c.c ? B : get(t, base, in.c); fr.pc++; continue; }
        Val x = B, y = get(t, base, in.c);
        bool ptrish = in.w == 64 && !x.e && !y.e && x.c != y.c && (addrIdx(x.c) || addrIdx(y.c));
        if (ptrish) { bool r = decide(c.e); D = r ? x : y; fr.pc++; continue; }
        D = fromE(mkIte(c.e, toE(x, in.w), toE(y, in.w)));
        fr.pc++; continue;
      }
      case O_LOAD: {
        Val p = A;
        uint64_t a = (p.e ? concretize(p, 64) : p.c) + in.imm;
        D = loadVal(*this, a, in.w);
        fr.pc++; continue;
      }
      case O_STORE: {
        Val p = A;
        uint64_t a = (p.e ? concretize(p, 64) : p.c) + in.imm;
        storeVal(*this, a, B, in.w);
        fr.pc++; continue;
      }
      case O_GEPC: { Val a = A; D = a.e ? fromE(mkBin(K_ADD, a.e, mkConst(in.imm, 64))) : C(a.c + in.imm); fr.pc++; continue; }
      case O_GEP1: {
        Val a = A, i = B; uint64_t off = get(t, base, in.c).c;
        if (!a.e && !i.e) D = C(a.c + (uint64_t)sx64(i.c, in.w) * in.imm + off);
        else {
          Expr *ix = in.w < 64 ? mkSext(toE(i, in.w), 64) : in.w == 64 ? toE(i, 64) : mkExtract(toE(i, in.w), 0, 64);
          Expr *e = mkBin(K_ADD, mkBin(K_ADD, toE(a, 64), mkBin(K_MUL, ix, mkConst(in.imm, 64))), mkConst(off, 64));
          D = fromE(e);
        }
        fr.pc++; continue;
      }
      case O_BR: takeEdge(t, f, in.imm); continue;
      case O_CONDBR: {
        Val c = A;
        bool r = c.e ? decide(c.e) : (c.c & 1);
        takeEdge(t, f, r ? in.imm : in.aux);
        if (s->ninst > g_maxInst) pathEnd(E_LIMIT, "instruction budget exceeded");
        continue;
      }
      case O_SWITCH: {
        Val v = A; SwitchTab &st = f->switches[in.aux];
        uint32_t e = st.defEdge;
        if (!v.e) { for (auto &c : st.cases) if (c.first == v.c) { e = c.second; break; } }
        else for (auto &c : st.cases) if (decide(mkCmp(K_EQ, v.e, mkConst(c.first, in.w)))) { e = c.second; break; }
        takeEdge(t, f, e); continue;
      }
      case O_RET: {
        Val tmp[64];
        unsigned n = in.aux;
        if (n > 64) pathEnd(E_UNSUP, "large return");
        for (unsigned i = 0; i < n; i++) tmp[i] = get(t, base, n == 1 ? in.a : in.a + (int)i);
        doRet(t, tmp, n);
        if (t.status == 3) return;
        continue;
      }
      case O_CALL: case O_INVOKE: {
        uint64_t sw = s->switches;
        doCall(t, in, in.op == O_INVOKE);
        if (s->ninst > g_maxInst) pathEnd(E_LIMIT, "instruction budget exceeded");
        if (s->switches != sw) return; // thread set or current thread changed: references are stale
        continue;
      }
      case O_ALLOCA: {
        uint64_t a = allocObj(*s, in.imm, OK_STACK, 0xA5);
        t.allocas.push_back(addrIdx(a));
        D = C(a); fr.pc++; continue;
      }
      case O_ALLOCAN: {
        uint64_t n = concretize(A, 64);
        uint64_t a = allocObj(*s, in.imm * n, OK_STACK, 0xA5);
        t.allocas.push_back(addrIdx(a));
        D = C(a); fr.pc++; continue;
      }
      case O_RMW: {
        uint64_t a = concretize(A, 64);
        Val old = loadVal(*this, a, in.w), v = B, nv;
        switch (in.imm) { // Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin
          case 0: nv = v; break;
          case 1: nv = binop(O_ADD, in.w, old, v); break;
          case 2: nv = binop(O_SUB, in.w, old, v); break;
          case 3: nv = binop(O_AND, in.w, old, v); break;
          case 5: nv = binop(O_OR, in.w, old, v); break;
          case 6: nv = binop(O_XOR, in.w, old, v); break;
          default: pathEnd(E_UNSUP, "atomicrmw");
        }
        storeVal(*this, a, nv, in.w);
        D = old; fr.pc++; continue;
      }
      case O_CMPXCHG: {
        uint64_t a = concretize(A, 64);
        Val old = loadVal(*this, a, in.w);
        Val eq = cmpVal(32, in.w, old, B);
        bool r = eq.e ? decide(eq.e) : eq.c;
        if (r) storeVal(*this, a, get(t, base, in.c), in.w);
        t.regs[base + in.dst] = old; t.regs[base + in.dst + 1] = C(r);
        fr.pc++; continue;
      }
      case O_UNREACHABLE: pathEnd(E_ABORT, "reached unreachable code in " + f->name);
      case O_LANDINGPAD: t.regs[base + in.dst] = t.exc; t.regs[base + in.dst + 1] = C(in.aux ? 1 : 0); fr.pc++; continue;
      case O_RESUME: { Val e = A; popFrame(*s, t); unwind(t, e); continue; }
      case O_SPLIT: {
        Val a = A;
        for (unsigned i = 0; i < in.aux; i++) {
          if (!a.e) t.regs[base + in.dst + i] = C(i * in.w >= 64 ? 0 : (a.c >> (i * in.w)) & m64(in.w));
          else t.regs[base + in.dst + i] = fromE(mkExtract(a.e, i * in.w, in.w));
        }
        fr.pc++; continue;
      }
      case O_JOIN: {
        bool sym = in.w * in.aux > 64;
        for (unsigned i = 0; i < in.aux; i++) if (t.regs[base + in.a + i].e) sym = true;
        if (!sym) { uint64_t v = 0; for (unsigned i = 0; i < in.aux; i++) v |= t.regs[base + in.a + i].c << (i * in.w); D = C(v); }
        else { Expr *e = nullptr; for (unsigned i = 0; i < in.aux; i++) { Expr *b = toE(t.regs[base + in.a + i], in.w); e = e ? mkConcat(b, e) : b; } D = fromE(e); }
        fr.pc++; continue;
      }
      case O_EXTRACTDYN: { uint64_t i = concretize(B, 64); if (i >= in.aux) pathEnd(E_ABORT, "vector index"); D = t.regs[base + in.a + i]; fr.pc++; continue; }
      case O_INSERTDYN: { uint64_t i = concretize(B, 64); if (i >= in.aux) pathEnd(E_ABORT, "vector index"); t.regs[base + in.dst + i] = A; fr.pc++; continue; }
      case O_FOP: {
        uint64_t a = concretize(A, in.w), b = 0;
        if (in.imm < 3000 && in.imm != 1000) b = concretize(B, in.w);
        uint64_t r;
        if (in.imm >= 3000) {
          unsigned op = in.imm - 3000; // FPToUI 41? resolved by name in loader constants below
          extern uint64_t fconv(unsigned op, unsigned dw, unsigned sw, uint64_t a);
          r = fconv(op, in.w, in.aux, a);
        } else r = fop(in.imm, in.w, a, b, in.aux);
        D = C(r); fr.pc++; continue;
      }
      case O_UNSUP: pathEnd(E_UNSUP, "unsupported instruction: " + strOf(in.imm));
      default: pathEnd(E_UNSUP, "opcode");
    }
  }
}
