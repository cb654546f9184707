#include "expr.h"

static std::unordered_set<Expr *, ExprHash, ExprEq> table;
static std::vector<char *> arenas;
static size_t arenaPos = 1 << 20;
uint64_t g_nexprs = 0;

static Expr *intern(const Expr &t) {
  auto it = table.find(const_cast<Expr *>(&t));
  if (it != table.end()) return *it;
  const size_t sz = (sizeof(Expr) + 15) & ~(size_t)15;
  if (arenaPos + sz > (1 << 20)) { arenas.push_back((char *)aligned_alloc(16, 1 << 20)); arenaPos = 0; }
  Expr *e = (Expr *)(arenas.back() + arenaPos);
  arenaPos += sz;
  *e = t;
  e->id = (uint32_t)g_nexprs++;
  e->z3 = nullptr;
  e->epoch = 0;
  table.insert(e);
  return e;
}
static Expr *mk(Kind k, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u128 v = 0) {
  Expr t; memset(&t, 0, sizeof t);
  t.kind = k; t.width = w; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.val = v;
  return intern(t);
}
Expr *mkConst(u128 v, unsigned w) { return mk(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
Expr *mkVar(uint32_t ord, unsigned w) { return mk(K_VAR, w, nullptr, nullptr, nullptr, ord); }

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b == 0 ? m : (a / b) & m;
    case K_UREM: return b == 0 ? a : (a % b) & m;
    case K_SDIV: { if (b == 0) return sextv(a, w) < 0 ? 1 : m; i128 y = sextv(b, w); if (y == -1) return (0 - a) & m; return (u128)(sextv(a, w) / y) & m; }
    case K_SREM: { if (b == 0) return a; i128 y = sextv(b, w); if (y == -1) return 0; return (u128)(sextv(a, w) % y) & m; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : (a & m) >> (unsigned)b;
    case K_ASHR: { i128 x = sextv(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    default: abort();
  }
}
bool foldCmp(Kind k, u128 a, u128 b, unsigned w) {
  switch (k) {
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sextv(a, w) < sextv(b, w);
    case K_SLE: return sextv(a, w) <= sextv(b, w);
    default: abort();
  }
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  switch (a->kind) {
    case K_EXTRACT: return mkExtract(a->k[0], lo + (unsigned)a->val, w);
    case K_CONCAT: {
      unsigned lw = a->k[1]->width;
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case K_ZEXT: {
      unsigned sw = a->k[0]->width;
      if (lo + w <= sw) return mkExtract(a->k[0], lo, w);
      if (lo >= sw) return mkConst(0, w);
      return mkZext(mkExtract(a->k[0], lo, sw - lo), w);
    }
    case K_SEXT: {
      unsigned sw = a->k[0]->width;
      if (lo + w <= sw) return mkExtract(a->k[0], lo, w);
      if (lo == 0 && w > sw) return mkSext(a->k[0], w);
      break;
    }
    case K_AND: case K_OR: case K_XOR:
      return mkBin(a->kind, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case K_ADD: case K_SUB: case K_MUL:
      if (lo == 0) return mkBin(a->kind, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    case K_ITE:
      if (isC(a->k[1]) || isC(a->k[2]) || lo == 0 || true)
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    case K_SHL:
      if (isC(a->k[1])) {
        unsigned s = (unsigned)a->k[1]->val;
        if (lo >= s) return mkExtract(a->k[0], lo - s, w);
        if (lo + w <= s) return mkConst(0, w);
      }
      break;
    default: break;
  }
  return mk(K_EXTRACT, w, a, nullptr, nullptr, lo);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->width + lo->width;
  if (w > 128) abort();
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->k[0] == lo->k[0] && (unsigned)hi->val == (unsigned)lo->val + lo->width)
    return mkExtract(hi->k[0], (unsigned)lo->val, w);
  // lo is the whole low part of something whose extract is hi
  if (hi->kind == K_EXTRACT && lo->kind == K_CONCAT && lo->k[0]->kind == K_EXTRACT && lo->k[0]->k[0] == hi->k[0] && (unsigned)hi->val == (unsigned)lo->k[0]->val + lo->k[0]->width)
    return mkConcat(mkExtract(hi->k[0], (unsigned)lo->k[0]->val, hi->width + lo->k[0]->width), lo->k[1]);
  if (isC(hi) && lo->kind == K_CONCAT && isC(lo->k[0]))
    return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  if (hi->kind == K_ITE && lo->kind == K_ITE && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->kind == K_ITE && isC(lo)) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  return mk(K_CONCAT, w, hi, lo);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return mkConst(a->val, w);
  if (a->kind == K_ZEXT) return mkZext(a->k[0], w);
  if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return mk(K_ZEXT, w, a);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return mkConst((u128)sextv(a->val, a->width), w);
  if (a->kind == K_ZEXT) return mkZext(a->k[0], w);
  if (a->kind == K_SEXT) return mkSext(a->k[0], w);
  if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return mk(K_SEXT, w, a);
}
Expr *mkNot(Expr *a) {
  if (isC(a)) return mkConst(!a->val, 1);
  if (a->kind == K_XOR && isC(a->k[1]) && a->width == 1) return a->k[1]->val ? a->k[0] : mkNot(a->k[0]);
  if (a->kind == K_ULT) return mkCmp(K_ULE, a->k[1], a->k[0]);
  if (a->kind == K_ULE) return mkCmp(K_ULT, a->k[1], a->k[0]);
  if (a->kind == K_SLT) return mkCmp(K_SLE, a->k[1], a->k[0]);
  if (a->kind == K_SLE) return mkCmp(K_SLT, a->k[1], a->k[0]);
  return mk(K_XOR, 1, a, mkConst(1, 1));
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (a->width == 1) {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isC(a)) return a->val ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (isC(b)) return b->val ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
  }
  if (c->kind == K_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a); // not
  if (b->kind == K_ITE && b->k[0] == c) b = b->k[2];
  if (a->kind == K_ITE && a->k[0] == c) a = a->k[1];
  if (a == b) return a;
  return mk(K_ITE, a->width, c, a, b);
}
static bool isNotOf(Expr *a, Expr *b) { return mkNot(a) == b; }

Expr *mkBin(Kind k, Expr *a, Expr *b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch kind %d: %u %u\n", k, a->width, b->width); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->val, b->val, w), w);
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  u128 m = maskw(w);
  // push operations with a constant into ite-of-constants (orderings, flags, small tables)
  if (a->kind == K_ITE && isC(b) && isC(a->k[1]) && isC(a->k[2]))
    return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
  if (b->kind == K_ITE && isC(a) && isC(b->k[1]) && isC(b->k[2]))
    return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
  switch (k) {
    case K_ADD:
      if (w == 1) return mkBin(K_XOR, a, b);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (a->kind == K_ADD && isC(a->k[1])) return mkBin(K_ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
      }
      break;
    case K_SUB:
      if (w == 1) return mkBin(K_XOR, a, b);
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(K_ADD, a, mkConst(0 - b->val, w));
      break;
    case K_MUL:
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(K_SHL, a, mkConst(s, w)); }
      }
      break;
    case K_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == m) return a;
        // low mask
        if (((b->val + 1) & b->val) == 0) { unsigned s = 0; while ((b->val >> s) & 1) s++; return mkZext(mkExtract(a, 0, s), w); }
        if (a->kind == K_AND && isC(a->k[1])) return mkBin(K_AND, a->k[0], mkConst(a->k[1]->val & b->val, w));
        if (a->kind == K_ZEXT) { unsigned sw = a->k[0]->width; return mkZext(mkBin(K_AND, a->k[0], mkConst(b->val, sw)), w); }
      }
      if (w == 1 && isNotOf(a, b)) return mkConst(0, 1);
      break;
    case K_OR:
      if (a == b) return a;
      if (isC(b)) { if (b->val == 0) return a; if (b->val == m) return b; }
      if (w == 1 && isNotOf(a, b)) return mkConst(1, 1);
      // disjoint (x << s) | zext(y)
      for (int t = 0; t < 2; t++) {
        Expr *x = t ? b : a, *y = t ? a : b;
        if (x->kind == K_SHL && isC(x->k[1]) && y->kind == K_ZEXT) {
          unsigned s = (unsigned)x->k[1]->val;
          if (s < w && y->k[0]->width <= s) return mkConcat(mkExtract(x->k[0], 0, w - s), mkZext(y->k[0], s));
        }
        if (x->kind == K_CONCAT && isC(x->k[1]) && x->k[1]->val == 0 && y->kind == K_ZEXT && y->k[0]->width <= x->k[1]->width)
          return mkConcat(x->k[0], mkZext(y->k[0], x->k[1]->width));
      }
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->kind == K_XOR && isC(a->k[1])) return mkBin(K_XOR, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
      }
      break;
    case K_SHL:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      if (isC(a) && a->val == 0) return a;
      break;
    case K_LSHR:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkZext(mkExtract(a, s, w - s), w);
      }
      if (isC(a) && a->val == 0) return a;
      break;
    case K_ASHR:
      if (isC(b)) {
        if (b->val == 0) return a;
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSext(mkExtract(a, s, w - s), w);
      }
      break;
    case K_UDIV:
      if (isC(b)) {
        if (b->val == 1) return a;
        if (b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(K_LSHR, a, mkConst(s, w)); }
      }
      break;
    case K_UREM:
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(K_AND, a, mkConst(b->val - 1, w));
      break;
    default: break;
  }
  return mk(k, w, a, b);
}

Expr *mkCmp(Kind k, Expr *a, Expr *b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "cmp width mismatch\n"); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldCmp(k, a->val, b->val, w), 1);
  if (a == b) return mkConst(k == K_EQ || k == K_ULE || k == K_SLE, 1);
  // comparisons of ite chains with constants
  if (isC(b) && a->kind == K_ITE && (isC(a->k[1]) || isC(a->k[2])))
    return mkIte(a->k[0], mkCmp(k, a->k[1], b), mkCmp(k, a->k[2], b));
  if (isC(a) && b->kind == K_ITE && (isC(b->k[1]) || isC(b->k[2])))
    return mkIte(b->k[0], mkCmp(k, a, b->k[1]), mkCmp(k, a, b->k[2]));
  if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->k[0]->width == b->k[0]->width)
    return mkCmp(k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k, a->k[0], b->k[0]);
  if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width) return mkCmp(k, a->k[0], b->k[0]);
  if (a->kind == K_ZEXT && isC(b)) {
    unsigned sw = a->k[0]->width; u128 mm = maskw(sw);
    bool neg = (b->val >> (w - 1)) & 1;
    if (k == K_EQ) { if (b->val > mm) return mkConst(0, 1); return mkCmp(K_EQ, a->k[0], mkConst(b->val, sw)); }
    if (k == K_ULT || k == K_ULE || (!neg && (k == K_SLT || k == K_SLE))) { if (b->val > mm) return mkConst(1, 1); return mkCmp(k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k, a->k[0], mkConst(b->val, sw)); }
    if (neg && (k == K_SLT || k == K_SLE)) return mkConst(0, 1);
  }
  if (b->kind == K_ZEXT && isC(a)) {
    unsigned sw = b->k[0]->width; u128 mm = maskw(sw);
    bool neg = (a->val >> (w - 1)) & 1;
    if (k == K_EQ) { if (a->val > mm) return mkConst(0, 1); return mkCmp(K_EQ, mkConst(a->val, sw), b->k[0]); }
    if (k == K_ULT || k == K_ULE || (!neg && (k == K_SLT || k == K_SLE))) { if (a->val > mm) return mkConst(0, 1); return mkCmp(k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k, mkConst(a->val, sw), b->k[0]); }
    if (neg && (k == K_SLT || k == K_SLE)) return mkConst(1, 1);
  }
  if (k == K_EQ) {
    if (isC(a)) std::swap(a, b);
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    if (w == 1 && isC(b)) return b->val ? a : mkNot(a);
    if (isC(b) && a->kind == K_ADD && isC(a->k[1])) return mkCmp(K_EQ, a->k[0], mkConst(b->val - a->k[1]->val, w));
    if (isC(b) && a->kind == K_XOR && isC(a->k[1])) return mkCmp(K_EQ, a->k[0], mkConst(b->val ^ a->k[1]->val, w));
    if (isC(b) && a->kind == K_SUB && b->val == 0) return mkCmp(K_EQ, a->k[0], a->k[1]);
    if (isC(b) && a->kind == K_XOR && b->val == 0) return mkCmp(K_EQ, a->k[0], a->k[1]);
    if (isC(b) && a->kind == K_CONCAT) {
      unsigned lw = a->k[1]->width;
      return mkBin(K_AND, mkCmp(K_EQ, a->k[0], mkConst(b->val >> lw, w - lw)), mkCmp(K_EQ, a->k[1], mkConst(b->val, lw)));
    }
    if (isC(b) && a->kind == K_SEXT) {
      unsigned sw = a->k[0]->width;
      u128 low = b->val & maskw(sw);
      if ((((u128)sextv(low, sw)) & maskw(w)) != b->val) return mkConst(0, 1);
      return mkCmp(K_EQ, a->k[0], mkConst(low, sw));
    }
  } else if (k == K_ULT) {
    if (isC(b) && b->val == 0) return mkConst(0, 1);
    if (isC(b) && b->val == 1) return mkCmp(K_EQ, a, mkConst(0, w));
    if (isC(a) && a->val == maskw(w)) return mkConst(0, 1);
    if (isC(a) && a->val == 0) return mkNot(mkCmp(K_EQ, b, a));
    if (isC(a)) return mkCmp(K_ULE, mkConst(a->val + 1, w), b);
  } else if (k == K_ULE) {
    if (isC(a) && a->val == 0) return mkConst(1, 1);
    if (isC(b) && b->val == maskw(w)) return mkConst(1, 1);
    if (isC(b) && b->val == 0) return mkCmp(K_EQ, a, b);
    if (isC(b)) return mkCmp(K_ULT, a, mkConst(b->val + 1, w));
    if (isC(a) && a->val == 1) return mkNot(mkCmp(K_EQ, b, mkConst(0, w)));
  }
  return mk(k, 1, a, b);
}

std::string exprStr(Expr *e, int d) {
  static const char *n[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "ite"};
  char buf[64];
  if (e->kind == K_CONST) { snprintf(buf, 64, "%llu:%u", (unsigned long long)e->val, e->width); return buf; }
  if (e->kind == K_VAR) { snprintf(buf, 64, "x%llu:%u", (unsigned long long)e->val, e->width); return buf; }
  if (d == 0) return "..";
  std::string s = std::string("(") + n[e->kind];
  if (e->kind == K_EXTRACT) { snprintf(buf, 64, "@%llu", (unsigned long long)e->val); s += buf; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
