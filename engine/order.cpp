// Order closure: the comparisons on a path condition, closed under transitivity, used to
// resolve implied comparisons before they reach the SMT solver (cross-checked by it).
#include "engine.h"

static const unsigned ST = 48;
enum { LE = 1, LT = 2, NE = 4 };
#define R(i, j) r[(i) * ST + (j)]

int Order::node(Expr *e, bool create) {
  for (size_t i = 0; i < n.size(); i++) if (n[i] == e) return i;
  if (!create || n.size() >= ST) return -1;
  int k = n.size();
  n.push_back(e);
  r.resize(n.size() * ST, 0);
  if (isC(e))
    for (int i = 0; i < k; i++)
      if (isC(n[i]) && n[i]->width == e->width) { if (n[i]->val < e->val) add(i, k, true); else if (n[i]->val > e->val) add(k, i, true); }
  return k;
}
void Order::add(int i, int j, bool strict) {
  if (i == j) return;
  if (R(i, j) & (strict ? LT : LE)) return;
  if (!strict && ((R(i, j) | R(j, i)) & NE)) strict = true;
  int N = n.size();
  std::vector<std::pair<int, int>> todo;
  for (int a = 0; a < N; a++) {
    if (a != i && !(R(a, i) & LE)) continue;
    for (int b = 0; b < N; b++) {
      if (a == b || (b != j && !(R(j, b) & LE))) continue;
      bool s = strict || (a != i && (R(a, i) & LT)) || (b != j && (R(j, b) & LT));
      uint8_t o = R(a, b);
      R(a, b) |= LE | (s ? LT : 0);
      if (R(a, b) != o && (R(a, b) & NE) && !(R(a, b) & LT)) todo.push_back({a, b});
    }
  }
  // disequalities of terms now known equal, and strictness from disequalities
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++)
      if (a != b && (R(a, b) & LE) && (R(b, a) & LE))
        for (int c = 0; c < N; c++)
          if ((R(a, c) & NE) && !(R(b, c) & NE)) { R(b, c) |= NE; R(c, b) |= NE; if ((R(b, c) & (LE | LT)) == LE) todo.push_back({b, c}); if ((R(c, b) & (LE | LT)) == LE) todo.push_back({c, b}); }
  for (auto &p : todo) add(p.first, p.second, true);
}
void Order::ne(int i, int j) {
  if (i == j || (R(i, j) & NE)) return;
  int N = n.size();
  for (int a = 0; a < N; a++)
    if (a == i || ((R(a, i) & LE) && (R(i, a) & LE)))
      for (int b = 0; b < N; b++)
        if (b == j || ((R(b, j) & LE) && (R(j, b) & LE))) { R(a, b) |= NE; R(b, a) |= NE; }
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++)
      if (a != b && (R(a, b) & (NE | LE | LT)) == (NE | LE)) add(a, b, true);
}
void Order::fact(Expr *e) {
  if (e->kind == K_AND && e->width == 1) { fact(e->k[0]); fact(e->k[1]); return; }
  Expr *f = e; bool neg = false;
  if (e->kind == K_XOR && e->width == 1 && isC(e->k[1]) && e->k[1]->val) { f = e->k[0]; neg = true; }
  if (neg && f->kind == K_OR) { fact(mkNot(f->k[0])); fact(mkNot(f->k[1])); return; }
  if (f->kind != K_EQ && f->kind != K_ULT && f->kind != K_ULE) return;
  if (isC(f->k[0]) && isC(f->k[1])) return;
  int a = node(f->k[0], true), b = node(f->k[1], true);
  if (a < 0 || b < 0) return;
  if (f->kind == K_EQ) { if (neg) ne(a, b); else { add(a, b, false); add(b, a, false); } }
  else if (f->kind == K_ULT) { if (neg) add(b, a, false); else add(a, b, true); }
  else { if (neg) add(b, a, true); else add(a, b, false); }
}
int Order::query(Kind k, Expr *x, Expr *y) {
  int a = node(x, isC(x)), b = node(y, isC(y));
  if (a < 0 || b < 0) return -1;
  uint8_t ab = R(a, b), ba = R(b, a);
  if (k == K_EQ) {
    if ((ab & LE) && (ba & LE)) return 1;
    if ((ab & (LT | NE)) || (ba & (LT | NE))) return 0;
  } else if (k == K_ULT) {
    if (ab & LT) return 1;
    if (ba & LE) return 0;
  } else {
    if (ab & LE) return 1;
    if (ba & LT) return 0;
  }
  return -1;
}

static uint32_t g_sepoch = 1;
static Expr *simp(State &st, Expr *e, int depth) {
  if (e->kind == K_CONST || e->kind == K_VAR) return e;
  if (e->sep == g_sepoch) return e->sv;
  Expr *r = e;
  if (depth > 400) return e;
  switch (e->kind) {
    case K_ITE: {
      Expr *c = simp(st, e->k[0], depth + 1);
      if (isC(c)) r = simp(st, c->val ? e->k[1] : e->k[2], depth + 1);
      else r = mkIte(c, simp(st, e->k[1], depth + 1), simp(st, e->k[2], depth + 1));
      break;
    }
    case K_EQ: case K_ULT: case K_ULE: {
      Expr *n = mkCmp(e->kind, simp(st, e->k[0], depth + 1), simp(st, e->k[1], depth + 1));
      if (n->kind == K_EQ || n->kind == K_ULT || n->kind == K_ULE) {
        int q = st.ord.query(n->kind, n->k[0], n->k[1]);
        r = q >= 0 ? mkConst(q, 1) : n;
      } else if (n != e) r = simp(st, n, depth + 1);
      break;
    }
    case K_SLT: case K_SLE: {
      r = mkCmp(e->kind, simp(st, e->k[0], depth + 1), simp(st, e->k[1], depth + 1));
      if (!isC(r)) { Expr *nr = mkNot(r); for (auto *p : st.pc) { if (p == r) { r = mkConst(1, 1); break; } if (p == nr) { r = mkConst(0, 1); break; } } }
      break;
    }
    case K_EXTRACT: r = mkExtract(simp(st, e->k[0], depth + 1), (unsigned)e->val, e->width);
      if (e->width == 1 && !isC(r)) { Expr *nr = mkNot(r); for (auto *p : st.pc) { if (p == r) { r = mkConst(1, 1); break; } if (p == nr) { r = mkConst(0, 1); break; } } }
      break;
    case K_CONCAT: r = mkConcat(simp(st, e->k[0], depth + 1), simp(st, e->k[1], depth + 1)); break;
    case K_ZEXT: r = mkZext(simp(st, e->k[0], depth + 1), e->width); break;
    case K_SEXT: r = mkSext(simp(st, e->k[0], depth + 1), e->width); break;
    default: {
      Expr *a = simp(st, e->k[0], depth + 1);
      if (e->width == 1 && isC(a) && e->kind == K_AND && !a->val) { r = a; break; }
      if (e->width == 1 && isC(a) && e->kind == K_OR && a->val) { r = a; break; }
      r = mkBin(e->kind, a, simp(st, e->k[1], depth + 1));
    }
  }
  e->sep = g_sepoch; e->sv = r;
  return r;
}
Expr *simplifyUnder(State &st, Expr *e) {
  if (++g_sepoch == 0) g_sepoch = 1;
  return simp(st, e, 0);
}
