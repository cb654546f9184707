// Bit-vector expression DAG (hash-consed) with constant folding, lowered to Z3 on demand.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE
};

struct Expr {
  Kind kind;
  uint16_t width;
  uint32_t id;
  Expr *k[3];
  u128 val;      // constant value; VAR: ordinal; EXTRACT: low bit
  Z3_ast z3;
  uint32_t epoch;
  u128 ev;
  uint32_t sep; Expr *sv; // memo of simplifyUnder
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextv(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct ExprHash {
  size_t operator()(const Expr *e) const {
    uint64_t h = e->kind * 0x9E3779B97F4A7C15ull + e->width * 0xC2B2AE3D27D4EB4Full;
    for (int i = 0; i < 3; i++) { h ^= (uint64_t)(e->k[i] ? e->k[i]->id + 1 : 0) + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }
    h ^= (uint64_t)e->val * 0xc4ceb9fe1a85ec53ull ^ (uint64_t)(e->val >> 64);
    return h ^ (h >> 29);
  }
};
struct ExprEq {
  bool operator()(const Expr *a, const Expr *b) const {
    return a->kind == b->kind && a->width == b->width && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] && a->val == b->val;
  }
};

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(uint32_t ord, unsigned w);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkCmp(Kind k, Expr *a, Expr *b);
Expr *mkNot(Expr *a);            // width-1 negation
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
static inline bool isC(const Expr *e) { return e->kind == K_CONST; }
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
bool foldCmp(Kind k, u128 a, u128 b, unsigned w);
std::string exprStr(Expr *e, int depth = 6);
extern uint64_t g_nexprs;
