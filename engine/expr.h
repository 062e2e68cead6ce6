// Hash-consed bit-vector terms, simplifier, concrete evaluation, finite-domain tables.
#pragma once
#include "ir.h"
#include <cstring>
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <functional>
enum EK : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_SLT, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_TAB };
struct Mask { u64 a[3];
  bool any() const { return a[0] | a[1] | a[2]; }
  bool inter(const Mask &o) const { return (a[0]&o.a[0]) | (a[1]&o.a[1]) | (a[2]&o.a[2]); }
  void or_(const Mask &o) { a[0]|=o.a[0]; a[1]|=o.a[1]; a[2]|=o.a[2]; }
  bool has(u32 i) const { return a[i>>6] >> (i&63) & 1; }
  void set(u32 i) { a[i>>6] |= 1ull << (i&63); }
  int single() const { int n = __builtin_popcountll(a[0])+__builtin_popcountll(a[1])+__builtin_popcountll(a[2]); if (n!=1) return -1;
    for (int i=0;i<3;i++) if (a[i]) return i*64+__builtin_ctzll(a[i]); return -1; }
};
const u32 MAXVARS = 192;
struct Expr {
  u8 k, w, uv; u8 pad;       // uv: 1 if all variables in it are one small variable
  u32 id;
  Expr *a, *b, *c;
  u128 val;                // CONST value; VAR id; EXTRACT low bit; TAB pointer
  Mask m;
  u64 *tab;                // truth/value table over the single small variable (lazily)
  void *z3;
  u32 ep; u32 pad2; u128 ev;
  u64 rlo, rhi;            // unsigned range (only meaningful for w<=64)
} __attribute__((aligned(16)));
struct VarInfo { u32 id; u32 w; u32 n; /* domain size for small variables, 0 = wide */ Expr *e; };
extern std::vector<VarInfo> vars;
inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sx(u128 v, u32 w) { if (w>=128) return (i128)v; u128 s = (u128)1 << (w-1); return (i128)((v ^ s) - s); }
Expr *mk_const(u128 v, u32 w);
Expr *mk_var(u32 w, u32 n);
Expr *mk_bin(EK k, Expr *a, Expr *b);
Expr *mk_ite(Expr *c, Expr *a, Expr *b);
Expr *mk_zext(Expr *a, u32 w);
Expr *mk_sext(Expr *a, u32 w);
Expr *mk_extract(Expr *a, u32 lo, u32 w);
Expr *mk_concat(Expr *hi, Expr *lo);
Expr *mk_tab(Expr *var, const u64 *t, u32 w);
inline bool is_c(const Expr *e) { return e->k == E_CONST; }
inline Expr *mk_not(Expr *a) { return mk_bin(E_XOR, a, mk_const(1,1)); }
inline Expr *mk_eq(Expr *a, Expr *b) { return mk_bin(E_EQ, a, b); }
inline Expr *mk_ule(Expr *a, Expr *b) { return mk_not(mk_bin(E_ULT, b, a)); }
inline Expr *mk_sle(Expr *a, Expr *b) { return mk_not(mk_bin(E_SLT, b, a)); }
u128 eval(Expr *e, const u64 *model);
const u64 *table_of(Expr *e);   // requires e->uv; entries for 0..n-1
std::string show(Expr *e, int depth = 8);
extern u64 n_exprs;
u128 fold(u8 k, u128 a, u128 b, u32 w);
