#include "expr.h"
#include <unordered_set>
std::vector<VarInfo> vars;
u64 n_exprs = 0;
static const size_t CH = 4096;
static Expr *chunk = nullptr; static size_t chn = CH;
static Expr *alloc_expr() { if (chn == CH) { chunk = (Expr*)aligned_alloc(16, sizeof(Expr)*CH); chn = 0; } return &chunk[chn++]; }
static Expr **ht = nullptr; static size_t hcap = 0, hn = 0;
static inline u64 mix(u64 h, u64 v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
static u64 hashk(u8 k, u8 w, Expr *a, Expr *b, Expr *c, u128 val) {
  u64 h = mix(k*131+w, a? a->id+1 : 0); h = mix(h, b ? b->id+1 : 0); h = mix(h, c ? c->id+1 : 0); h = mix(h, (u64)val); h = mix(h, (u64)(val>>64)); return h;
}
static void grow() {
  size_t nc = hcap ? hcap*2 : 1<<16; Expr **nt = (Expr**)calloc(nc, sizeof(Expr*));
  for (size_t i=0;i<hcap;i++) if (ht[i]) { Expr *e = ht[i]; u64 h = hashk(e->k,e->w,e->a,e->b,e->c,e->val) & (nc-1); while (nt[h]) h = (h+1)&(nc-1); nt[h]=e; }
  free(ht); ht = nt; hcap = nc;
}
static void ranges(Expr *e);
static Expr *intern(u8 k, u8 w, Expr *a, Expr *b, Expr *c, u128 val) {
  if (hn*2 >= hcap) grow();
  u64 h = hashk(k,w,a,b,c,val) & (hcap-1);
  while (Expr *e = ht[h]) { if (e->k==k && e->w==w && e->a==a && e->b==b && e->c==c && e->val==val) return e; h = (h+1)&(hcap-1); }
  Expr *e = alloc_expr(); memset((void*)e, 0, sizeof *e);
  e->k=k; e->w=w; e->a=a; e->b=b; e->c=c; e->val=val; e->id=(u32)n_exprs++;
  if (a) e->m.or_(a->m); if (b) e->m.or_(b->m); if (c) e->m.or_(c->m);
  if (k == E_VAR) e->m.set((u32)val);
  int s = e->m.single();
  if (k == E_VAR) { e->uv = vars[(u32)val].n > 0; }
  else e->uv = s >= 0 && vars[s].n > 0 && w <= 64 && (!a || is_c(a) || a->uv) && (!b || is_c(b) || b->uv) && (!c || is_c(c) || c->uv)
     && (!a || a->w<=64) && (!b || b->w<=64) && (!c || c->w<=64);
  ht[h] = e; hn++;
  ranges(e);
  return e;
}
static void ranges(Expr *e) {
  u64 M = e->w>=64 ? ~0ull : (u64)maskw(e->w);
  e->rlo = 0; e->rhi = M;
  if (e->w > 64) return;
  switch (e->k) {
    case E_CONST: e->rlo = e->rhi = (u64)e->val; break;
    case E_VAR: if (vars[(u32)e->val].n) e->rhi = vars[(u32)e->val].n - 1; break;
    case E_ZEXT: if (e->a->w<=64) { e->rlo = e->a->rlo; e->rhi = e->a->rhi; } break;
    case E_AND: if (e->a->rhi < e->rhi) e->rhi = e->a->rhi; if (e->b->rhi < e->rhi) e->rhi = e->b->rhi; break;
    case E_OR: case E_XOR: { u64 m = e->a->rhi | e->b->rhi; int t = m ? 64-__builtin_clzll(m) : 0; e->rhi = t>=64 ? ~0ull : (1ull<<t)-1; if (e->rhi > M) e->rhi = M; if (e->k==E_OR) e->rlo = e->a->rlo > e->b->rlo ? e->a->rlo : e->b->rlo; break; }
    case E_ADD: { u64 s; if (!__builtin_add_overflow(e->a->rhi, e->b->rhi, &s) && s <= M) { e->rhi = s; e->rlo = e->a->rlo + e->b->rlo; } break; }
    case E_MUL: { u64 s; if (!__builtin_mul_overflow(e->a->rhi, e->b->rhi, &s) && s <= M) { e->rhi = s; e->rlo = e->a->rlo * e->b->rlo; } break; }
    case E_SUB: if (e->a->rlo >= e->b->rhi) { e->rlo = e->a->rlo - e->b->rhi; e->rhi = e->a->rhi - e->b->rlo; } break;
    case E_UDIV: if (is_c(e->b) && e->b->val) { e->rlo = e->a->rlo/(u64)e->b->val; e->rhi = e->a->rhi/(u64)e->b->val; } break;
    case E_UREM: if (is_c(e->b) && e->b->val) { e->rhi = (u64)e->b->val-1; if (e->a->rhi < e->rhi) e->rhi = e->a->rhi; } break;
    case E_LSHR: if (is_c(e->b)) { u64 s=(u64)e->b->val; if (s<64) { e->rlo = e->a->rlo>>s; e->rhi = e->a->rhi>>s; } } break;
    case E_SHL: if (is_c(e->b)) { u64 s=(u64)e->b->val; if (s<e->w && e->a->rhi <= (M>>s)) { e->rlo = e->a->rlo<<s; e->rhi = e->a->rhi<<s; } } break;
    case E_ITE: e->rlo = e->b->rlo < e->c->rlo ? e->b->rlo : e->c->rlo; e->rhi = e->b->rhi > e->c->rhi ? e->b->rhi : e->c->rhi; break;
    case E_EXTRACT: if (e->val==0 && e->a->w<=64 && e->a->rhi <= M) { e->rlo=e->a->rlo; e->rhi=e->a->rhi; } break;
    case E_CONCAT: { u32 s=e->b->w; e->rlo = (e->a->rlo<<s) | e->b->rlo; e->rhi = (e->a->rhi<<s)|e->b->rhi; break; }
    case E_TAB: { const u64 *t=(const u64*)(uintptr_t)(u64)e->val; u32 n = vars[(u32)e->a->val].n; u64 lo=~0ull,hi=0; for(u32 i=0;i<n;i++){ if(t[i]<lo)lo=t[i]; if(t[i]>hi)hi=t[i]; } e->rlo=lo; e->rhi=hi; break; }
  }
}
Expr *mk_const(u128 v, u32 w) { return intern(E_CONST, w, 0,0,0, v & maskw(w)); }
Expr *mk_var(u32 w, u32 n) {
  u32 id = vars.size(); if (id >= MAXVARS) { fprintf(stderr, "too many symbolic variables\n"); abort(); }
  vars.push_back({id, w, n, nullptr}); Expr *e = intern(E_VAR, w, 0,0,0, id); vars[id].e = e; return e;
}
u128 fold(u8 k, u128 a, u128 b, u32 w) {
  u128 M = maskw(w);
  switch (k) {
    case E_ADD: return (a+b)&M; case E_SUB: return (a-b)&M; case E_MUL: return (a*b)&M;
    case E_UDIV: return b ? a/b : M; case E_UREM: return b ? a%b : a;
    case E_SDIV: { i128 x=sx(a,w), y=sx(b,w); if (!y) return x<0?1:M; return (u128)(x/y)&M; }
    case E_SREM: { i128 x=sx(a,w), y=sx(b,w); if (!y) return a; return (u128)(x%y)&M; }
    case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
    case E_SHL: return b>=w ? 0 : (a<<(u32)b)&M; case E_LSHR: return b>=w ? 0 : a>>(u32)b;
    case E_ASHR: { i128 x=sx(a,w); u32 s = b>=w ? w-1 : (u32)b; return (u128)(x>>s)&M; }
    case E_EQ: return a==b; case E_ULT: return a<b; case E_SLT: return sx(a,w)<sx(b,w);
  }
  abort();
}
static inline bool comm(u8 k) { return k==E_ADD||k==E_MUL||k==E_AND||k==E_OR||k==E_XOR||k==E_EQ; }
Expr *mk_bin(EK k, Expr *a, Expr *b) {
  u32 w = a->w; assert(a->w == b->w);
  u32 rw = (k==E_EQ||k==E_ULT||k==E_SLT) ? 1 : w;
  if (is_c(a) && is_c(b)) return mk_const(fold(k, a->val, b->val, w), rw);
  if (comm(k) && (is_c(a) || (!is_c(b) && a->id > b->id))) { Expr *t=a; a=b; b=t; }   // constant to the right
  Expr *Z;
  switch (k) {
    case E_ADD:
      if (is_c(b)) { if (!b->val) return a;
        if (a->k==E_ADD && is_c(a->b)) return mk_bin(E_ADD, a->a, mk_const(a->b->val + b->val, w));
        if (a->k==E_SUB && is_c(a->a)) return mk_bin(E_SUB, mk_const(a->a->val + b->val, w), a->b); }
      else { if (a->k==E_ADD && is_c(a->b)) return mk_bin(E_ADD, mk_bin(E_ADD, a->a, b), a->b);
             if (b->k==E_ADD && is_c(b->b)) return mk_bin(E_ADD, mk_bin(E_ADD, a, b->a), b->b);
             if (a->k==E_SUB && a->b==b) return a->a;
             if (b->k==E_SUB && b->b==a) return b->a; }
      break;
    case E_SUB:
      if (is_c(b)) return mk_bin(E_ADD, a, mk_const(-b->val, w));
      if (a==b) return mk_const(0,w);
      if (a->k==E_ADD) { if (a->a==b) return a->b; if (a->b==b) return a->a;
        if (is_c(a->b)) return mk_bin(E_ADD, mk_bin(E_SUB, a->a, b), a->b); }
      if (b->k==E_ADD && is_c(b->b)) return mk_bin(E_ADD, mk_bin(E_SUB, a, b->a), mk_const(-b->b->val, w));
      if (b->k==E_ADD) { if (b->a==a) return mk_bin(E_SUB, mk_const(0,w), b->b); if (b->b==a) return mk_bin(E_SUB, mk_const(0,w), b->a); }
      if (a->k==E_SUB && a->a==b) return mk_bin(E_SUB, mk_const(0,w), a->b);
      if (b->k==E_SUB && b->a==a) return b->b;
      break;
    case E_MUL:
      if (is_c(b)) { if (!b->val) return b; if (b->val==1) return a;
        u128 v=b->val; if ((v&(v-1))==0) { u32 s=0; while ((v>>s)!=1) s++; return mk_bin(E_SHL, a, mk_const(s,w)); } }
      break;
    case E_UDIV: if (is_c(b)) { u128 v=b->val; if (v==1) return a; if (v && (v&(v-1))==0) { u32 s=0; while ((v>>s)!=1) s++; return mk_bin(E_LSHR, a, mk_const(s,w)); } } break;
    case E_UREM: if (is_c(b)) { u128 v=b->val; if (v==1) return mk_const(0,w); if (v && (v&(v-1))==0) return mk_bin(E_AND, a, mk_const(v-1,w)); } break;
    case E_AND:
      if (is_c(b)) { if (!b->val) return b; if (b->val==maskw(w)) return a;
        if (w<=64 && a->rhi <= (u64)maskw(64) ) { // low mask covers the whole range
          u64 v=(u64)b->val; if ((v&(v+1))==0 && a->rhi <= v) return a;
          if ((v&(v+1))==0) { u32 n=0; while (n<64 && (v>>n)&1) n++; if (n<w) return mk_zext(mk_extract(a,0,n), w); } }
        if (a->k==E_AND && is_c(a->b)) return mk_bin(E_AND, a->a, mk_const(a->b->val & b->val, w));
        if (a->k==E_ZEXT) { return mk_zext(mk_bin(E_AND, a->a, mk_const(b->val, a->a->w)), w); }
      }
      if (a==b) return a;
      if (w==1) { if (a->k==E_XOR && is_c(a->b) && a->a==b) return mk_const(0,1); if (b->k==E_XOR && is_c(b->b) && b->a==a) return mk_const(0,1); }
      break;
    case E_OR:
      if (is_c(b)) { if (!b->val) return a; if (b->val==maskw(w)) return b; }
      if (a==b) return a;
      if (w==1) { if (a->k==E_XOR && is_c(a->b) && a->a==b) return mk_const(1,1); if (b->k==E_XOR && is_c(b->b) && b->a==a) return mk_const(1,1); }
      // (zext x) | (y << width(x)) -> zext(concat)
      for (int t=0;t<2;t++) { Expr *x=t?b:a, *y=t?a:b;
        if (x->k==E_ZEXT && y->k==E_SHL && is_c(y->b) && y->b->val >= x->a->w && y->b->val < w) {
          u32 sh=(u32)y->b->val; Expr *hi = mk_extract(y->a, 0, w-sh); Expr *lo = sh > x->a->w ? mk_zext(x->a, sh) : x->a; return mk_concat(hi, lo); } }
      break;
    case E_XOR:
      if (is_c(b)) { if (!b->val) return a; if (a->k==E_XOR && is_c(a->b)) return mk_bin(E_XOR, a->a, mk_const(a->b->val ^ b->val, w));
        if (w==1 && a->k==E_ITE && is_c(a->b) && is_c(a->c)) return mk_ite(a->a, mk_not(a->b), mk_not(a->c)); }
      if (a==b) return mk_const(0,w);
      break;
    case E_SHL: case E_LSHR:
      if (is_c(b)) { if (!b->val) return a; if (b->val >= w) return mk_const(0,w); u32 s=(u32)b->val;
        if (k==E_LSHR) { if (w<=64 && (a->rhi>>s)==0) return mk_const(0,w); return mk_zext(mk_extract(a, s, w-s), w); }
        if (a->k==E_SHL && is_c(a->b)) { u128 t=a->b->val + s; return t>=w ? mk_const(0,w) : mk_bin(E_SHL, a->a, mk_const(t,w)); } }
      break;
    case E_ASHR: if (is_c(b)) { if (!b->val) return a; if (w<=64 && a->rhi <= (u64)(maskw(w)>>1)) return mk_bin(E_LSHR, a, b); } break;
    case E_EQ:
      if (a==b) return mk_const(1,1);
      if (w==1 && is_c(b)) return b->val ? a : mk_not(a);
      if (w<=64 && (a->rhi < b->rlo || b->rhi < a->rlo)) return mk_const(0,1);
      if (is_c(b)) {
        if (a->k==E_ADD && is_c(a->b)) return mk_bin(E_EQ, a->a, mk_const(b->val - a->b->val, w));
        if (a->k==E_SUB && is_c(a->a)) return mk_bin(E_EQ, a->b, mk_const(a->a->val - b->val, w));
        if (a->k==E_XOR && is_c(a->b)) return mk_bin(E_EQ, a->a, mk_const(b->val ^ a->b->val, w));
        if (a->k==E_SUB && !b->val) return mk_bin(E_EQ, a->a, a->b);
        if (a->k==E_ZEXT) { if (b->val > maskw(a->a->w)) return mk_const(0,1); return mk_bin(E_EQ, a->a, mk_const(b->val, a->a->w)); }
        if (a->k==E_SEXT) { u128 lo=b->val & maskw(a->a->w); if (((u128)sx(lo,a->a->w)&maskw(w)) != b->val) return mk_const(0,1); return mk_bin(E_EQ, a->a, mk_const(lo, a->a->w)); }
        if (a->k==E_ITE) {
          if (is_c(a->b) && is_c(a->c)) { bool x=a->b->val==b->val, y=a->c->val==b->val; if (x&&y) return mk_const(1,1); if (!x&&!y) return mk_const(0,1); return x ? a->a : mk_not(a->a); }
          if (is_c(a->b) || is_c(a->c)) return mk_ite(a->a, mk_eq(a->b,b), mk_eq(a->c,b));
        }
        if (a->k==E_CONCAT) return mk_bin(E_AND, mk_eq(a->a, mk_const(b->val >> a->b->w, a->a->w)), mk_eq(a->b, mk_const(b->val, a->b->w)));
        if (a->k==E_TAB && w<=64) { u32 n=vars[(u32)a->a->val].n; const u64*t=(const u64*)(uintptr_t)(u64)a->val; int cnt=0, last=0; for(u32 i=0;i<n;i++) if(t[i]==(u64)b->val){cnt++; last=i;} if(!cnt) return mk_const(0,1); if (cnt==1) return mk_eq(a->a, mk_const(last, a->a->w)); }
      } else {
        if (a->k==E_ZEXT && b->k==E_ZEXT && a->a->w==b->a->w) return mk_eq(a->a, b->a);
        if (a->k==E_ADD && b->k==E_ADD && a->b==b->b) return mk_eq(a->a, b->a);
        if (a->k==E_ADD && b->k==E_ADD && a->a==b->a) return mk_eq(a->b, b->b);
        if (a->k==E_ADD && (a->a==b)) return mk_eq(a->b, mk_const(0,w));
        if (a->k==E_ADD && (a->b==b)) return mk_eq(a->a, mk_const(0,w));
        if (b->k==E_ADD && (b->a==a)) return mk_eq(b->b, mk_const(0,w));
        if (b->k==E_ADD && (b->b==a)) return mk_eq(b->a, mk_const(0,w));
        if (a->k==E_CONCAT && b->k==E_CONCAT && a->b->w==b->b->w) return mk_bin(E_AND, mk_eq(a->a,b->a), mk_eq(a->b,b->b));
      }
      break;
    case E_ULT:
      if (a==b) return mk_const(0,1);
      if (w<=64) { if (a->rhi < b->rlo) return mk_const(1,1); if (a->rlo >= b->rhi) return mk_const(0,1); }
      if (is_c(b)) { if (b->val==0) return mk_const(0,1); if (b->val==1) return mk_eq(a, mk_const(0,w));
        if (b->val==maskw(w)) return mk_not(mk_eq(a,b));
        if (a->k==E_ZEXT) { if (b->val > maskw(a->a->w)) return mk_const(1,1); return mk_bin(E_ULT, a->a, mk_const(b->val, a->a->w)); }
        if (a->k==E_CONCAT && is_c(a->a)) { u128 h=b->val >> a->b->w; if (a->a->val < h) return mk_const(1,1); if (a->a->val > h) return mk_const(0,1); return mk_bin(E_ULT, a->b, mk_const(b->val, a->b->w)); }
      }
      if (is_c(a)) { if (a->val==maskw(w)) return mk_const(0,1); if (a->val==0) return mk_not(mk_eq(b, a));
        if (b->k==E_ZEXT) { if (a->val >= maskw(b->a->w)) return mk_const(0,1); return mk_bin(E_ULT, mk_const(a->val, b->a->w), b->a); } }
      if (a->k==E_ZEXT && b->k==E_ZEXT && a->a->w==b->a->w) return mk_bin(E_ULT, a->a, b->a);
      if (is_c(a) || is_c(b)) for (int t=0;t<2;t++) { Expr *x=t?b:a; if (x->k==E_ITE && is_c(x->b) && is_c(x->c)) { Expr *p = t? mk_bin(E_ULT,a,x->b):mk_bin(E_ULT,x->b,b), *q = t? mk_bin(E_ULT,a,x->c):mk_bin(E_ULT,x->c,b); return mk_ite(x->a,p,q); } }
      break;
    case E_SLT:
      if (a==b) return mk_const(0,1);
      if (w<=64) { u64 h=(u64)(maskw(w)>>1); if (a->rhi<=h && b->rhi<=h) return mk_bin(E_ULT,a,b);
        if (a->rlo>h && b->rhi<=h) return mk_const(1,1); if (b->rlo>h && a->rhi<=h) return mk_const(0,1); }
      if (a->k==E_SEXT && b->k==E_SEXT && a->a->w==b->a->w) return mk_bin(E_SLT,a->a,b->a);
      if (a->k==E_SEXT && is_c(b)) { i128 v=sx(b->val,w); u32 iw=a->a->w; i128 mx=((i128)1<<(iw-1))-1, mn=-((i128)1<<(iw-1)); if (v>mx) return mk_const(1,1); if (v<=mn) return mk_const(0,1); return mk_bin(E_SLT,a->a,mk_const((u128)v,iw)); }
      if (b->k==E_SEXT && is_c(a)) { i128 v=sx(a->val,w); u32 iw=b->a->w; i128 mx=((i128)1<<(iw-1))-1, mn=-((i128)1<<(iw-1)); if (v>=mx) return mk_const(0,1); if (v<mn) return mk_const(1,1); return mk_bin(E_SLT,mk_const((u128)v,iw),b->a); }
      break;
    default: break;
  }
  (void)Z;
  // push operations with a constant through an ITE of constants
  if (is_c(b) && a->k==E_ITE && is_c(a->b) && is_c(a->c)) return mk_ite(a->a, mk_bin(k,a->b,b), mk_bin(k,a->c,b));
  return intern(k, rw, a, b, 0, 0);
}
Expr *mk_ite(Expr *c, Expr *a, Expr *b) {
  assert(c->w==1 && a->w==b->w);
  if (is_c(c)) return c->val ? a : b;
  if (a==b) return a;
  if (c->k==E_XOR && is_c(c->b)) return mk_ite(c->a, b, a);
  if (a->w==1) {
    if (is_c(a) && is_c(b)) return a->val ? c : mk_not(c);
    if (is_c(a)) return a->val ? mk_bin(E_OR, c, b) : mk_bin(E_AND, mk_not(c), b);
    if (is_c(b)) return b->val ? mk_bin(E_OR, mk_not(c), a) : mk_bin(E_AND, c, a);
  }
  if (a->k==E_ITE && a->a==c) a = a->b;
  if (b->k==E_ITE && b->a==c) b = b->c;
  if (a==b) return a;
  return intern(E_ITE, a->w, c, a, b, 0);
}
Expr *mk_zext(Expr *a, u32 w) {
  if (a->w==w) return a; assert(a->w<w);
  if (is_c(a)) return mk_const(a->val, w);
  if (a->k==E_ZEXT) return mk_zext(a->a, w);
  if (a->k==E_ITE && is_c(a->b) && is_c(a->c)) return mk_ite(a->a, mk_const(a->b->val,w), mk_const(a->c->val,w));
  if (a->k==E_TAB && w<=64) return mk_tab(a->a, (const u64*)(uintptr_t)(u64)a->val, w);
  return intern(E_ZEXT, w, a, 0, 0, 0);
}
Expr *mk_sext(Expr *a, u32 w) {
  if (a->w==w) return a; assert(a->w<w);
  if (is_c(a)) return mk_const((u128)sx(a->val,a->w), w);
  if (a->k==E_SEXT) return mk_sext(a->a, w);
  if (a->k==E_ZEXT) return mk_zext(a->a, w);
  if (a->w<=64 && a->rhi <= (u64)(maskw(a->w)>>1)) return mk_zext(a, w);
  if (a->k==E_ITE && is_c(a->b) && is_c(a->c)) return mk_ite(a->a, mk_sext(a->b,w), mk_sext(a->c,w));
  if (a->w==1) return mk_ite(a, mk_const(maskw(w),w), mk_const(0,w));
  return intern(E_SEXT, w, a, 0, 0, 0);
}
Expr *mk_extract(Expr *a, u32 lo, u32 w) {
  if (lo==0 && w==a->w) return a; assert(lo+w<=a->w);
  if (is_c(a)) return mk_const(a->val>>lo, w);
  switch (a->k) {
    case E_EXTRACT: return mk_extract(a->a, (u32)a->val+lo, w);
    case E_CONCAT: if (lo+w<=a->b->w) return mk_extract(a->b, lo, w); if (lo>=a->b->w) return mk_extract(a->a, lo-a->b->w, w);
      return mk_concat(mk_extract(a->a, 0, lo+w-a->b->w), mk_extract(a->b, lo, a->b->w-lo));
    case E_ZEXT: if (lo>=a->a->w) return mk_const(0,w); if (lo+w<=a->a->w) return mk_extract(a->a, lo, w); return mk_zext(mk_extract(a->a, lo, a->a->w-lo), w);
    case E_SEXT: if (lo+w<=a->a->w) return mk_extract(a->a, lo, w); if (lo==0) return mk_sext(a->a, w); break;
    case E_ITE: if (is_c(a->b) || is_c(a->c)) return mk_ite(a->a, mk_extract(a->b,lo,w), mk_extract(a->c,lo,w)); break;
    case E_AND: case E_OR: case E_XOR: return mk_bin((EK)a->k, mk_extract(a->a,lo,w), mk_extract(a->b,lo,w));
    case E_ADD: case E_SUB: case E_MUL: if (lo==0) return mk_bin((EK)a->k, mk_extract(a->a,0,w), mk_extract(a->b,0,w)); break;
    case E_SHL: if (is_c(a->b)) { u32 s=(u32)a->b->val; if (lo>=s) return mk_extract(a->a, lo-s, w); if (lo+w<=s) return mk_const(0,w); } break;
    case E_TAB: if (w<=64) { u32 n=vars[(u32)a->a->val].n; u64 t[256]; const u64*s=(const u64*)(uintptr_t)(u64)a->val; for(u32 i=0;i<n;i++) t[i]=(s[i]>>lo)&(u64)maskw(w); return mk_tab(a->a,t,w);} break;
    default: break;
  }
  return intern(E_EXTRACT, w, a, 0, 0, lo);
}
Expr *mk_concat(Expr *hi, Expr *lo) {
  u32 w=hi->w+lo->w; assert(w<=128);
  if (is_c(hi)&&is_c(lo)) return mk_const(hi->val<<lo->w | lo->val, w);
  if (is_c(hi)&&!hi->val) return mk_zext(lo, w);
  if (hi->k==E_EXTRACT && lo->k==E_EXTRACT && hi->a==lo->a && hi->val==lo->val+lo->w) return mk_extract(hi->a, (u32)lo->val, w);
  if (hi->k==E_CONCAT) return mk_concat(hi->a, mk_concat(hi->b, lo));   // right-assoc
  if (lo->k==E_CONCAT && hi->k==E_EXTRACT && lo->a->k==E_EXTRACT && hi->a==lo->a->a && hi->val==lo->a->val+lo->a->w) return mk_concat(mk_extract(hi->a,(u32)lo->a->val,hi->w+lo->a->w), lo->b);
  if (is_c(hi) && lo->k==E_CONCAT && is_c(lo->a)) return mk_concat(mk_const(hi->val<<lo->a->w | lo->a->val, hi->w+lo->a->w), lo->b);
  return intern(E_CONCAT, w, hi, lo, 0, 0);
}
static std::unordered_map<std::string, u64*> tabs;
Expr *mk_tab(Expr *var, const u64 *t, u32 w) {
  u32 n=vars[(u32)var->val].n; bool same=true, ident=true; for(u32 i=0;i<n;i++){ if(t[i]!=t[0]) same=false; if(t[i]!=i) ident=false; }
  if (same) return mk_const(t[0],w);
  if (ident && w>=var->w) return mk_zext(var,w);
  std::string key((const char*)t, n*8); auto it=tabs.find(key); u64 *p;
  if (it==tabs.end()) { p=(u64*)malloc(n*8); memcpy(p,t,n*8); tabs.emplace(key,p); } else p=it->second;
  if (w==1) { // boolean tables: prefer small equalities
    u32 c=0,l=0; for(u32 i=0;i<n;i++) if(p[i]){c++;l=i;} if(c==1) return mk_eq(var,mk_const(l,var->w));
  }
  return intern(E_TAB, w, var, 0, 0, (u128)(u64)(uintptr_t)p);
}
static u32 epoch = 0;
static u128 ev(Expr *e, const u64 *m) {
  if (e->k==E_CONST) return e->val;
  if (e->k==E_VAR) return m[(u32)e->val];
  if (e->ep==epoch) return e->ev;
  u128 r;
  switch (e->k) {
    case E_ITE: r = ev(e->a,m) ? ev(e->b,m) : ev(e->c,m); break;
    case E_ZEXT: r = ev(e->a,m); break;
    case E_SEXT: r = (u128)sx(ev(e->a,m), e->a->w) & maskw(e->w); break;
    case E_EXTRACT: r = (ev(e->a,m) >> (u32)e->val) & maskw(e->w); break;
    case E_CONCAT: r = ev(e->a,m) << e->b->w | ev(e->b,m); break;
    case E_TAB: r = ((const u64*)(uintptr_t)(u64)e->val)[(u64)ev(e->a,m)]; break;
    default: r = fold(e->k, ev(e->a,m), ev(e->b,m), e->a->w);
  }
  e->ep=epoch; e->ev=r; return r;
}
u128 eval(Expr *e, const u64 *m) { epoch++; return ev(e,m); }
static std::vector<Expr*> tabbed; static u64 tabbytes=0;
static const u64 *tab_rec(Expr *e, u32 n) {
  if (e->tab) return e->tab;
  u64 *t=(u64*)malloc(n*8);
  const u64 *A=0,*B=0,*C=0; u64 ca=0,cb=0,cc=0;
  auto kid=[&](Expr *x, const u64 *&T, u64 &c){ if(!x) return; if(is_c(x)) c=(u64)x->val; else T=tab_rec(x,n); };
  if (e->k==E_VAR) { for(u32 i=0;i<n;i++) t[i]=i; }
  else if (e->k==E_TAB) { memcpy(t,(const u64*)(uintptr_t)(u64)e->val,n*8); }
  else { kid(e->a,A,ca); kid(e->b,B,cb); kid(e->c,C,cc);
    for(u32 i=0;i<n;i++){ u64 a=A?A[i]:ca,b=B?B[i]:cb,c=C?C[i]:cc; u64 r;
      switch(e->k){ case E_ITE: r=a?b:c; break; case E_ZEXT: r=a; break; case E_SEXT: r=(u64)((u128)sx(a,e->a->w)&maskw(e->w)); break;
        case E_EXTRACT: r=(a>>(u32)e->val)&(u64)maskw(e->w); break; case E_CONCAT: r=a<<e->b->w|b; break;
        default: r=(u64)fold(e->k,a,b,e->a->w); }
      t[i]=r; } }
  e->tab=t; tabbed.push_back(e); tabbytes+=n*8; return t;
}
const u64 *table_of(Expr *e) {
  if (e->tab) return e->tab;
  if (tabbytes > (256u<<20)) { for (Expr *x : tabbed) { free(x->tab); x->tab=nullptr; } tabbed.clear(); tabbytes=0; }
  return tab_rec(e, vars[e->m.single()].n);
}
std::string show(Expr *e, int d) {
  static const char *nm[]={"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","zext","sext","extract","concat","tab"};
  char buf[64];
  if (e->k==E_CONST) { snprintf(buf,64,"%llu",(unsigned long long)e->val); return buf; }
  if (e->k==E_VAR) { snprintf(buf,64,"v%u",(u32)e->val); return buf; }
  if (d<=0) return "..";
  std::string s=std::string("(")+nm[e->k]+std::to_string(e->w); if(e->k==E_EXTRACT) s+="@"+std::to_string((u32)e->val);
  if(e->a) s+=" "+show(e->a,d-1); if(e->b) s+=" "+show(e->b,d-1); if(e->c) s+=" "+show(e->c,d-1); return s+")";
}
