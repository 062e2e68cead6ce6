// Symbolic state: copy-on-write object memory, frames, constraints, finite domains.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
struct Obj { u32 rc; u32 size; u8 ro, pad[3]; Expr **sym; u8 *data; };   // sym[i]: tagged Expr* (low 4 bits: byte index) or null
Obj *obj_new(u32 size);
void obj_free(Obj *o);
inline void obj_unref(Obj *o) { if (o && --o->rc == 0) obj_free(o); }
struct Page { u32 rc; Obj *o[64]; };
struct Mem {
  std::vector<Page*> pg; std::vector<u32> freel; u32 next = 0;
  Mem() {}
  Mem(const Mem &m) : pg(m.pg), freel(m.freel), next(m.next) { for (Page *p : pg) if (p) p->rc++; }
  ~Mem() { for (Page *p : pg) if (p && --p->rc==0) { for (Obj *o : p->o) obj_unref(o); free(p); } }
  Mem &operator=(const Mem &) = delete;
  inline Obj *get(u32 id) const { u32 q = id >> 6; return q < pg.size() && pg[q] ? pg[q]->o[id & 63] : nullptr; }
  Page *wpage(u32 q) {
    if (q >= pg.size()) pg.resize(q+1, nullptr);
    Page *p = pg[q];
    if (!p) { p = (Page*)calloc(1,sizeof(Page)); p->rc=1; pg[q]=p; }
    else if (p->rc > 1) { Page *n=(Page*)malloc(sizeof(Page)); memcpy(n,p,sizeof(Page)); n->rc=1; for (Obj *o : n->o) if (o) o->rc++; p->rc--; pg[q]=p=n; }
    return p;
  }
  inline Obj *getw(u32 id) {
    Page *p = pg[id>>6]; if (p->rc > 1) p = wpage(id>>6);
    Obj *o = p->o[id&63];
    if (o->rc > 1) { Obj *n = obj_new(o->size); memcpy(n->data,o->data,o->size); n->ro=o->ro; if (o->sym) { n->sym=(Expr**)malloc(sizeof(Expr*)*o->size); memcpy(n->sym,o->sym,sizeof(Expr*)*o->size); } o->rc--; p->o[id&63]=o=n; }
    return o;
  }
  u32 alloc(u32 size) { u32 id; if (!freel.empty()) { id=freel.back(); freel.pop_back(); } else id=next++; wpage(id>>6)->o[id&63]=obj_new(size); return id; }
  void release(u32 id) { Page *p=wpage(id>>6); obj_unref(p->o[id&63]); p->o[id&63]=nullptr; freel.push_back(id); }
};
struct Val { u64 v; Expr *e; };        // e==null: concrete (<=64 bit). Values wider than 64 bit always carry e.
struct Frame { u32 rc; Func *f; u32 pc; i32 ret; u32 nret; std::vector<u32> allocas; Val *r; };
struct Dom { u64 b[4];
  bool empty() const { return !(b[0]|b[1]|b[2]|b[3]); }
  bool has(u32 i) const { return b[i>>6]>>(i&63)&1; }
  int count() const { return __builtin_popcountll(b[0])+__builtin_popcountll(b[1])+__builtin_popcountll(b[2])+__builtin_popcountll(b[3]); }
  int first() const { for (int i=0;i<4;i++) if (b[i]) return i*64+__builtin_ctzll(b[i]); return -1; }
};
struct SymIn { u32 var; u32 w; u32 n; };
struct State {
  Mem mem; std::vector<Frame*> st;
  std::vector<SymIn> ins;            // symbolic inputs created so far, in order
  std::vector<u64> model;            // indexed by variable id: a satisfying assignment of the path condition
  std::vector<Dom> dom;              // per variable (small only)
  std::vector<Expr*> cons;           // constraints that are not unary-small
  Mask multi{};                      // variables occurring in cons
  std::vector<std::pair<Expr*,u64>> fixed;
  std::vector<Val> obs;
  u64 ninst = 0; u64 symInst0 = 0; u32 depth = 0; u32 clock = 0; bool expectPanic = false; u32 cases = 0;
  State() {}
  State(const State &s) : mem(s.mem), st(s.st), ins(s.ins), model(s.model), dom(s.dom), cons(s.cons), multi(s.multi), fixed(s.fixed), obs(s.obs), ninst(s.ninst), symInst0(s.symInst0), depth(s.depth), clock(s.clock), expectPanic(s.expectPanic), cases(s.cases) { for (Frame *f : st) f->rc++; }
  ~State();
};
