// Path-forking symbolic executor over the lowered IR. Feasibility and assertions are decided by Z3 (QF_BV) with an
// exact finite-domain table decision for conditions over a single small (<=256 value) input variable.
#include "state.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cstdarg>
using namespace std;
static double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }
// ------------------------------------------------------------------ shared bookkeeping
struct Shared { volatile int active; volatile int stop; volatile u32 nviol; volatile u32 reach[256]; volatile u64 paths; volatile u32 samples; volatile u32 crashed; volatile u32 dropped; volatile u64 vhash[256]; };
static Shared *sh;
struct Stats { u64 paths=0, infeasible=0, insts=0, forks=0, q_sat=0, q_unsat=0, q_unknown=0, q_cache=0, q_dom=0, q_model=0, q_domcert=0, asserts=0, asserts_sym=0, limits=0, unsup=0, expected_panics=0, certs=0; double zt=0; } S;
static string outdir; static int MAXW=8; static double deadline=1e18, t0; static u64 INSTLIM=50000000; static u32 MAXVIOL=4, NSAMP=24; static vector<u64> params; static int verbose=0; static string entry; static bool constHash=false; static u64 certEvery=64; static u32 maxEnum=600;
static unordered_map<string,u64> unsupMsgs;
static string cur_fn(State *s);
// ------------------------------------------------------------------ memory objects
Obj *obj_new(u32 size) { Obj *o=(Obj*)malloc(sizeof(Obj)+size); o->rc=1; o->size=size; o->ro=0; o->sym=nullptr; o->data=(u8*)(o+1); memset(o->data,0,size); return o; }
void obj_free(Obj *o) { free(o->sym); free(o); }
static void frame_unref(Frame *f) { if (--f->rc==0) { free(f->r); delete f; } }
State::~State() { for (Frame *f : st) frame_unref(f); }
static Frame *frame_clone(Frame *f) { Frame *n=new Frame(*f); n->rc=1; n->r=(Val*)malloc(sizeof(Val)*(f->f->nregs+1)); memcpy((void*)n->r,(void*)f->r,sizeof(Val)*f->f->nregs); f->rc--; return n; }
// ------------------------------------------------------------------ Z3
static Z3_context zc; static Z3_solver zs; static u64 zs_count=0; static Z3_sort bvs[129];
static void z_init() { Z3_config c=Z3_mk_config(); Z3_set_param_value(c,"model","true"); zc=Z3_mk_context(c); Z3_del_config(c); for (int i=1;i<=128;i++) bvs[i]=Z3_mk_bv_sort(zc,i);
  Z3_set_error_handler(zc,[](Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(4); }); }
static void z_reset() { zs=Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,"QF_BV")); Z3_solver_inc_ref(zc,zs); Z3_params p=Z3_mk_params(zc); Z3_params_inc_ref(zc,p); Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"timeout"),60000); Z3_solver_set_params(zc,zs,p); zs_count=0; }
static Z3_ast zcst(u128 v,u32 w) { if (w<=64) return Z3_mk_unsigned_int64(zc,(u64)v,bvs[w]); return Z3_mk_concat(zc,Z3_mk_unsigned_int64(zc,(u64)(v>>64),bvs[w-64]),Z3_mk_unsigned_int64(zc,(u64)v,bvs[64])); }
static Z3_ast zb2v(Z3_ast b) { return Z3_mk_ite(zc,b,Z3_mk_unsigned_int64(zc,1,bvs[1]),Z3_mk_unsigned_int64(zc,0,bvs[1])); }
static Z3_ast z3of(Expr *e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r; 
  switch (e->k) {
    case E_CONST: r=zcst(e->val,e->w); break;
    case E_VAR: { char b[32]; snprintf(b,32,"v%u",(u32)e->val); r=Z3_mk_const(zc,Z3_mk_string_symbol(zc,b),bvs[e->w]); break; }
    case E_ADD: r=Z3_mk_bvadd(zc,z3of(e->a),z3of(e->b)); break; case E_SUB: r=Z3_mk_bvsub(zc,z3of(e->a),z3of(e->b)); break;
    case E_MUL: r=Z3_mk_bvmul(zc,z3of(e->a),z3of(e->b)); break; case E_UDIV: r=Z3_mk_bvudiv(zc,z3of(e->a),z3of(e->b)); break;
    case E_SDIV: r=Z3_mk_bvsdiv(zc,z3of(e->a),z3of(e->b)); break; case E_UREM: r=Z3_mk_bvurem(zc,z3of(e->a),z3of(e->b)); break; case E_SREM: r=Z3_mk_bvsrem(zc,z3of(e->a),z3of(e->b)); break;
    case E_AND: r=Z3_mk_bvand(zc,z3of(e->a),z3of(e->b)); break; case E_OR: r=Z3_mk_bvor(zc,z3of(e->a),z3of(e->b)); break; case E_XOR: r=Z3_mk_bvxor(zc,z3of(e->a),z3of(e->b)); break;
    case E_SHL: r=Z3_mk_bvshl(zc,z3of(e->a),z3of(e->b)); break; case E_LSHR: r=Z3_mk_bvlshr(zc,z3of(e->a),z3of(e->b)); break; case E_ASHR: r=Z3_mk_bvashr(zc,z3of(e->a),z3of(e->b)); break;
    case E_EQ: r=zb2v(Z3_mk_eq(zc,z3of(e->a),z3of(e->b))); break; case E_ULT: r=zb2v(Z3_mk_bvult(zc,z3of(e->a),z3of(e->b))); break; case E_SLT: r=zb2v(Z3_mk_bvslt(zc,z3of(e->a),z3of(e->b))); break;
    case E_ITE: r=Z3_mk_ite(zc,Z3_mk_eq(zc,z3of(e->a),zcst(1,1)),z3of(e->b),z3of(e->c)); break;
    case E_ZEXT: r=Z3_mk_zero_ext(zc,e->w-e->a->w,z3of(e->a)); break; case E_SEXT: r=Z3_mk_sign_ext(zc,e->w-e->a->w,z3of(e->a)); break;
    case E_EXTRACT: r=Z3_mk_extract(zc,(u32)e->val+e->w-1,(u32)e->val,z3of(e->a)); break;
    case E_CONCAT: r=Z3_mk_concat(zc,z3of(e->a),z3of(e->b)); break;
    case E_TAB: { u32 n=vars[(u32)e->a->val].n; const u64*t=(const u64*)(uintptr_t)(u64)e->val; r=zcst(t[n-1],e->w); Z3_ast x=z3of(e->a); // runs, from the top
      i32 i=n-1; while (i>0) { i32 j=i; while (j>0 && t[j-1]==t[i]) j--; if (j==0) break; r=Z3_mk_ite(zc,Z3_mk_bvult(zc,x,zcst(j,e->a->w)),zcst(t[j-1],e->w),r); /* refined below */ i=j-1; }
      // the chain above is ordered from high thresholds to low ones: rebuild in the right nesting
      r=zcst(t[n-1],e->w); vector<u32> th; for(u32 q=1;q<n;q++) if(t[q]!=t[q-1]) th.push_back(q); for(i32 q=(i32)th.size()-1;q>=0;q--) r=Z3_mk_ite(zc,Z3_mk_bvult(zc,x,zcst(th[q],e->a->w)),zcst(t[th[q]-1],e->w),r);
      break; }
    default: abort();
  }
  e->z3=r; return r;
}
static Z3_ast zbool(Expr *c) { return Z3_mk_eq(zc,z3of(c),zcst(1,1)); }
static Z3_ast zdom(u32 v, const Dom &d) {
  u32 n=vars[v].n; Z3_ast x=z3of(vars[v].e); vector<Z3_ast> alts; u32 w=vars[v].w;
  for (u32 i=0;i<n;) { if(!d.has(i)){i++;continue;} u32 j=i; while(j+1<n&&d.has(j+1)) j++; if(i==j) alts.push_back(Z3_mk_eq(zc,x,zcst(i,w))); else { Z3_ast c[2]={Z3_mk_bvule(zc,zcst(i,w),x),Z3_mk_bvule(zc,x,zcst(j,w))}; alts.push_back(Z3_mk_and(zc,2,c)); } i=j+1; }
  return Z3_mk_or(zc,alts.size(),alts.data());
}
struct QRes { int r; vector<pair<u32,u64>> m; };
static unordered_map<u64,QRes> qcache;
static inline u64 hmix(u64 h,u64 v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; return h^(h>>33); }
static void slice(State *s, Expr *q, Mask &m, vector<Expr*> &cs) {
  m=q->m; vector<char> in(s->cons.size(),0); bool ch=true;
  while (ch) { ch=false; for (size_t i=0;i<s->cons.size();i++) if(!in[i]&&s->cons[i]->m.inter(m)) { in[i]=1; m.or_(s->cons[i]->m); ch=true; } }
  for (size_t i=0;i<s->cons.size();i++) if(in[i]) cs.push_back(s->cons[i]);
}
// 1 sat, 0 unsat; model receives values for the slice's variables. whole: use every constraint (certification).
static int zquery(State *s, Expr *q, vector<pair<u32,u64>> *mod, bool whole=false) {
  Mask m; vector<Expr*> cs;
  if (whole) { cs=s->cons; m=q->m; for(auto &i:s->ins) m.set(i.var); } else slice(s,q,m,cs);
  u64 h=hmix(q->id,0x1234);
  if (!whole) { vector<u32> ids; for(auto*c:cs) ids.push_back(c->id); sort(ids.begin(),ids.end()); for(u32 i:ids) h=hmix(h,i); for(u32 v=0;v<vars.size();v++) if(m.has(v)&&vars[v].n) for(u64 b:s->dom[v].b) h=hmix(h,b);
    auto it=qcache.find(h); if(it!=qcache.end()) { S.q_cache++; if(mod) *mod=it->second.m; return it->second.r; } }
  double t=now(); if (!zs || zs_count++>4000) { z_reset(); }
  Z3_solver_push(zc,zs);
  for(auto*c:cs) Z3_solver_assert(zc,zs,zbool(c));
  for(u32 v=0;v<vars.size();v++) if(m.has(v)&&vars[v].n) Z3_solver_assert(zc,zs,zdom(v,s->dom[v]));
  Z3_solver_assert(zc,zs,zbool(q));
  Z3_lbool r=Z3_solver_check(zc,zs); QRes res; res.r= r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:2;
  if (r==Z3_L_TRUE) { S.q_sat++; Z3_model md=Z3_solver_get_model(zc,zs); Z3_model_inc_ref(zc,md);
    for(u32 v=0;v<vars.size();v++) if(m.has(v)) { Z3_ast o; u64 val=0; if(Z3_model_eval(zc,md,z3of(vars[v].e),true,&o)) Z3_get_numeral_uint64(zc,o,&val); res.m.push_back({v,val}); }
    Z3_model_dec_ref(zc,md); }
  else if (r==Z3_L_FALSE) S.q_unsat++; else S.q_unknown++;
  Z3_solver_pop(zc,zs,1); S.zt+=now()-t;
  if (!whole) { if (qcache.size()>400000) qcache.clear(); qcache[h]=res; }
  if(mod) *mod=res.m; return res.r;
}
static Dom tt(Expr *c) { const u64*t=table_of(c); u32 n=vars[c->m.single()].n; Dom d{}; for(u32 i=0;i<n;i++) if(t[i]) d.b[i>>6]|=1ull<<(i&63); return d; }
static unordered_map<Expr*,Dom> ttc;
static const Dom &ttof(Expr *c) { auto it=ttc.find(c); if(it!=ttc.end()) return it->second; if(ttc.size()>2000000) ttc.clear(); return ttc[c]=tt(c); }
static inline Dom dand(const Dom&a,const Dom&b){ return Dom{{a.b[0]&b.b[0],a.b[1]&b.b[1],a.b[2]&b.b[2],a.b[3]&b.b[3]}}; }
// every distinct 'infeasible' answer of the table decision is put to Z3 as well
static u64 certCap=4000; static unordered_set<u64> certDone;
static void dom_cert(State *s, Expr *c, u32 v) {
  if (S.q_domcert>=certCap) return;
  u64 h=hmix(c->id,0x777); for(u64 b:s->dom[v].b) h=hmix(h,b);
  if (!certDone.insert(h).second) return;
  S.q_domcert++; double t=now(); if (!zs || zs_count++>4000) z_reset();
  Z3_solver_push(zc,zs); Z3_solver_assert(zc,zs,zdom(v,s->dom[v])); Z3_solver_assert(zc,zs,zbool(c)); Z3_lbool r=Z3_solver_check(zc,zs); Z3_solver_pop(zc,zs,1); S.zt+=now()-t;
  if (r==Z3_L_FALSE) S.q_unsat++; else if (r==Z3_L_UNDEF) S.q_unknown++; else { fprintf(stderr,"ENGINE ERROR: table decision disagrees with Z3\n"); _exit(5); }
}
// is path ∧ c satisfiable? fills upd with model changes when sat. an unknown answer is counted: the run is then incomplete.
static bool feasible(State *s, Expr *c, vector<pair<u32,u64>> &upd) {
  upd.clear();
  if (is_c(c)) return c->val;
  if (eval(c,s->model.data())) { S.q_model++; return true; }
  if (c->uv) { u32 v=c->m.single(); Dom d=dand(s->dom[v],ttof(c)); S.q_dom++; if(d.empty()) { dom_cert(s,c,v); return false; } if(!s->multi.has(v)) { upd.push_back({v,(u64)d.first()}); return true; } }
  for (Expr *k : s->cons) if (k==c) return true;
  Expr *nc=mk_not(c); for (Expr *k : s->cons) if (k==nc) return false;
  int r=zquery(s,c,&upd); if (r==2) { upd.clear(); fprintf(stderr,"z3 unknown\n"); return false; }
  return r==1;
}
static void add_cons(State *s, Expr *c) {
  if (is_c(c)) return;
  if (c->k==E_AND) { add_cons(s,c->a); add_cons(s,c->b); return; }
  if (c->k==E_XOR && is_c(c->b) && c->a->k==E_OR) { add_cons(s,mk_not(c->a->a)); add_cons(s,mk_not(c->a->b)); return; }
  if (c->uv) { u32 v=c->m.single(); s->dom[v]=dand(s->dom[v],ttof(c)); return; }
  for (Expr *k : s->cons) if (k==c) return;
  s->cons.push_back(c); s->multi.or_(c->m);
}
static void applym(State *s, const vector<pair<u32,u64>> &u) { for(auto &p:u) s->model[p.first]=p.second; }
// ------------------------------------------------------------------ reporting
static string jesc(const string&s){ string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((u8)c<32){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;} else o+=c;} return o; }
static string inputs_json(State *s) { string o="["; for(size_t i=0;i<s->ins.size();i++){ if(i)o+=","; o+="\""+to_string(s->model[s->ins[i].var])+"\""; } return o+"]"; }
static set<string> seenViol;
static void violation(State *s, const string &kind, const string &msg) {
  string key=kind+msg; if(!seenViol.insert(key).second) return;
  u64 kh=std::hash<string>()(key)|1; for(u32 i=0;i<256;i++) { u64 o=__sync_val_compare_and_swap(&sh->vhash[i],0,kh); if(o==kh) return; if(!o) break; }
  u32 n=__sync_fetch_and_add(&sh->nviol,1); if(n>=64) return;
  string bt; for(size_t i=s->st.size();i>0&&s->st.size()-i<14;i--) { if(!bt.empty()) bt+=" <- "; bt+=s->st[i-1]->f->name; }
  FILE *f=fopen((outdir+"/viol-"+to_string(n)+".json").c_str(),"w");
  fprintf(f,"{\"entry\":\"%s\",\"params\":[",entry.c_str()); for(size_t i=0;i<params.size();i++) fprintf(f,"%s%llu",i?",":"",(unsigned long long)params[i]);
  fprintf(f,"],\"kind\":\"%s\",\"msg\":\"%s\",\"inputs\":%s,\"stack\":\"%s\"}\n",kind.c_str(),jesc(msg).c_str(),inputs_json(s).c_str(),jesc(bt).c_str()); fclose(f);
  if(verbose) fprintf(stderr,"VIOL %s %s inputs=%s\n   %s\n",kind.c_str(),msg.c_str(),inputs_json(s).c_str(),bt.c_str());
  if(n+1>=MAXVIOL) sh->stop=1;
}
// ------------------------------------------------------------------ worklist
static vector<State*> work;
static u64 splitCheck=0; static double lastSplit=0; static vector<pid_t> kids; static bool isChild=false;
static void child_reset() { S=Stats(); kids.clear(); isChild=true; unsupMsgs.clear(); for(u32 i=0;;i++){ Func*f=func_by_index(i); if(!f)break; f->hits=0; } seenViol.clear(); }
static void maybe_split(bool runningExtra) {
  if (work.size()+(runningExtra?1:0) < 2 || work.empty()) return;
  int a=sh->active; if (a>=MAXW) return;
  double t=now(); if (t-lastSplit<0.02) return; lastSplit=t;
  if (!__sync_bool_compare_and_swap(&sh->active,a,a+1)) return;
  size_t n=work.size(), h=(n+1)/2;
  fflush(stdout); fflush(stderr);
  pid_t p=fork();
  if (p<0) { __sync_fetch_and_sub(&sh->active,1); return; }
  if (p==0) { child_reset(); // keep the oldest half, drop the rest (and the state in progress)
    work.resize(h); lastSplit=now(); throw 1; }
  kids.push_back(p); work.erase(work.begin(),work.begin()+h);
}
// ------------------------------------------------------------------ interpreter
struct Abort {}; // current path ends
static State *cs; // current state
static Frame *fr; static Val *R; static const Inst *ip; static Func *fn;
static inline Frame *top() { Frame *f=cs->st.back(); if (f->rc>1) { f=frame_clone(f); cs->st.back()=f; } return f; }
static void sync_in() { fr=top(); R=fr->r; fn=fr->f; ip=fn->code.data()+fr->pc; }
static inline void sync_out() { fr->pc=ip-fn->code.data(); }
static inline Val getv(i32 i, u32 w) { if (i>=0) return R[i]; const CV &c=fn->pool[-1-i]; if (w>64) return Val{0,mk_const(((u128)c.hi<<64)|c.lo,w)}; return Val{c.lo,nullptr}; }
#define GV(i) ((i)>=0 ? R[i] : Val{fn->pool[-1-(i)].lo,nullptr})
static inline Expr *E(const Val &v, u32 w) { return v.e ? v.e : mk_const(v.v,w); }
static inline Val V(Expr *e) { if (is_c(e) && e->w<=64) return Val{(u64)e->val,nullptr}; return Val{0,e}; }
static string cur_fn(State *s) { return s->st.empty()?"":s->st.back()->f->name; }
[[noreturn]] static void end_unsup(const string &m) { S.unsup++; unsupMsgs[m+" in "+fn->name]++; if(verbose) fprintf(stderr,"UNSUP %s in %s inputs=%s\n",m.c_str(),fn->name.c_str(),inputs_json(cs).c_str()); throw Abort(); }
[[noreturn]] static void end_viol(const string &k,const string &m){ violation(cs,k,m); throw Abort(); }
static void push_fork(State *n) { S.forks++; work.push_back(n); }
// Fork the current state at the current instruction under constraint c (re-executes the instruction).
static State *fork_here(Expr *c, const vector<pair<u32,u64>> &upd) { sync_out(); State *n=new State(*cs); // frames now shared
  // the running frame pointer may have become shared: re-own it
  fr=top(); R=fr->r; add_cons(n,c); applym(n,upd); n->depth++; return n; }
static bool known_single(Expr *e, u64 &v) {
  for (auto &p : cs->fixed) if (p.first==e) { v=p.second; return true; }
  if (e->uv) { u32 x=e->m.single(); const u64*t=table_of(e); const Dom&d=cs->dom[x]; bool first=true; u64 r=0; for(int q=0;q<4;q++){ u64 b=d.b[q]; while(b){ int i=q*64+__builtin_ctzll(b); b&=b-1; if(first){r=t[i];first=false;} else if(t[i]!=r) return false; } } if(!first){ v=r; return true; } }
  return false;
}
// make e concrete on this path, forking over its feasible values
static u64 concretize(Expr *e) {
  u64 v; if (is_c(e)) return (u64)e->val;
  if (known_single(e,v)) return v;
  if (e->w>64) end_unsup("concretize wide value");
  vector<pair<u32,u64>> upd; vector<pair<u64,vector<pair<u32,u64>>>> alts;
  u64 v0=(u64)eval(e,cs->model.data());
  Expr *rest=mk_not(mk_eq(e,mk_const(v0,e->w)));
  if (e->uv && !cs->multi.has(e->m.single())) { u32 x=e->m.single(); const u64*t=table_of(e); const Dom&d=cs->dom[x]; set<u64> seen{v0}; for(u32 i=0;i<vars[x].n;i++) if(d.has(i)&&seen.insert(t[i]).second) { S.q_dom++; alts.push_back({t[i],{{x,(u64)i}}}); } }
  else while (feasible(cs,rest,upd)) { vector<u64> m2=cs->model; for(auto&p:upd) m2[p.first]=p.second; u64 v1=(u64)eval(e,m2.data()); alts.push_back({v1,upd}); if (alts.size()>maxEnum) end_unsup("too many feasible values"); rest=mk_bin(E_AND,rest,mk_not(mk_eq(e,mk_const(v1,e->w)))); }
  for (auto &a : alts) { Expr *q=mk_eq(e,mk_const(a.first,e->w)); State *n=fork_here(q,a.second); if(!e->uv) n->fixed.push_back({e,a.first}); push_fork(n); }
  add_cons(cs,mk_eq(e,mk_const(v0,e->w))); if(!e->uv) cs->fixed.push_back({e,v0});
  return v0;
}
static inline u64 conc(i32 i) { Val v=GV(i); if (!v.e) return v.v; u64 x=concretize(v.e); if(i>=0) R[i]=Val{x,nullptr}; return x; }
static string hex(u64 v){ char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)v); return b; }
static inline Obj *robj(u64 a, u64 n) { u32 id=a>>32, off=(u32)a; Obj *o=cs->mem.get(id); if (__builtin_expect(!o || (u64)off+n>o->size,0)) end_viol("memory","invalid read of "+to_string(n)+" at "+hex(a)+" in "+fn->name); return o; }
static inline Obj *wobj(u64 a, u64 n) { u32 id=a>>32, off=(u32)a; Obj *o=cs->mem.get(id); if (__builtin_expect(!o || (u64)off+n>o->size,0)) end_viol("memory","invalid write of "+to_string(n)+" at "+hex(a)+" in "+fn->name); if (o->ro) end_viol("memory","write to constant in "+fn->name); return cs->mem.getw(id); }
static inline Expr *symbyte(Expr *p) { Expr *e=(Expr*)((uintptr_t)p & ~15ull); u32 i=(uintptr_t)p&15; return e->w==8? e : e->w<8 ? mk_zext(e,8) : mk_extract(e->w%8? mk_zext(e,(e->w+7)/8*8):e, i*8, 8); }
static Val load(u64 a, u32 w) {
  u32 n=(w+7)/8; Obj *o=robj(a,n); u32 off=(u32)a; const u8 *p=o->data+off;
  if (o->sym) { Expr **q=o->sym+off; bool any=false; for(u32 i=0;i<n;i++) if(q[i]) { any=true; break; }
    if (any) {
      Expr *e0=(Expr*)((uintptr_t)q[0]&~15ull); bool same = e0 && ((uintptr_t)q[0]&15)==0 && (e0->w+7u)/8==n;
      if (same) for(u32 i=1;i<n;i++) if ((uintptr_t)q[i]!=((uintptr_t)e0|i)) { same=false; break; }
      if (same && e0->w==w) return Val{0,e0};
      Expr *r=nullptr; for(u32 i=0;i<n;i++) { Expr *b=q[i]?symbyte(q[i]):mk_const(p[i],8); r=r?mk_concat(b,r):b; }
      if (r->w!=w) r=mk_extract(r,0,w); return V(r);
    } }
  switch(n){ case 1: return Val{(u64)(w==1?p[0]&1:p[0]),nullptr}; case 2: { u16 x; memcpy(&x,p,2); return Val{x,nullptr}; } case 4: { u32 x; memcpy(&x,p,4); return Val{x,nullptr}; } case 8: { u64 x; memcpy(&x,p,8); return Val{x&mask64(w),nullptr}; } }
  if (n<8) { u64 x=0; memcpy(&x,p,n); return Val{x&mask64(w),nullptr}; }
  u128 x=0; memcpy(&x,p,n); return Val{0,mk_const(x,w)};
}
static void store(u64 a, u32 w, const Val &v) {
  u32 n=(w+7)/8; Obj *o=wobj(a,n); u32 off=(u32)a; u8 *p=o->data+off;
  if (!v.e) { memcpy(p,&v.v,n); if(o->sym) memset(o->sym+off,0,n*sizeof(Expr*)); return; }
  if (is_c(v.e)) { u128 x=v.e->val; memcpy(p,&x,n); if(o->sym) memset(o->sym+off,0,n*sizeof(Expr*)); return; }
  if (!o->sym) { o->sym=(Expr**)calloc(o->size?o->size:1,sizeof(Expr*)); }
  Expr *e=v.e; if (e->w%8) e=mk_zext(e,n*8);
  if (e->k==E_CONCAT || e->k==E_ZEXT) { for(u32 i=0;i<n;i++) { Expr *b=mk_extract(e,i*8,8); if(is_c(b)) { p[i]=(u8)b->val; o->sym[off+i]=nullptr; } else if (b->k==E_EXTRACT && b->val%8==0 && b->val/8<16) o->sym[off+i]=(Expr*)((uintptr_t)b->a | (u32)(b->val/8)); else o->sym[off+i]=b; } 
    if (n==1||e->k==E_ZEXT) { // keep whole-value identity so that reloads are cheap
    } return; }
  for(u32 i=0;i<n;i++) o->sym[off+i]=(Expr*)((uintptr_t)e|i);
}
// symbolic address: single small variable and all-concrete bytes -> table; otherwise fork over addresses
static Val load_sym(i32 areg, Expr *ae, u64 disp, u32 w) {
  u64 sv; if (known_single(ae,sv)) { if(areg>=0) R[areg]=Val{sv,nullptr}; return load(sv+disp,w); }
  if (ae->uv && w<=64) { u32 x=ae->m.single(); const u64*t=table_of(ae); u32 n=vars[x].n; u64 tb[256]; bool ok=true; u32 nb=(w+7)/8;
    for(u32 i=0;i<n&&ok;i++) { tb[i]=0; if(!cs->dom[x].has(i)) continue; u64 a=t[i]+disp; Obj*o=cs->mem.get(a>>32); if(!o||(u64)(u32)a+nb>o->size) { ok=false; break; } if(o->sym) for(u32 k=0;k<nb;k++) if(o->sym[(u32)a+k]) { ok=false; break; } if(!ok) break; u64 v=0; memcpy(&v,o->data+(u32)a,nb); tb[i]=v&mask64(w); }
    if (ok) { // canonical padding outside the domain: repeat a neighbour so that runs stay long
      u64 last=0; bool have=false; for(u32 i=0;i<n;i++) if(cs->dom[x].has(i)){ last=tb[i]; have=true; break; } (void)have; for(u32 i=0;i<n;i++) if(cs->dom[x].has(i)) last=tb[i]; else tb[i]=last;
      return V(mk_tab(vars[x].e,tb,w)); } }
  u64 a=concretize(ae); if(areg>=0) R[areg]=Val{a,nullptr}; return load(a+disp,w);
}
static u64 memcpyLimit=1u<<28;
static void do_memcpy(u64 d,u64 s,u64 n) {
  if (!n) return; if(n>memcpyLimit) end_viol("memory","huge memcpy");
  robj(s,n); Obj *o=wobj(d,n); Obj *q=cs->mem.get(s>>32); u32 so=(u32)s,dof=(u32)d;
  memmove(o->data+dof,q->data+so,n);
  if (q->sym) { bool any=false; for(u64 i=0;i<n;i++) if(q->sym[so+i]) { any=true; break; }
    if (any && !o->sym) o->sym=(Expr**)calloc(o->size?o->size:1,sizeof(Expr*));
    if (o->sym) { if (any) memmove(o->sym+dof,q->sym+so,n*sizeof(Expr*)); else memset(o->sym+dof,0,n*sizeof(Expr*)); } }
  else if (o->sym) memset(o->sym+dof,0,n*sizeof(Expr*));
}
static Val ld8(u64 a){ return load(a,8); }
static Val cmpmem(u64 a,u64 b,u64 n,bool eqonly) {
  if(!n) return Val{0,nullptr}; Obj*x=robj(a,n),*y=robj(b,n);
  if (!x->sym && !y->sym) { int r=memcmp(x->data+(u32)a,y->data+(u32)b,n); return Val{(u64)(u32)(r<0?-1:r>0?1:0),nullptr}; }
  if (eqonly) { Expr *c=mk_const(1,1); for(u64 i=0;i<n;i++){ Val p=ld8(a+i),q=ld8(b+i); if(!p.e&&!q.e){ if(p.v!=q.v) return Val{1,nullptr}; continue; } c=mk_bin(E_AND,c,mk_eq(E(p,8),E(q,8))); if(is_c(c)&&!c->val) return Val{1,nullptr}; } return V(mk_zext(mk_not(c),32)); }
  Expr *r=mk_const(0,32); for(u64 i=n;i-->0;) { Val p=ld8(a+i),q=ld8(b+i); if(!p.e&&!q.e) { if(p.v==q.v) continue; r=mk_const(p.v<q.v?0xffffffffu:1,32); continue; } Expr*x=E(p,8),*y=E(q,8); r=mk_ite(mk_eq(x,y),r,mk_ite(mk_bin(E_ULT,x,y),mk_const(0xffffffffu,32),mk_const(1,32))); }
  return V(r);
}
// decide a condition, forking when both outcomes are possible. The forked state resumes with `other` applied.
static inline void do_edge(u32 ei) {
  const Edge &e=fn->edges[ei];
  if (!e.moves.empty()) {
    if (!e.par) for (auto &m : e.moves) { i32 s=m.second; if (s>=0) R[m.first]=R[s]; else { const CV&c=fn->pool[-1-s]; u8 w=fn->poolw[-1-s]; R[m.first]= w>64? Val{0,mk_const(((u128)c.hi<<64)|c.lo,w)} : Val{c.lo,nullptr}; } }
    else { Val tmp[256]; size_t n=e.moves.size(); vector<Val> big; Val*t=tmp; if(n>256){big.resize(n);t=big.data();} for(size_t i=0;i<n;i++){ i32 s=e.moves[i].second; if(s>=0) t[i]=R[s]; else { const CV&c=fn->pool[-1-s]; u8 w=fn->poolw[-1-s]; t[i]= w>64? Val{0,mk_const(((u128)c.hi<<64)|c.lo,w)} : Val{c.lo,nullptr}; } } for(size_t i=0;i<n;i++) R[e.moves[i].first]=t[i]; }
  }
  ip=fn->code.data()+e.target;
}
// returns the truth value taken on this path; forks the other one to re-execute the current instruction
static bool branch(Expr *c) {
  if (is_c(c)) return c->val;
  bool mv=eval(c,cs->model.data())!=0; Expr *oth= mv? mk_not(c) : c; Expr *me= mv? c : mk_not(c);
  vector<pair<u32,u64>> upd;
  if (feasible(cs,oth,upd)) { State *n=fork_here(oth,upd); push_fork(n); add_cons(cs,me); }
  return mv;
}
static void enter(Func *g, const i32 *args, u32 n, i32 dst, u32 nret) {
  if (!g->lowered) lower(g); g->hits++;
  if (cs->st.size()>20000) end_viol("stack","call depth above 20000 in "+g->name);
  Frame *f=new Frame(); f->rc=1; f->f=g; f->pc=0; f->ret=dst; f->nret=nret; f->r=(Val*)malloc(sizeof(Val)*(g->nregs+1));
  u32 k=min(n,g->nargs); for(u32 i=0;i<k;i++) { i32 a=args[i]; if(a>=0) f->r[i]=R[a]; else { const CV&c=fn->pool[-1-a]; u8 w=fn->poolw[-1-a]; f->r[i]= w>64? Val{0,mk_const(((u128)c.hi<<64)|c.lo,w)} : Val{c.lo,nullptr}; } }
  for(u32 i=k;i<g->nargs;i++) f->r[i]=Val{0,nullptr};
  ip++; sync_out(); cs->st.push_back(f); fr=f; R=f->r; fn=g; ip=g->code.data();
}
// ------------------------------------------------------------------ builtins
enum BI { B_ALLOC, B_ALLOCZ, B_DEALLOC, B_REALLOC, B_MEMCMP, B_BCMP, B_MEMCHR, B_STRLEN, B_RET0, B_CLOCK, B_SYM, B_RANGE, B_ASSUME, B_ASSERT, B_OBS, B_REACH, B_PARAM, B_CONC, B_PANIC, B_EXPECT, B_RANDKEYS, B_SIPFIN, B_GETENV, B_MEMCHRX, B_MEMRCHR, B_SHIFT, B_ISSYM, B_PRINT, B_ERRNO, B_RET1, B_MEMCPYF, B_MEMSETF, B_CASES, B_PSELF, B_HALT, B_SYSCALL, B_GETRANDOM };
static const map<string,int> exactB = {
  {"__rust_alloc",B_ALLOC},{"__rust_alloc_zeroed",B_ALLOCZ},{"__rust_dealloc",B_DEALLOC},{"__rust_realloc",B_REALLOC},
  {"memcmp",B_MEMCMP},{"bcmp",B_BCMP},{"memchr",B_MEMCHR},{"strlen",B_STRLEN},{"memcpy",B_MEMCPYF},{"memmove",B_MEMCPYF},{"memset",B_MEMSETF},
  {"pthread_mutex_lock",B_RET0},{"pthread_mutex_unlock",B_RET0},{"pthread_mutex_trylock",B_RET0},{"pthread_mutex_init",B_RET0},{"pthread_mutex_destroy",B_RET0},{"pthread_mutexattr_init",B_RET0},{"pthread_mutexattr_settype",B_RET0},{"pthread_mutexattr_destroy",B_RET0},
  {"pthread_rwlock_rdlock",B_RET0},{"pthread_rwlock_wrlock",B_RET0},{"pthread_rwlock_unlock",B_RET0},{"pthread_cond_init",B_RET0},{"pthread_cond_signal",B_RET0},{"pthread_cond_broadcast",B_RET0},{"pthread_condattr_init",B_RET0},{"pthread_condattr_setclock",B_RET0},{"pthread_condattr_destroy",B_RET0},{"pthread_cond_destroy",B_RET0},
  {"dlsym",B_RET0},{"getenv",B_RET0},{"clock_gettime",B_CLOCK},{"__errno_location",B_ERRNO},{"pthread_self",B_RET1},{"syscall",B_SYSCALL},{"getrandom",B_GETRANDOM},
  {"vh_sym",B_SYM},{"vh_range",B_RANGE},{"vh_assume",B_ASSUME},{"vh_assert",B_ASSERT},{"vh_obs",B_OBS},{"vh_reach",B_REACH},{"vh_param",B_PARAM},{"vh_conc",B_CONC},{"vh_expect_panic",B_EXPECT},{"vh_shift",B_SHIFT},{"vh_is_symbolic",B_ISSYM},{"vh_print",B_PRINT},{"vh_halt",B_HALT},
  {"__cxa_thread_atexit_impl",B_RET0},{"write",B_RET0},{"close",B_RET0},{"isatty",B_RET0},
};
static const char *panicPre[] = { "_ZN4core9panicking", "_ZN3std9panicking11begin_panic", "_ZN3std9panicking15begin_panic_fmt", "_ZN3std9panicking20rust_panic_with_hook", "_ZN3std9panicking19begin_panic_handler", "rust_begin_unwind", "_ZN4core5slice5index26slice_start_index_len_fail", "_ZN4core5slice5index24slice_end_index_len_fail", "_ZN4core5slice5index22slice_index_order_fail", "_ZN4core5slice5index31slice_start_index_overflow_fail","_ZN4core5slice5index29slice_end_index_overflow_fail", "_ZN4core3str16slice_error_fail", "_ZN4core6option13expect_failed", "_ZN4core6option18expect_none_failed", "_ZN4core6result13unwrap_failed", "_ZN5alloc7raw_vec17capacity_overflow", "_ZN5alloc5alloc18handle_alloc_error", "__rust_alloc_error_handler", "abort", "_ZN3std7process5abort", "_ZN3std10sys_common9backtrace26__rust_end_short_backtrace", "_ZN4core4cell", "__rust_start_panic", "rust_oom", "_ZN3std2rt16abort_internal" };
bool is_panic_fn(const string &n) {
  if (n.rfind("_ZN4core4cell",0)==0) return n.find("panic_")!=string::npos;
  if (n.rfind("_ZN4core9panicking",0)==0) return n.find("Location")==string::npos;
  if (n.rfind("abort",0)==0) return n=="abort";
  for (auto p : panicPre) if (n.rfind(p,0)==0) return true;
  return false;
}
static const pair<const char*,int> prefB[] = { {"_ZN3std3sys4unix4rand19hashmap_random_keys",B_RANDKEYS}, {"_ZN6memchr6memchr3imp6memchr",B_MEMCHRX}, {"_ZN6memchr3imp6memchr17h",B_MEMCHRX},{"_ZN4core5slice6memchr6memchr17h",B_MEMCHRX},{"_ZN4core5slice6memchr19memchr_general_case17h",B_MEMCHRX},{"_ZN4core5slice6memchr14memchr_aligned17h",B_MEMCHRX}, {"_ZN6memchr6memchr17h",B_MEMCHRX},{"_ZN4core5slice6memchr7memrchr17h",B_MEMRCHR},
  {"_ZN3std3sys4unix17thread_local_dtor13register_dtor",B_RET0},{"_ZN3std10sys_common17thread_local_dtor",B_RET0},{"_ZN3std2io5stdio6_print",B_RET0},{"_ZN3std2io5stdio7_eprint",B_RET0},{"_ZN3std10sys_common2io",B_RET0}, {"_ZN3std3env7_var_os",-100} };
int builtin_id(const string &n) {
  auto it=exactB.find(n); if(it!=exactB.end()) return it->second;
  if (is_panic_fn(n)) return B_PANIC;
  for (auto &p : prefB) if (p.second>=0 && n.rfind(p.first,0)==0) return p.second;
  return -1;
}
bool exact_builtin(const string &n) { return exactB.count(n)>0; }
bool is_cut_fn(const string &n) {
  if (n.rfind("vh_",0)==0) return false;
  // a harness with a model of the file system brings its own
  if (n=="dlsym"||n=="__errno_location") return false;
  if (exactB.count(n)) return true;
  for (auto &p : prefB) if (p.second>=0 && n.rfind(p.first,0)==0) return true;
  // SipHash finish: see B_SIPFIN (constant hash is one of the hashers std permits)
  return false;
}
static string rdstr(u64 p,u64 n) { string s; if(n>300) n=300; Obj*o=cs->mem.get(p>>32); if(!o) return "?"; for(u64 i=0;i<n&&(u32)p+i<o->size;i++) { if (o->sym&&o->sym[(u32)p+i]) s+='?'; else s+=(char)o->data[(u32)p+i]; } return s; }
static string location(u64 a) { Obj*o=cs->mem.get(a>>32); if(!o||(u32)a+24>o->size||o->size<24) return ""; u64 p,n; u32 l,c; memcpy(&p,o->data+(u32)a,8); memcpy(&n,o->data+(u32)a+8,8); memcpy(&l,o->data+(u32)a+16,4); memcpy(&c,o->data+(u32)a+20,4); if(n>400||n==0||!cs->mem.get(p>>32)) return ""; string f=rdstr(p,n); if (f.find(".rs")==string::npos) return ""; return f+":"+to_string(l)+":"+to_string(c); }
static map<pair<pair<u32,u32>,pair<u32,u32>>,u32> varIds;
static u64 mkinput(u32 w,u32 n, Val &out) {
  u32 seq=cs->ins.size(); auto k=make_pair(make_pair(seq,w),make_pair(n,0u)); auto it=varIds.find(k); u32 id; if(it==varIds.end()) { Expr*e=mk_var(w,n); id=(u32)e->val; varIds[k]=id; } else id=it->second;
  if (cs->model.size()<vars.size()) { cs->model.resize(MAXVARS,0); cs->dom.resize(MAXVARS,Dom{}); }
  Dom d{}; for(u32 i=0;i<n;i++) d.b[i>>6]|=1ull<<(i&63); cs->dom[id]=d; cs->model[id]=0; cs->ins.push_back({id,w,n}); if(cs->ins.size()==1) cs->symInst0=cs->ninst; out=Val{0,vars[id].e}; return 0;
}
struct PathEnd { bool normal=true; };
static void ret_builtin(const Inst &I, Val v) { if (I.w && I.d>=0) { R[I.d]=v; for(u32 i=1;i<I.w;i++) R[I.d+i]=Val{0,nullptr}; } ip++; }
static void builtin(const Inst &I) {
  Func *g=func_by_index((u32)I.imm); g->hits++;
  const i32 *a=&fn->ext[I.a+1]; u32 n=fn->ext[I.a];
  switch (g->bid) {
    case B_ALLOC: case B_ALLOCZ: { u64 sz=conc(a[0]); if (sz>(1u<<30)) end_viol("memory","allocation of "+to_string(sz)); u32 id=cs->mem.alloc((u32)sz); ret_builtin(I,Val{(u64)id<<32,nullptr}); return; }
    case B_DEALLOC: { u64 p=conc(a[0]); if(!cs->mem.get(p>>32)||(u32)p) end_viol("memory","bad free in "+fn->name); cs->mem.release(p>>32); ip++; return; }
    case B_REALLOC: { u64 p=conc(a[0]), ns=conc(a[3]); Obj*o=cs->mem.get(p>>32); if(!o||(u32)p) end_viol("memory","bad realloc in "+fn->name); u64 os=o->size; u32 id=cs->mem.alloc((u32)ns); u64 q=(u64)id<<32; do_memcpy(q,p,min(os,ns)); cs->mem.release(p>>32); ret_builtin(I,Val{q,nullptr}); return; }
    case B_MEMCMP: case B_BCMP: { u64 x=conc(a[0]),y=conc(a[1]),l=conc(a[2]); ret_builtin(I,cmpmem(x,y,l,g->bid==B_BCMP)); return; }
    case B_MEMCHR: { u64 p=conc(a[0]); u64 c=conc(a[1])&255; u64 l=conc(a[2]); for(u64 i=0;i<l;i++){ Val b=ld8(p+i); bool hit; if(b.e) hit=branch(mk_eq(b.e,mk_const(c,8))); else hit=b.v==c; if(hit){ ret_builtin(I,Val{p+i,nullptr}); return; } } ret_builtin(I,Val{0,nullptr}); return; }
    case B_MEMCHRX: case B_MEMRCHR: { // (needle u8, ptr, len) -> Option<usize>
      Val nv=GV(a[0]); u64 p=conc(a[1]),l=conc(a[2]); bool rev=g->bid==B_MEMRCHR; Val d{0,nullptr}; bool found=false; u64 pos=0;
      for(u64 k=0;k<l;k++){ u64 i=rev?l-1-k:k; Val b=ld8(p+i); bool hit; if(b.e||nv.e) hit=branch(mk_eq(E(b,8),E(nv,8))); else hit=b.v==(nv.v&255); if(hit){found=true;pos=i;break;} }
      R[I.d]=Val{found?1ull:0,nullptr}; R[I.d+1]=Val{pos,nullptr}; (void)d; ip++; return; }
    case B_STRLEN: { u64 p=conc(a[0]); u64 i=0; for(;;i++){ Val b=ld8(p+i); u64 x=b.e?concretize(b.e):b.v; if(!x) break; } ret_builtin(I,Val{i,nullptr}); return; }
    case B_MEMCPYF: { u64 d=conc(a[0]); do_memcpy(d,conc(a[1]),conc(a[2])); ret_builtin(I,Val{d,nullptr}); return; }
    case B_MEMSETF: { u64 d=conc(a[0]); Val c=GV(a[1]); u64 l=conc(a[2]); if(c.e) c=V(mk_extract(c.e,0,8)); else c.v&=255; for(u64 i=0;i<l;i++) store(d+i,8,c); ret_builtin(I,Val{d,nullptr}); return; }
    case B_RET0: ret_builtin(I,Val{0,nullptr}); return;
    case B_SYSCALL: case B_GETRANDOM: { u32 o=g->bid==B_SYSCALL?1:0; if(o&&conc(a[0])!=318) end_unsup("syscall "+to_string(conc(a[0]))); u64 p=conc(a[o]),l=conc(a[o+1]); for(u64 i=0;i<l;i++) store(p+i,8,Val{(i*37+11)&255,nullptr}); ret_builtin(I,Val{l,nullptr}); return; }
    case B_RET1: ret_builtin(I,Val{1,nullptr}); return;
    case B_CLOCK: { u64 p=conc(a[1]); u32 t=++cs->clock; store(p,64,Val{1000+t/1000,nullptr}); store(p+8,64,Val{(u64)(t%1000)*1000000,nullptr}); ret_builtin(I,Val{0,nullptr}); return; }
    case B_RANDKEYS: { R[I.d]=Val{1,nullptr}; R[I.d+1]=Val{2,nullptr}; ip++; return; }
    case B_ERRNO: { static u32 id=0; if(!id){} end_unsup("errno"); }
    case B_SYM: { u32 w=(u32)conc(a[0]); Val v; mkinput(w, w<=8?1u<<w:0, v); if(v.e&&w<64) v=V(mk_zext(v.e,64)); ret_builtin(I,v); return; }
    case B_RANGE: { u32 k=(u32)conc(a[0]); if(k<1||k>256) end_unsup("vh_range"); Val v; if(k==1) { mkinput(8,1,v); v=Val{0,nullptr}; } else { mkinput(8,k,v); v=V(mk_zext(v.e,64)); } ret_builtin(I,v); return; }
    case B_CONC: { Val v=GV(a[0]); u64 x=v.e?concretize(v.e):v.v; ret_builtin(I,Val{x,nullptr}); return; }
    case B_ISSYM: { Val v=GV(a[0]); ret_builtin(I,Val{v.e?1ull:0,nullptr}); return; }
    case B_ASSUME: { Val v=GV(a[0]); Expr*c= v.e? (v.e->w==1?v.e:mk_not(mk_eq(v.e,mk_const(0,v.e->w)))):nullptr; if(!c){ if(!v.v){ S.infeasible++; throw Abort(); } } else { vector<pair<u32,u64>> upd; if(!feasible(cs,c,upd)) { S.infeasible++; throw Abort(); } applym(cs,upd); add_cons(cs,c); } ip++; return; }
    case B_ASSERT: { Val v=GV(a[0]); u64 id=conc(a[1]); S.asserts++; Expr*c= v.e? (v.e->w==1?v.e:mk_not(mk_eq(v.e,mk_const(0,v.e->w)))):nullptr;
      if(!c) { if(!v.v) end_viol("assert","assertion "+to_string(id)); }
      else { S.asserts_sym++; vector<pair<u32,u64>> upd; Expr *nc=mk_not(c); bool f; // the verdict on a symbolic assertion is always Z3's
        int r=is_c(nc)?(int)nc->val:zquery(cs,nc,&upd); f=r==1; if(r==2) end_unsup("z3 unknown on assertion");
        if(f) { vector<u64> keep=cs->model; applym(cs,upd); violation(cs,"assert","assertion "+to_string(id)); cs->model=keep; vector<pair<u32,u64>> u2; if(!feasible(cs,c,u2)) throw Abort(); applym(cs,u2); add_cons(cs,c); } }
      ip++; return; }
    case B_OBS: { cs->obs.push_back(GV(a[0])); ip++; return; }
    case B_REACH: { u64 id=conc(a[0]); if(id<256) sh->reach[id]++; ip++; return; }
    case B_PARAM: { u64 i=conc(a[0]); ret_builtin(I,Val{i<params.size()?params[i]:0,nullptr}); return; }
    case B_EXPECT: { cs->expectPanic=conc(a[0]); ip++; return; }
    case B_SHIFT: ip++; return;
    case B_HALT: { ip++; throw PathEnd(); }
    case B_PRINT: { Val p=GV(a[0]); if(verbose) fprintf(stderr,"print %s\n",rdstr(p.v,GV(a[1]).v).c_str()); ip++; return; }
    case B_PANIC: { if(cs->expectPanic) { S.expected_panics++; throw PathEnd{false}; }
      string loc; for(u32 i=n;i-->0&&loc.empty();) { Val v=GV(a[i]); if(!v.e) loc=location(v.v); }
      string msg; if (n>=2 && !GV(a[0]).e && !GV(a[1]).e && GV(a[1]).v<200 && cs->mem.get(GV(a[0]).v>>32)) msg=rdstr(GV(a[0]).v,GV(a[1]).v);
      end_viol("panic",(loc.empty()?fn->name:loc)+(msg.empty()||msg.find('?')!=string::npos?"":" "+msg)); }
  }
  end_unsup("external function "+g->name);
}
#include "step.inc"
