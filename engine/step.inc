// main interpreter loop, path end handling, driver
static Expr *symop(u16 op, Expr *a, Expr *b) {
  switch(op){
    case O_ADD:return mk_bin(E_ADD,a,b);case O_SUB:return mk_bin(E_SUB,a,b);case O_MUL:return mk_bin(E_MUL,a,b);case O_UDIV:return mk_bin(E_UDIV,a,b);case O_SDIV:return mk_bin(E_SDIV,a,b);case O_UREM:return mk_bin(E_UREM,a,b);case O_SREM:return mk_bin(E_SREM,a,b);
    case O_AND:return mk_bin(E_AND,a,b);case O_OR:return mk_bin(E_OR,a,b);case O_XOR:return mk_bin(E_XOR,a,b);case O_SHL:return mk_bin(E_SHL,a,b);case O_LSHR:return mk_bin(E_LSHR,a,b);case O_ASHR:return mk_bin(E_ASHR,a,b);
    case O_EQ:return mk_eq(a,b);case O_NE:return mk_not(mk_eq(a,b));case O_ULT:return mk_bin(E_ULT,a,b);case O_ULE:return mk_ule(a,b);case O_UGT:return mk_bin(E_ULT,b,a);case O_UGE:return mk_ule(b,a);
    case O_SLT:return mk_bin(E_SLT,a,b);case O_SLE:return mk_sle(a,b);case O_SGT:return mk_bin(E_SLT,b,a);case O_SGE:return mk_sle(b,a);
    case O_UMIN:return mk_ite(mk_bin(E_ULT,a,b),a,b);case O_UMAX:return mk_ite(mk_bin(E_ULT,a,b),b,a);case O_SMIN:return mk_ite(mk_bin(E_SLT,a,b),a,b);case O_SMAX:return mk_ite(mk_bin(E_SLT,a,b),b,a);
    case O_USUBS:return mk_ite(mk_bin(E_ULT,a,b),mk_const(0,a->w),mk_bin(E_SUB,a,b));
    case O_UADDS:{ Expr*s=mk_bin(E_ADD,a,b); return mk_ite(mk_bin(E_ULT,s,a),mk_const(maskw(a->w),a->w),s);}
  }
  end_unsup("symbolic op "+to_string(op));
}
static Val fpop(const Inst &I) {
  u64 k=I.imm; u64 a=conc(I.a), b= I.b==I.a?a:conc(I.b);
  auto D=[&](u64 x,u32 w)->double{ if(w==64){double d;memcpy(&d,&x,8);return d;} float f;u32 y=(u32)x;memcpy(&f,&y,4);return f; };
  auto U=[&](double d,u32 w)->u64{ if(w==64){u64 x;memcpy(&x,&d,8);return x;} float f=(float)d;u32 y;memcpy(&y,&f,4);return y; };
  if (k>=16) { double x=D(a,I.w),y=D(b,I.w); bool un=std::isnan(x)||std::isnan(y); u32 p=k-16; bool r=false; // LLVM FCmp predicates: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
    if(un) r=p>>3&1; else r=((p&1)&&x==y)||((p&2)&&x>y)||((p&4)&&x<y); return Val{r,nullptr}; }
  switch(k){ case 0:return Val{U(D(a,I.w)+D(b,I.w),I.w),nullptr};case 1:return Val{U(D(a,I.w)-D(b,I.w),I.w),nullptr};case 2:return Val{U(D(a,I.w)*D(b,I.w),I.w),nullptr};case 3:return Val{U(D(a,I.w)/D(b,I.w),I.w),nullptr};case 4:return Val{U(fmod(D(a,I.w),D(b,I.w)),I.w),nullptr};case 5:return Val{U(-D(a,I.w),I.w),nullptr};
    case 6:return Val{(u64)D(a,I.w)&mask64(I.w2),nullptr};case 7:return Val{(u64)(i64)D(a,I.w)&mask64(I.w2),nullptr};case 8:return Val{U((double)a,I.w2),nullptr};case 9:return Val{U((double)(i64)sx(a,I.w),I.w2),nullptr};case 10:case 11:return Val{U(D(a,I.w),I.w2),nullptr};case 12:return Val{U(fabs(D(a,I.w)),I.w),nullptr}; }
  end_unsup("fp"); 
}
static void fork_edge(Expr *c, const vector<pair<u32,u64>> &upd, u32 ei) { // other state continues along edge ei
  State *n=fork_here(c,upd); State *me=cs; const Inst *mip=ip; cs=n; sync_in(); do_edge(ei); sync_out(); cs=me; fr=cs->st.back(); R=fr->r; fn=fr->f; ip=mip; push_fork(n);
}
static void path_end(bool normal) {
  S.paths++; __sync_fetch_and_add(&sh->paths,1);
  if (certEvery && S.paths%certEvery==1) { vector<pair<u32,u64>> m; int r=zquery(cs,mk_const(1,1),&m,true); S.certs++; if(r==0) { fprintf(stderr,"ENGINE ERROR: completed path has an unsatisfiable condition\n"); _exit(5); } }
  u64 p=S.paths; bool take = p<=3 || (p&(p-1))==0 || p%997==0;
  if (take && sh->samples<NSAMP) { __sync_fetch_and_add(&sh->samples,1);
    FILE *f=fopen((outdir+"/samples-"+to_string(getpid())+".jsonl").c_str(),"a"); fprintf(f,"{\"inputs\":%s,\"panic\":%s,\"obs\":[",inputs_json(cs).c_str(),normal?"false":"true"); for(size_t i=0;i<cs->obs.size();i++){ u64 v=cs->obs[i].e?(u64)eval(cs->obs[i].e,cs->model.data()):cs->obs[i].v; fprintf(f,"%s\"%llu\"",i?",":"",(unsigned long long)v); } fprintf(f,"]}\n"); fclose(f); }
}
static void run_state() {
  sync_in(); u32 budget=4096;
  for(;;) {
    if (--budget==0) { budget=4096; cs->ninst+=4096; S.insts+=4096; if(sh->stop) throw Abort(); if (cs->ninst-cs->symInst0>INSTLIM) { S.limits++; end_viol("limit","instruction limit reached (possible non-termination) in "+fn->name); } if (now()>deadline) { __sync_fetch_and_add(&sh->dropped,1); throw Abort(); } if(!work.empty()) { sync_out(); maybe_split(true); } }
    const Inst &I=*ip;
    switch(I.op) {
#define BINC(OP,EXPR) case OP: { Val x=getv(I.a,I.w),y=getv(I.b,I.w); if(__builtin_expect(!x.e&&!y.e,1)) { u64 a=x.v,b=y.v; (void)a;(void)b; R[I.d]=Val{(EXPR)&mask64(I.w),nullptr}; } else R[I.d]=V(symop(OP,E(x,I.w),E(y,I.w))); ip++; break; }
#define CMPC(OP,EXPR) case OP: { Val x=getv(I.a,I.w),y=getv(I.b,I.w); if(__builtin_expect(!x.e&&!y.e,1)) { u64 a=x.v,b=y.v; i64 sa=(i64)(a<<(64-I.w))>>(64-I.w), sb=(i64)(b<<(64-I.w))>>(64-I.w); (void)sa;(void)sb; R[I.d]=Val{(u64)(EXPR),nullptr}; } else R[I.d]=V(symop(OP,E(x,I.w),E(y,I.w))); ip++; break; }
      BINC(O_ADD,a+b) BINC(O_SUB,a-b) BINC(O_MUL,a*b) BINC(O_AND,a&b) BINC(O_OR,a|b) BINC(O_XOR,a^b)
      BINC(O_SHL,b>=I.w?0:a<<b) BINC(O_LSHR,b>=I.w?0:a>>b) BINC(O_ASHR,(u64)fold(E_ASHR,a,b,I.w))
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { Val x=getv(I.a,I.w),y=getv(I.b,I.w); EK k=I.op==O_UDIV?E_UDIV:I.op==O_SDIV?E_SDIV:I.op==O_UREM?E_UREM:E_SREM;
        if(!x.e&&!y.e) { if(!y.v) end_viol("div","division by zero in "+fn->name); R[I.d]=Val{(u64)fold(k,x.v,y.v,I.w),nullptr}; }
        else { Expr*d=E(y,I.w); if(!is_c(d)) { if(branch(mk_eq(d,mk_const(0,I.w)))) end_viol("div","division by zero in "+fn->name); } R[I.d]=V(mk_bin(k,E(x,I.w),d)); } ip++; break; }
      CMPC(O_EQ,a==b) CMPC(O_NE,a!=b) CMPC(O_ULT,a<b) CMPC(O_ULE,a<=b) CMPC(O_UGT,a>b) CMPC(O_UGE,a>=b) CMPC(O_SLT,sa<sb) CMPC(O_SLE,sa<=sb) CMPC(O_SGT,sa>sb) CMPC(O_SGE,sa>=sb)
      CMPC(O_UMIN,a<b?a:b) CMPC(O_UMAX,a<b?b:a) CMPC(O_SMIN,sa<sb?a:b) CMPC(O_SMAX,sa<sb?b:a) CMPC(O_USUBS,a<b?0:a-b)
      BINC(O_UADDS,(((u128)a+b)>mask64(I.w)?mask64(I.w):a+b))
      case O_SADDS: case O_SSUBS: { Val x=getv(I.a,I.w),y=getv(I.b,I.w); i64 a=(i64)sx(conc(I.a),I.w),b=(i64)sx(conc(I.b),I.w); (void)x;(void)y; i128 r=I.op==O_SADDS?(i128)a+b:(i128)a-b; i128 mx=((i128)1<<(I.w-1))-1,mn=-((i128)1<<(I.w-1)); if(r>mx)r=mx; if(r<mn)r=mn; R[I.d]=Val{(u64)r&mask64(I.w),nullptr}; ip++; break; }
      case O_MOV: R[I.d]=getv(I.a,I.w); ip++; break;
      case O_SELECT: { Val c=GV(I.a); bool t; if(!c.e) t=c.v; else { Val x=getv(I.b,I.w),y=getv(I.c,I.w); if(!I.w2 || (!x.e&&!y.e&&x.v==y.v)) { R[I.d]=V(mk_ite(c.e,E(x,I.w),E(y,I.w))); ip++; break; } t=branch(c.e); } R[I.d]=t?getv(I.b,I.w):getv(I.c,I.w); ip++; break; }
      case O_TRUNC: { Val x=getv(I.a,I.w); R[I.d]= x.e? V(mk_extract(x.e,0,I.w2)) : Val{x.v&mask64(I.w2),nullptr}; ip++; break; }
      case O_ZEXT: { Val x=getv(I.a,I.w); if(!x.e&&I.w2<=64) R[I.d]=x; else R[I.d]=V(mk_zext(E(x,I.w),I.w2)); ip++; break; }
      case O_SEXT: { Val x=getv(I.a,I.w); if(!x.e&&I.w2<=64) R[I.d]=Val{((u64)((i64)(x.v<<(64-I.w))>>(64-I.w)))&mask64(I.w2),nullptr}; else R[I.d]=V(mk_sext(E(x,I.w),I.w2)); ip++; break; }
      case O_LOAD: { Val a=GV(I.a); if(!a.e) R[I.d]=load(a.v+I.imm,I.w); else { Val v=load_sym(I.a,a.e,I.imm,I.w); R[I.d]=v; } ip++; break; }
      case O_STORE: { u64 a=conc(I.a); store(a+I.imm,I.w,getv(I.b,I.w)); ip++; break; }
      case O_GEPC: { Val a=GV(I.a); R[I.d]= a.e? V(mk_bin(E_ADD,a.e,mk_const(I.imm,64))) : Val{a.v+I.imm,nullptr}; ip++; break; }
      case O_GEPV: { Val a=GV(I.a),x=getv(I.b,I.w); if(!a.e&&!x.e) { R[I.d]=Val{a.v+(u64)((i64)(x.v<<(64-I.w))>>(64-I.w))*I.imm,nullptr}; } else { Expr*ix=E(x,I.w); if(I.w<64) ix=mk_sext(ix,64); else if (I.w>64) ix=mk_extract(ix,0,64); R[I.d]=V(mk_bin(E_ADD,E(a,64),mk_bin(E_MUL,ix,mk_const(I.imm,64)))); } ip++; break; }
      case O_BR: do_edge((u32)I.imm); break;
      case O_CBR: { Val c=GV(I.a); u32 e1=I.b,e2=I.c; e2=(u32)I.c; if(!c.e) { do_edge(c.v?e1:e2); break; }
        bool mv=eval(c.e,cs->model.data())!=0; Expr*oth=mv?mk_not(c.e):c.e,*me=mv?c.e:mk_not(c.e); vector<pair<u32,u64>> upd; u32 mye=mv?e1:e2, oe=mv?e2:e1;
        if(feasible(cs,oth,upd)) { fork_edge(oth,upd,oe); add_cons(cs,me); if(I.a>=0) {} }
        do_edge(mye); break; }
      case O_SWITCH: { const i32 *l=&fn->ext[I.b]; u32 n=l[0]; Val c=getv(I.a,I.w); u32 e=l[1];
        if(!c.e) { for(u32 i=2;i<n;i+=2) if(fn->pool[-1-l[i]].lo==c.v) { e=l[i+1]; break; } do_edge(e); break; }
        if(I.w>64) end_unsup("wide switch");
        vector<pair<u32,Expr*>> groups; Expr *any=mk_const(0,1); for(u32 i=2;i<n;i+=2) { Expr*q=mk_eq(c.e,mk_const(fn->pool[-1-l[i]].lo,I.w)); any=mk_bin(E_OR,any,q); bool f=false; for(auto&g:groups) if(g.first==(u32)l[i+1]) { g.second=mk_bin(E_OR,g.second,q); f=true; break; } if(!f) groups.push_back({(u32)l[i+1],q}); }
        groups.push_back({(u32)l[1],mk_not(any)}); i32 mine=-1; 
        for(size_t g=0;g<groups.size();g++) if(is_c(groups[g].second)?(bool)groups[g].second->val:eval(groups[g].second,cs->model.data())!=0) { mine=g; break; }
        for(size_t g=0;g<groups.size();g++) if((i32)g!=mine) { vector<pair<u32,u64>> upd; if(feasible(cs,groups[g].second,upd)) fork_edge(groups[g].second,upd,groups[g].first); }
        add_cons(cs,groups[mine].second); do_edge(groups[mine].first); break; }
      case O_CALL: { Func*g=func_by_index((u32)I.imm); enter(g,&fn->ext[I.a+1],fn->ext[I.a],I.d,I.w); break; }
      case O_ICALL: { u64 t=conc(I.b); Func*g=(t>>32)>=FN_BASE?func_by_index((u32)((t>>32)-FN_BASE)):nullptr; if(!g||(u32)t) end_viol("memory","bad call target in "+fn->name); if(g->builtin) { Inst J=I; J.imm=g->idx; const Inst*save=ip; Inst tmp=J; builtin(tmp); (void)save; } else enter(g,&fn->ext[I.a+1],fn->ext[I.a],I.d,I.w); break; }
      case O_BUILTIN: builtin(I); break;
      case O_RET: { const i32*l=&fn->ext[I.a]; u32 n=l[0]; Val tmp[64]; if(n>64) end_unsup("big return"); for(u32 i=0;i<n;i++){ i32 q=l[1+i]; if(q>=0) tmp[i]=R[q]; else { const CV&c=fn->pool[-1-q]; u8 w=fn->poolw[-1-q]; tmp[i]=w>64?Val{0,mk_const(((u128)c.hi<<64)|c.lo,w)}:Val{c.lo,nullptr}; } }
        for(u32 id:fr->allocas) cs->mem.release(id);
        i32 d=fr->ret; u32 nr=fr->nret; Frame*old=fr; cs->st.pop_back(); if(--old->rc==0) { free(old->r); delete old; }
        if(cs->st.empty()) throw PathEnd();
        sync_in(); for(u32 i=0;i<n&&i<nr;i++) R[d+i]=tmp[i]; break; }
      case O_UNREACH: end_viol("unreachable","unreachable code in "+fn->name);
      case O_EDGE_PANIC: if(cs->expectPanic){S.expected_panics++; throw PathEnd{false};} end_viol("trap","trap in "+fn->name);
      case O_ALLOCA: { u64 n=conc(I.a); u32 id=cs->mem.alloc((u32)(n*I.imm)); fr->allocas.push_back(id); R[I.d]=Val{(u64)id<<32,nullptr}; ip++; break; }
      case O_MEMCPY: { u64 d=conc(I.a),s=conc(I.b),n=conc(I.c); do_memcpy(d,s,n); ip++; break; }
      case O_MEMSET: { u64 d=conc(I.a); Val v=GV(I.b); u64 n=conc(I.c); if(n) { Obj*o=wobj(d,n); if(!v.e){ memset(o->data+(u32)d,(int)v.v,n); if(o->sym) memset(o->sym+(u32)d,0,n*sizeof(Expr*)); } else for(u64 i=0;i<n;i++) store(d+i,8,v); } ip++; break; }
      case O_UADDO: case O_USUBO: case O_UMULO: case O_SADDO: case O_SSUBO: case O_SMULO: {
        Val x=getv(I.a,I.w),y=getv(I.b,I.w); u32 w=I.w;
        if(!x.e&&!y.e) { u64 M=mask64(w); u64 r; bool o; u64 a=x.v,b=y.v; i128 sa=sx(a,w),sb=sx(b,w);
          switch(I.op){ case O_UADDO:{u128 t=(u128)a+b;r=(u64)t&M;o=t>M;break;} case O_USUBO:r=(a-b)&M;o=a<b;break; case O_UMULO:{u128 t=(u128)a*b;r=(u64)t&M;o=t>M;break;}
            default:{ i128 t=I.op==O_SADDO?sa+sb:I.op==O_SSUBO?sa-sb:sa*sb; r=(u64)t&M; o=t!=sx(r,w); } }
          R[I.d]=Val{r,nullptr}; R[I.c]=Val{o,nullptr}; }
        else { if (w>64) end_unsup("wide overflow op"); Expr*a=E(x,w),*b=E(y,w); Expr*r,*o;
          switch(I.op){ case O_UADDO: r=mk_bin(E_ADD,a,b); { u64 t; if(!__builtin_add_overflow(a->rhi,b->rhi,&t)&&t<=mask64(w)) o=mk_const(0,1); else o=is_c(b)?mk_bin(E_ULT,mk_const(maskw(w)-b->val,w),a):mk_bin(E_ULT,r,a);} break;
            case O_USUBO: r=mk_bin(E_SUB,a,b); o=mk_bin(E_ULT,a,b); break;
            case O_UMULO: r=mk_bin(E_MUL,a,b); { u64 t; if(!__builtin_mul_overflow(a->rhi,b->rhi,&t)&&t<=mask64(w)) o=mk_const(0,1); else { Expr*p=mk_bin(E_MUL,mk_zext(a,2*w),mk_zext(b,2*w)); o=mk_not(mk_eq(mk_extract(p,w,w),mk_const(0,w))); } } break;
            default: { u32 W=I.op==O_SMULO?2*w:w+1; Expr*p=mk_bin(I.op==O_SADDO?E_ADD:I.op==O_SSUBO?E_SUB:E_MUL,mk_sext(a,W),mk_sext(b,W)); r=mk_extract(p,0,w); o=mk_not(mk_eq(mk_sext(r,W),p)); } }
          R[I.d]=V(r); R[I.c]=V(o); }
        ip++; break; }
      case O_BITCAST: { const i32*l=&fn->ext[I.a+1]; u32 ws=l[0],wd=l[1],ns=l[2]; const i32*sl=l+3; u32 nd=sl[ns]; const i32*dl=sl+ns+1; if(ws>128||wd>128){ end_unsup("wide bitcast"); }
        Val out[64]; if(nd>64) end_unsup("bitcast"); 
        if (wd>=ws) { u32 per=wd/ws; for(u32 i=0;i<nd;i++) { bool sym=wd>64; u64 c=0; if(!sym) for(u32 k=0;k<per;k++){ Val x=getv(sl[i*per+k],ws); if(x.e){sym=true;break;} c|=x.v<<(k*ws); } if(!sym) out[i]=Val{c,nullptr}; else { Expr*r=nullptr; for(u32 k=0;k<per;k++){ Expr*x=E(getv(sl[i*per+k],ws),ws); r=r?mk_concat(x,r):x; } out[i]=V(r); } } }
        else { u32 per=ws/wd; for(u32 i=0;i<nd;i++) { Val x=getv(sl[i/per],ws); u32 lo=(i%per)*wd; out[i]= x.e? V(mk_extract(x.e,lo,wd)) : Val{(x.v>>lo)&mask64(wd),nullptr}; } }
        for(u32 i=0;i<nd;i++) R[dl[i]]=out[i]; ip++; break; }
      case O_CMPXCHG: { u64 a=conc(I.a); Val old=load(a,I.w),c=getv(I.b,I.w); bool eq; if(!old.e&&!c.e) eq=old.v==c.v; else eq=branch(mk_eq(E(old,I.w),E(c,I.w))); if(eq) store(a,I.w,getv(I.c,I.w)); R[I.d]=old; R[(i32)I.imm]=Val{eq,nullptr}; ip++; break; }
      case O_RMW: { u64 a=conc(I.a); Val old=load(a,I.w),v=getv(I.b,I.w); Expr*x=E(old,I.w),*y=E(v,I.w); Expr*r; switch(I.imm){case 0:r=y;break;case 1:r=mk_bin(E_ADD,x,y);break;case 2:r=mk_bin(E_SUB,x,y);break;case 3:r=mk_bin(E_AND,x,y);break;case 5:r=mk_bin(E_OR,x,y);break;case 6:r=mk_bin(E_XOR,x,y);break;default:end_unsup("atomicrmw");} store(a,I.w,V(r)); R[I.d]=old; ip++; break; }
      case O_FP: R[I.d]=fpop(I); ip++; break;
      case O_CTPOP: case O_CTLZ: case O_CTTZ: { Val x=getv(I.a,I.w); u32 w=I.w; if(w>64) end_unsup("wide bit count"); if(!x.e) { u64 r=I.op==O_CTPOP?__builtin_popcountll(x.v):I.op==O_CTLZ?(x.v?__builtin_clzll(x.v)-(64-w):w):(x.v?__builtin_ctzll(x.v):w); R[I.d]=Val{r,nullptr}; }
        else { Expr*r; if(I.op==O_CTPOP) { r=mk_const(0,w); for(u32 i=0;i<w;i++) r=mk_bin(E_ADD,r,w>1?mk_zext(mk_extract(x.e,i,1),w):x.e); } else { r=mk_const(w,w); for(u32 k=0;k<w;k++) { u32 i=I.op==O_CTLZ?k:w-1-k; u32 val=I.op==O_CTLZ?w-1-i:i; r=mk_ite(mk_eq(mk_extract(x.e,i,1),mk_const(1,1)),mk_const(val,w),r); } } R[I.d]=V(r); } ip++; break; }
      case O_BSWAP: { Val x=getv(I.a,I.w); if(I.w>64) end_unsup("wide bswap"); if(!x.e) R[I.d]=Val{__builtin_bswap64(x.v)>>(64-I.w),nullptr}; else { Expr*r=nullptr; for(u32 i=0;i<I.w;i+=8){ Expr*b=mk_extract(x.e,i,8); r=r?mk_concat(r,b):b; } R[I.d]=V(r);} ip++; break; }
      case O_BITREV: { u64 x=conc(I.a),r=0; for(u32 i=0;i<I.w;i++) if(x>>i&1) r|=1ull<<(I.w-1-i); R[I.d]=Val{r,nullptr}; ip++; break; }
      case O_FSHL: case O_FSHR: { Val x=getv(I.a,I.w),y=getv(I.b,I.w); u32 w=I.w; u64 s=conc(I.c)%w; if(I.op==O_FSHR) s=(w-s)%w; bool r0=I.op==O_FSHR&&s==0; if(r0) R[I.d]=y; else if(s==0) R[I.d]=x; else if(!x.e&&!y.e) R[I.d]=Val{((x.v<<s)|(y.v>>(w-s)))&mask64(w),nullptr}; else R[I.d]=V(mk_concat(mk_extract(E(x,w),0,w-s),mk_extract(E(y,w),w-s,s))); ip++; break; }
      case O_ABS: { Val x=getv(I.a,I.w); if(!x.e){ i64 v=(i64)sx(x.v,I.w); R[I.d]=Val{(u64)(v<0?-v:v)&mask64(I.w),nullptr}; } else R[I.d]=V(mk_ite(mk_bin(E_SLT,x.e,mk_const(0,I.w)),mk_bin(E_SUB,mk_const(0,I.w),x.e),x.e)); ip++; break; }
      case O_EXTDYN: { u64 i=conc(I.a); const i32*l=&fn->ext[I.b]; if(i>=(u64)l[0]) end_unsup("extractelement"); R[I.d]=getv(l[1+i],I.w); ip++; break; }
      default: end_unsup("instruction kind "+to_string(I.op)+"/"+to_string(I.imm));
    }
  }
}
static void worker() {
  for(;;) {
    try {
      while(!work.empty()) {
        if(sh->stop) { for(auto*s:work) delete s; work.clear(); break; }
        if(now()>deadline) { __sync_fetch_and_add(&sh->dropped,(u32)work.size()); work.clear(); break; }
        maybe_split(false);
        cs=work.back(); work.pop_back();
        try { run_state(); } catch(PathEnd p) { path_end(p.normal); } catch(Abort) {}
        delete cs; cs=nullptr;
      }
      break;
    } catch(int) { /* we are the child of a split: go on with our half */ cs=nullptr; }
  }
}
static void dump_stats() {
  FILE*f=fopen((outdir+"/stats-"+to_string(getpid())+".json").c_str(),"w");
  fprintf(f,"{\"paths\":%llu,\"infeasible\":%llu,\"insts\":%llu,\"forks\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"q_cache\":%llu,\"q_dom\":%llu,\"q_model\":%llu,\"q_domcert\":%llu,\"asserts\":%llu,\"asserts_sym\":%llu,\"limits\":%llu,\"unsup\":%llu,\"expected_panics\":%llu,\"certs\":%llu,\"z3_time\":%.3f,\"exprs\":%llu,\"unsup_msgs\":{",
    (unsigned long long)S.paths,(unsigned long long)S.infeasible,(unsigned long long)S.insts,(unsigned long long)S.forks,(unsigned long long)S.q_sat,(unsigned long long)S.q_unsat,(unsigned long long)S.q_unknown,(unsigned long long)S.q_cache,(unsigned long long)S.q_dom,(unsigned long long)S.q_model,(unsigned long long)S.q_domcert,(unsigned long long)S.asserts,(unsigned long long)S.asserts_sym,(unsigned long long)S.limits,(unsigned long long)S.unsup,(unsigned long long)S.expected_panics,(unsigned long long)S.certs,S.zt,(unsigned long long)n_exprs);
  bool first=true; for(auto&p:unsupMsgs){ fprintf(f,"%s\"%s\":%llu",first?"":",",jesc(p.first).c_str(),(unsigned long long)p.second); first=false; }
  fprintf(f,"},\"funcs\":["); first=true; for(u32 i=0;;i++){ Func*g=func_by_index(i); if(!g)break; if(g->hits){ fprintf(f,"%s\"%s\"",first?"":",",jesc(g->name).c_str()); first=false; } } fprintf(f,"]}\n"); fclose(f);
}
int main(int argc,char**argv) {
  if (argc>=5 && string(argv[1])=="prep") return prep_module(argv[2],argv[3],argv[4],argc>5);
  if (argc<4 || string(argv[1])!="run") { fprintf(stderr,"usage: vhe prep in.bc out.bc entries [-v] | vhe run prep.bc entry -o DIR [-p a,b,..] [-j N] [-t secs] [-l instlimit] [-V maxviol] [-v]\n"); return 2; }
  entry=argv[3]; double tl=1e9;
  for(int i=4;i<argc;i++){ string a=argv[i]; if(a=="-v") verbose=1; else if(i+1<argc){ string b=argv[++i]; if(a=="-o") outdir=b; else if(a=="-j") MAXW=atoi(b.c_str()); else if(a=="-t") tl=atof(b.c_str()); else if(a=="-l") INSTLIM=strtoull(b.c_str(),0,10); else if(a=="-V") MAXVIOL=atoi(b.c_str()); else if(a=="-s") NSAMP=atoi(b.c_str()); else if(a=="-c") certEvery=atoi(b.c_str()); else if(a=="-C") certCap=strtoull(b.c_str(),0,10); else if(a=="-e") maxEnum=atoi(b.c_str()); else if(a=="-p"){ string t; for(char c:b+",") if(c==','){ if(!t.empty()) params.push_back(strtoull(t.c_str(),0,10)); t.clear(); } else t+=c; } } }
  setvbuf(stdout,0,_IOLBF,0); t0=now(); deadline=t0+tl;
  sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)sh,0,sizeof *sh); sh->active=1;
  if(!load_module(argv[2])) return 2; z_init();
  Func*f=get_func(entry); if(!f){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 2; }
  State*s=new State(); auto&gs=globals(); s->mem.next=1; for(auto&g:gs){ u32 id=s->mem.alloc(g.size); Obj*o=s->mem.getw(id); if(g.size) memcpy(o->data,g.bytes.data(),g.size); o->ro=g.constant; }
  s->model.resize(MAXVARS,0); s->dom.resize(MAXVARS,Dom{}); gs.clear(); gs.shrink_to_fit();
  lower(f); f->hits++; Frame*fr0=new Frame(); fr0->rc=1; fr0->f=f; fr0->pc=0; fr0->ret=-1; fr0->nret=0; fr0->r=(Val*)calloc(f->nregs+1,sizeof(Val)); s->st.push_back(fr0);
  work.push_back(s); double tload=now()-t0; lastSplit=now();
  worker(); __sync_fetch_and_sub(&sh->active,1); dump_stats();
  bool bad=false; for(pid_t p:kids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) { bad=true; } }
  if(isChild) { if(bad) __sync_fetch_and_add(&sh->crashed,1); fflush(stderr); _exit(bad?6:0); }
  FILE*o=fopen((outdir+"/run.json").c_str(),"w"); fprintf(o,"{\"wall\":%.2f,\"load\":%.2f,\"crashed\":%s,\"dropped\":%u,\"violations\":%u,\"stopped\":%d,\"paths\":%llu,\"reach\":[",now()-t0,tload,bad||sh->crashed?"true":"false",sh->dropped,sh->nviol,sh->stop,(unsigned long long)sh->paths); bool first=true; for(int i=0;i<256;i++) if(sh->reach[i]) { fprintf(o,"%s%d",first?"":",",i); first=false; } fprintf(o,"]}\n"); fclose(o);
  return bad?6:0;
}
