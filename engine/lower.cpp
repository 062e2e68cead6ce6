// LLVM IR -> register-machine form; and the "prep" step (cut, internalize, optimise) over the linked bitcode.
#include "ir.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/IntrinsicsX86.h"
#include <map>
#include <set>
using namespace llvm;
static LLVMContext Ctx;
static std::unique_ptr<llvm::Module> M;
static const DataLayout *DL;
static ::Module mod;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::vector<GlobalInit> ginit;
static std::vector<std::pair<const GlobalVariable*, u32>> gvars;
std::vector<GlobalInit> &globals() { return ginit; }
Func *func_by_index(u32 i) { return i < mod.funcs.size() ? mod.funcs[i] : nullptr; }
Func *get_func(const std::string &n) { auto it = mod.byname.find(n); return it==mod.byname.end()?nullptr:it->second; }
static void die(const std::string &s) { fprintf(stderr, "lower: %s\n", s.c_str()); exit(3); }
static std::string str(const Value *v) { std::string s; raw_string_ostream o(s); v->print(o); return s; }

struct CVal { APInt v; };
static APInt constInt(const Constant *C, u32 w);
static u64 constAddr(const Constant *C) { return constInt(C, 64).getZExtValue(); }
static u32 widthOf(Type *t) {
  if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
  std::string s; raw_string_ostream o(s); t->print(o); die("width of type " + s); return 0;
}
static APInt constInt(const Constant *C, u32 w) {
  if (auto *I = dyn_cast<ConstantInt>(C)) return I->getValue();
  if (auto *F = dyn_cast<ConstantFP>(C)) return F->getValueAPF().bitcastToAPInt();
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return APInt(w, 0);
  if (auto *G = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(G); if (it==gaddr.end()) { if (auto *A=dyn_cast<GlobalAlias>(G)) return constInt(A->getAliasee(), w); die("no address: " + G->getName().str()); } return APInt(64, it->second); }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    auto op = [&](int i){ const Constant *c = E->getOperand(i); return constInt(c, widthOf(c->getType())); };
    switch (E->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64,0); auto *G=cast<GEPOperator>(E); if (!G->accumulateConstantOffset(*DL, off)) die("gep const"); return op(0).zextOrTrunc(64) + off; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return op(0).zextOrTrunc(w);
      case Instruction::ZExt: return op(0).zext(w);
      case Instruction::SExt: return op(0).sext(w);
      case Instruction::Add: return op(0)+op(1); case Instruction::Sub: return op(0)-op(1); case Instruction::Mul: return op(0)*op(1);
      case Instruction::And: return op(0)&op(1); case Instruction::Or: return op(0)|op(1); case Instruction::Xor: return op(0)^op(1);
      case Instruction::Shl: return op(0).shl(op(1)); case Instruction::LShr: return op(0).lshr(op(1));
      case Instruction::ICmp: { APInt a=op(0),b=op(1); bool r; switch(E->getPredicate()){ case CmpInst::ICMP_EQ:r=a==b;break; case CmpInst::ICMP_NE:r=a!=b;break; case CmpInst::ICMP_ULT:r=a.ult(b);break; case CmpInst::ICMP_UGT:r=a.ugt(b);break; case CmpInst::ICMP_ULE:r=a.ule(b);break; case CmpInst::ICMP_UGE:r=a.uge(b);break; default: die("const icmp"); r=false;} return APInt(1,r); }
      case Instruction::Select: return op(0).getBoolValue()?op(1):op(2);
      default: die("constexpr " + str(C));
    }
  }
  die("constant " + str(C)); return APInt();
}
// write constant into byte image
static void image(const Constant *C, std::vector<u8> &b, u64 off, std::vector<std::pair<u32,u64>> &rel) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = D->getRawDataValues(); memcpy(&b[off], raw.data(), raw.size()); return; }
  if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(cast<StructType>(T)); for (unsigned i=0;i<S->getNumOperands();i++) image(S->getOperand(i), b, off+L->getElementOffset(i), rel); return; }
  if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) { Type *E = isa<ConstantArray>(C) ? T->getArrayElementType() : cast<VectorType>(T)->getElementType(); u64 sz = DL->getTypeAllocSize(E); for (unsigned i=0;i<C->getNumOperands();i++) image(cast<Constant>(C->getOperand(i)), b, off+i*sz, rel); return; }
  APInt v = constInt(C, widthOf(T)); u32 n = (v.getBitWidth()+7)/8;
  for (u32 i=0;i<n;i++) b[off+i] = v.lshr(8*i).zextOrTrunc(64).getZExtValue() & 255;
}
bool load_module(const char *path) {
  SMDiagnostic err; M = parseIRFile(path, err, Ctx); if (!M) { err.print("vhe", errs()); return false; }
  DL = &M->getDataLayout();
  for (auto &F : *M) { Func *f = new Func(); f->name = F.getName().str(); f->llvmf = &F; f->idx = mod.funcs.size(); mod.funcs.push_back(f); mod.byname[f->name]=f; gaddr[&F] = fnaddr(f->idx);
    int b = builtin_id(f->name); if (!F.isDeclaration() && !is_cut_fn(f->name) && exact_builtin(f->name)) b = -1;
    if (b>=0) { f->builtin=true; f->bid=b; } else if (F.isDeclaration() && !F.isIntrinsic()) { f->builtin=true; f->bid=-1; } }
  u32 id=1;
  for (auto &G : M->globals()) { gaddr[&G] = (u64)id++ << 32; }
  for (auto &A : M->aliases()) if (auto *G=dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) if (gaddr.count(G)) gaddr[&A]=gaddr[G];
  for (auto &G : M->globals()) { GlobalInit g; g.name=G.getName().str(); g.size = DL->getTypeAllocSize(G.getValueType()); g.constant=G.isConstant(); g.bytes.assign(g.size,0); if (G.hasInitializer()) image(G.getInitializer(), g.bytes, 0, g.relocs); ginit.push_back(std::move(g)); }
  return true;
}
struct Leaf { u64 off; u32 w; };
static void leaves(Type *T, u64 off, std::vector<Leaf> &o) {
  if (auto *S=dyn_cast<StructType>(T)) { auto *L=DL->getStructLayout(S); for (unsigned i=0;i<S->getNumElements();i++) leaves(S->getElementType(i), off+L->getElementOffset(i), o); return; }
  if (auto *A=dyn_cast<ArrayType>(T)) { u64 sz=DL->getTypeAllocSize(A->getElementType()); for (u64 i=0;i<A->getNumElements();i++) leaves(A->getElementType(), off+i*sz, o); return; }
  if (auto *V=dyn_cast<FixedVectorType>(T)) { u32 w=widthOf(V->getElementType()); for (u64 i=0;i<V->getNumElements();i++) o.push_back({off+i*((w+7)/8), w}); return; }
  if (T->isVoidTy()||T->isTokenTy()||T->isMetadataTy()||T->isLabelTy()) return;
  o.push_back({off, widthOf(T)});
}
static u32 nslots(Type *T) { std::vector<Leaf> l; leaves(T,0,l); return l.size(); }
static u32 slotIndex(Type *T, ArrayRef<unsigned> idx) {
  u32 s=0; for (unsigned i : idx) { if (auto *S=dyn_cast<StructType>(T)) { for (unsigned k=0;k<i;k++) s+=nslots(S->getElementType(k)); T=S->getElementType(i); } else { auto *A=cast<ArrayType>(T); s+=i*nslots(A->getElementType()); T=A->getElementType(); } } return s;
}
struct Low {
  Func *f; Function *F; std::unordered_map<const Value*, std::vector<i32>> sl; std::map<std::pair<std::pair<u64,u64>,u32>, i32> cpool; std::unordered_map<const BasicBlock*, u32> bbpc; u32 nr=0;
  std::vector<std::pair<u32,std::pair<const BasicBlock*,const BasicBlock*>>> pend; // edge idx -> (from,to)
  i32 cst(u64 lo, u32 w, u64 hi=0) { auto k=std::make_pair(std::make_pair(lo,hi),w); auto it=cpool.find(k); if(it!=cpool.end()) return it->second; f->pool.push_back({lo,hi}); f->poolw.push_back(w); i32 r=-(i32)f->pool.size(); cpool[k]=r; return r; }
  i32 cap(const APInt &v) { u32 w=v.getBitWidth(); if (w>128) die("const width>128"); return cst(v.extractBitsAsZExtValue(std::min(w,64u),0), w, w>64? v.extractBitsAsZExtValue(w-64,64):0); }
  std::vector<i32> slots(const Value *V) {
    if (auto *C=dyn_cast<Constant>(V)) { std::vector<i32> r; cslots(C, r); return r; }
    auto it=sl.find(V); if (it==sl.end()) die("undefined value in "+f->name+": "+str(V)); return it->second;
  }
  void cslots(const Constant *C, std::vector<i32> &r) {
    Type *T=C->getType();
    if (T->isStructTy()||T->isArrayTy()||T->isVectorTy()) {
      if (isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) { std::vector<Leaf> l; leaves(T,0,l); for (auto &x:l) r.push_back(cst(0,x.w)); return; }
      u64 n = T->isStructTy()? T->getStructNumElements() : T->isArrayTy()? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
      for (u64 i=0;i<n;i++) { Constant *E=C->getAggregateElement(i); if(!E) die("agg elt"); cslots(E,r); } return; }
    r.push_back(cap(constInt(C,widthOf(T))));
  }
  i32 one(const Value *V) { auto s=slots(V); if (s.size()!=1) die("expected scalar in "+f->name+": "+str(V)); return s[0]; }
  std::vector<i32> fresh(const Value *V) { u32 n=nslots(V->getType()); std::vector<i32> r; for(u32 i=0;i<n;i++) r.push_back(nr++); sl[V]=r; return r; }
  Inst &emit(u16 op, u8 w=0, i32 d=0, i32 a=0, i32 b=0, i32 c=0, u64 imm=0) { f->code.push_back(Inst{op,w,0,d,a,b,c,imm}); return f->code.back(); }
  u32 edge(const BasicBlock *from, const BasicBlock *to) { f->edges.push_back({}); u32 e=f->edges.size()-1; pend.push_back({e,{from,to}}); return e; }
  u32 extlist(const std::vector<i32> &v) { u32 o=f->ext.size(); f->ext.push_back(v.size()); for(i32 x:v) f->ext.push_back(x); return o; }
  void run();
  void inst(const Instruction &I);
  void call(const CallBase &C);
};
void lower(Func *f) { if (f->lowered) return; f->lowered=true; Low L; L.f=f; L.F=(Function*)f->llvmf; L.run(); }
void Low::run() {
  if (F->isDeclaration()) die("lower declaration " + f->name);
  for (auto &A : F->args()) fresh(&A); f->nargs=nr;
  f->nret = F->getReturnType()->isVoidTy()?0:nslots(F->getReturnType());
  // preassign
  for (auto &B : *F) for (auto &I : B) if (isa<PHINode>(I)) fresh(&I);
  // order: reverse post order so that aliases are known before use; unreachable blocks skipped
  std::vector<const BasicBlock*> order; std::set<const BasicBlock*> seen;
  { std::vector<std::pair<const BasicBlock*,unsigned>> st; const BasicBlock *e=&F->getEntryBlock(); st.push_back({e,0}); seen.insert(e); std::vector<const BasicBlock*> post;
    while(!st.empty()){ auto &t=st.back(); const Instruction *T=t.first->getTerminator(); unsigned n=T->getNumSuccessors(); if (isa<InvokeInst>(T)) n=1; if(t.second<n){ const BasicBlock*s=T->getSuccessor(t.second++); if(seen.insert(s).second) st.push_back({s,0}); } else { post.push_back(t.first); st.pop_back(); } }
    order.assign(post.rbegin(),post.rend()); }
  for (auto *B : order) { bbpc[B]=f->code.size(); for (auto &I : *B) if (!isa<PHINode>(I)) inst(I); }
  for (auto &p : pend) { Edge &e=f->edges[p.first]; auto *from=p.second.first,*to=p.second.second; e.target=bbpc.at(to); e.par=false;
    for (auto &P : to->phis()) { const Value *v=P.getIncomingValueForBlock(from); auto d=sl.at(&P); if (isa<UndefValue>(v)) { /* any value */ } auto s=slots(v); for(size_t i=0;i<d.size();i++) if (d[i]!=s[i]) e.moves.push_back({d[i],s[i]}); }
    std::set<i32> ds; for (auto &m : e.moves) { if (ds.count(m.second)) e.par=true; ds.insert(m.first); }
  }
  f->nregs=nr;
}
static std::string tstr(Type*t){ std::string s; raw_string_ostream o(s); t->print(o); return s; }
void Low::inst(const Instruction &I) {
  Type *T=I.getType();
  auto W=[&](Type *t){ return t->isVectorTy()? widthOf(cast<VectorType>(t)->getElementType()) : widthOf(t); };
  if (auto *B=dyn_cast<BinaryOperator>(&I)) {
    static const std::map<unsigned,u16> ops={{Instruction::Add,O_ADD},{Instruction::Sub,O_SUB},{Instruction::Mul,O_MUL},{Instruction::UDiv,O_UDIV},{Instruction::SDiv,O_SDIV},{Instruction::URem,O_UREM},{Instruction::SRem,O_SREM},{Instruction::And,O_AND},{Instruction::Or,O_OR},{Instruction::Xor,O_XOR},{Instruction::Shl,O_SHL},{Instruction::LShr,O_LSHR},{Instruction::AShr,O_ASHR}};
    auto a=slots(B->getOperand(0)), b=slots(B->getOperand(1)); auto it=ops.find(B->getOpcode());
    if (it==ops.end()) { u64 k = B->getOpcode()==Instruction::FAdd?0:B->getOpcode()==Instruction::FSub?1:B->getOpcode()==Instruction::FMul?2:B->getOpcode()==Instruction::FDiv?3:4; auto d=fresh(&I); for(size_t i=0;i<d.size();i++) emit(O_FP,W(T),d[i],a[i],b[i],0,k); return; }
    auto d=fresh(&I); u32 w=W(T); if (w>128) { emit(O_UNSUP,0,0,0,0,0,1); return; } for(size_t i=0;i<d.size();i++) emit(it->second,w,d[i],a[i],b[i]); return;
  }
  if (auto *U=dyn_cast<UnaryOperator>(&I)) { auto a=slots(U->getOperand(0)); auto d=fresh(&I); for(size_t i=0;i<d.size();i++) emit(O_FP,W(T),d[i],a[i],a[i],0,5); return; }
  if (auto *C=dyn_cast<CmpInst>(&I)) {
    auto a=slots(C->getOperand(0)), b=slots(C->getOperand(1)); u32 w=W(C->getOperand(0)->getType()); auto d=fresh(&I);
    for(size_t i=0;i<d.size();i++) { if (isa<FCmpInst>(C)) { emit(O_FP,w,d[i],a[i],b[i],0,16+C->getPredicate()); continue; }
      u16 o; switch(C->getPredicate()){case CmpInst::ICMP_EQ:o=O_EQ;break;case CmpInst::ICMP_NE:o=O_NE;break;case CmpInst::ICMP_ULT:o=O_ULT;break;case CmpInst::ICMP_ULE:o=O_ULE;break;case CmpInst::ICMP_UGT:o=O_UGT;break;case CmpInst::ICMP_UGE:o=O_UGE;break;case CmpInst::ICMP_SLT:o=O_SLT;break;case CmpInst::ICMP_SLE:o=O_SLE;break;case CmpInst::ICMP_SGT:o=O_SGT;break;default:o=O_SGE;}
      emit(o,w,d[i],a[i],b[i]); }
    return; }
  if (auto *C=dyn_cast<CastInst>(&I)) {
    Type *S=C->getSrcTy(); auto a=slots(C->getOperand(0));
    switch(C->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { u32 ws=W(S),wd=W(T); if (ws==wd) { sl[&I]=a; return; } auto d=fresh(&I); for(size_t i=0;i<d.size();i++){ auto &x=emit(wd<ws?O_TRUNC:O_ZEXT,ws,d[i],a[i]); x.w2=wd; } return; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: { u32 ws=W(S),wd=W(T); auto d=fresh(&I); if (wd>128||ws>128) { emit(O_UNSUP,0,0,0,0,0,2); return; } for(size_t i=0;i<d.size();i++){ auto &x=emit(C->getOpcode()==Instruction::Trunc?O_TRUNC:C->getOpcode()==Instruction::ZExt?O_ZEXT:O_SEXT,ws,d[i],a[i]); x.w2=wd; } return; }
      case Instruction::BitCast: { if (nslots(S)==nslots(T) && W(S)==W(T)) { sl[&I]=a; return; } auto d=fresh(&I); u32 ws=W(S),wd=W(T); std::vector<i32> l; l.push_back(ws); l.push_back(wd); l.push_back(a.size()); for(i32 x:a) l.push_back(x); l.push_back(d.size()); for(i32 x:d) l.push_back(x); emit(O_BITCAST,0,0,extlist(l)); return; }
      case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: { auto d=fresh(&I); u64 k= C->getOpcode()==Instruction::FPToUI?6:C->getOpcode()==Instruction::FPToSI?7:C->getOpcode()==Instruction::UIToFP?8:C->getOpcode()==Instruction::SIToFP?9:C->getOpcode()==Instruction::FPTrunc?10:11; for(size_t i=0;i<d.size();i++){ auto &x=emit(O_FP,W(S),d[i],a[i],a[i],0,k); x.w2=W(T);} return; }
      default: die("cast "+str(&I));
    } }
  switch(I.getOpcode()) {
    case Instruction::Freeze: sl[&I]=slots(I.getOperand(0)); return;
    case Instruction::Alloca: { auto &A=cast<AllocaInst>(I); auto d=fresh(&I); u64 sz=DL->getTypeAllocSize(A.getAllocatedType()); emit(O_ALLOCA,64,d[0],one(A.getArraySize()),0,0,sz); return; }
    case Instruction::Load: { std::vector<Leaf> l; leaves(T,0,l); i32 a=one(I.getOperand(0));
      if (T->isVectorTy() && widthOf(cast<VectorType>(T)->getElementType())%8) { auto d=fresh(&I); u32 we=W(T), n=we*d.size(); if (n%8||n>128) { emit(O_UNSUP,0,0,0,0,0,3); return; } i32 t=nr++; emit(O_LOAD,n,t,a,0,0,0); std::vector<i32> l{(i32)n,(i32)we,1,t,(i32)d.size()}; for (i32 x:d) l.push_back(x); emit(O_BITCAST,0,0,extlist(l)); return; }
      auto d=fresh(&I); for(size_t i=0;i<d.size();i++) { if (l[i].w>128) { emit(O_UNSUP,0,0,0,0,0,3); continue; } emit(O_LOAD,l[i].w,d[i],a,0,0,l[i].off); } return; }
    case Instruction::Store: { Type *V=I.getOperand(0)->getType(); std::vector<Leaf> l; leaves(V,0,l); auto v=slots(I.getOperand(0)); i32 a=one(I.getOperand(1));
      if (V->isVectorTy() && widthOf(cast<VectorType>(V)->getElementType())%8) { u32 we=W(V), n=we*v.size(); if (n%8||n>128) { emit(O_UNSUP,0,0,0,0,0,4); return; } i32 t=nr++; std::vector<i32> l{(i32)we,(i32)n,(i32)v.size()}; for (i32 x:v) l.push_back(x); l.push_back(1); l.push_back(t); emit(O_BITCAST,0,0,extlist(l)); emit(O_STORE,n,0,a,t,0,0); return; }
      bool skipundef=isa<UndefValue>(I.getOperand(0)); (void)skipundef;
      for(size_t i=0;i<v.size();i++) { if (l[i].w>128) { emit(O_UNSUP,0,0,0,0,0,4); continue; } emit(O_STORE,l[i].w,0,a,v[i],0,l[i].off); } return; }
    case Instruction::GetElementPtr: { auto &G=cast<GetElementPtrInst>(I); if (T->isVectorTy()) { fresh(&I); emit(O_UNSUP,0,0,0,0,0,5); return; }
      i32 cur=one(G.getPointerOperand()); u64 off=0; std::vector<std::pair<const Value*,u64>> var;
      for (auto it=gep_type_begin(G), e=gep_type_end(G); it!=e; ++it) { const Value *ix=it.getOperand(); if (auto *S=it.getStructTypeOrNull()) { off+=DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sz=DL->getTypeAllocSize(it.getIndexedType()); if (auto *C=dyn_cast<ConstantInt>(ix)) off+=(u64)C->getSExtValue()*sz; else if (isa<UndefValue>(ix)) {} else var.push_back({ix,sz}); }
      if (var.empty() && off==0) { sl[&I]={cur}; return; }
      if (var.empty()) { auto d=fresh(&I); emit(O_GEPC,64,d[0],cur,0,0,off); return; }
      for (size_t k=0;k<var.size();k++) { bool last=k+1==var.size()&&off==0; i32 d; if (last) d=fresh(&I)[0]; else d=nr++; emit(O_GEPV,widthOf(var[k].first->getType()),d,cur,one(var[k].first),0,var[k].second); cur=d; }
      if (off) { auto d=fresh(&I); emit(O_GEPC,64,d[0],cur,0,0,off); } return; }
    case Instruction::Select: { auto c=slots(I.getOperand(0)),a=slots(I.getOperand(1)),b=slots(I.getOperand(2)); std::vector<Leaf> l; leaves(T,0,l); auto d=fresh(&I); bool ptr=T->isPointerTy(); for(size_t i=0;i<d.size();i++){ auto &x=emit(O_SELECT,l[i].w,d[i],c.size()==d.size()?c[i]:c[0],a[i],b[i]); x.w2=ptr; } return; }
    case Instruction::ExtractValue: { auto &E=cast<ExtractValueInst>(I); auto a=slots(E.getAggregateOperand()); u32 s=slotIndex(E.getAggregateOperand()->getType(),E.getIndices()); u32 n=nslots(T); sl[&I]=std::vector<i32>(a.begin()+s,a.begin()+s+n); return; }
    case Instruction::InsertValue: { auto &E=cast<InsertValueInst>(I); auto a=slots(E.getAggregateOperand()), v=slots(E.getInsertedValueOperand()); u32 s=slotIndex(E.getAggregateOperand()->getType(),E.getIndices()); for(size_t i=0;i<v.size();i++) a[s+i]=v[i]; sl[&I]=a; return; }
    case Instruction::ExtractElement: { auto a=slots(I.getOperand(0)); if (auto *C=dyn_cast<ConstantInt>(I.getOperand(1))) { sl[&I]={a[C->getZExtValue()]}; return; } std::vector<i32> l=a; auto d=fresh(&I); emit(O_EXTDYN,W(T),d[0],one(I.getOperand(1)),extlist(l)); return; }
    case Instruction::InsertElement: { auto a=slots(I.getOperand(0)); i32 v=one(I.getOperand(1)); if (auto *C=dyn_cast<ConstantInt>(I.getOperand(2))) { a[C->getZExtValue()]=v; sl[&I]=a; return; } fresh(&I); emit(O_UNSUP,0,0,0,0,0,6); return; }
    case Instruction::ShuffleVector: { auto &S=cast<ShuffleVectorInst>(I); auto a=slots(S.getOperand(0)),b=slots(S.getOperand(1)); std::vector<i32> r; u32 w=W(T); for (int m : S.getShuffleMask()) r.push_back(m<0?cst(0,w):m<(int)a.size()?a[m]:b[m-a.size()]); sl[&I]=r; return; }
    case Instruction::Br: { auto &B=cast<BranchInst>(I); if (B.isUnconditional()) { u32 e=edge(I.getParent(),B.getSuccessor(0)); emit(O_BR,0,0,0,0,0,e); } else { u32 e1=edge(I.getParent(),B.getSuccessor(0)), e2=edge(I.getParent(),B.getSuccessor(1)); emit(O_CBR,1,0,one(B.getCondition()),e1,e2); } return; }
    case Instruction::Switch: { auto &S=cast<SwitchInst>(I); std::vector<i32> l; l.push_back(edge(I.getParent(),S.getDefaultDest())); std::map<const BasicBlock*,u32> es; for (auto &c : S.cases()) { l.push_back(cap(c.getCaseValue()->getValue())); auto it=es.find(c.getCaseSuccessor()); u32 e= it==es.end()? (es[c.getCaseSuccessor()]=edge(I.getParent(),c.getCaseSuccessor())):it->second; l.push_back(e); } emit(O_SWITCH,widthOf(S.getCondition()->getType()),0,one(S.getCondition()),extlist(l)); return; }
    case Instruction::Ret: { std::vector<i32> l; if (I.getNumOperands()) l=slots(I.getOperand(0)); emit(O_RET,0,0,extlist(l)); return; }
    case Instruction::Unreachable: emit(O_UNREACH); return;
    case Instruction::Call: call(cast<CallBase>(I)); return;
    case Instruction::Invoke: { call(cast<CallBase>(I)); u32 e=edge(I.getParent(),cast<InvokeInst>(I).getNormalDest()); emit(O_BR,0,0,0,0,0,e); return; }
    case Instruction::Resume: case Instruction::LandingPad: fresh(&I); emit(O_UNSUP,0,0,0,0,0,7); return;
    case Instruction::Fence: return;
    case Instruction::AtomicCmpXchg: { auto d=fresh(&I); auto &x=emit(O_CMPXCHG,widthOf(I.getOperand(1)->getType()),d[0],one(I.getOperand(0)),one(I.getOperand(1)),one(I.getOperand(2))); x.imm=d[1]; return; }
    case Instruction::AtomicRMW: { auto &A=cast<AtomicRMWInst>(I); auto d=fresh(&I); auto &x=emit(O_RMW,widthOf(T),d[0],one(A.getPointerOperand()),one(A.getValOperand())); x.imm=A.getOperation(); return; }
    default: die("instruction "+str(&I));
  }
}
void Low::call(const CallBase &C) {
  const Function *cf=C.getCalledFunction(); Type *T=C.getType();
  if (!cf) if (auto *A=dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) cf=dyn_cast<Function>(A->getAliasee()->stripPointerCasts());
  if (cf && cf->isIntrinsic()) {
    auto W=[&](Type *t){ return t->isVectorTy()? widthOf(cast<VectorType>(t)->getElementType()) : widthOf(t); };
    auto vec=[&](u16 op,int n){ std::vector<std::vector<i32>> a; for(int i=0;i<n;i++) a.push_back(slots(C.getArgOperand(i))); auto d=fresh(&C); for(size_t i=0;i<d.size();i++) emit(op,W(T),d[i],a[0][i],n>1?a[1][i]:0,n>2?a[2][i]:0); };
    switch(cf->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: return;
      case Intrinsic::invariant_start: { auto d=fresh(&C); emit(O_MOV,64,d[0],cst(0,64)); return; }
      case Intrinsic::invariant_end: return;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: sl[&C]=slots(C.getArgOperand(0)); return;
      case Intrinsic::is_constant: sl[&C]={cst(0,1)}; return;
      case Intrinsic::objectsize: sl[&C]={cst(~0ull,64)}; return;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: emit(O_MEMCPY,64,0,one(C.getArgOperand(0)),one(C.getArgOperand(1)),one(C.getArgOperand(2))); return;
      case Intrinsic::memset: emit(O_MEMSET,64,0,one(C.getArgOperand(0)),one(C.getArgOperand(1)),one(C.getArgOperand(2))); return;
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        if (T->getStructElementType(0)->isVectorTy()) { fresh(&C); emit(O_UNSUP,0,0,0,0,0,8); return; }
        u16 o; switch(cf->getIntrinsicID()){case Intrinsic::uadd_with_overflow:o=O_UADDO;break;case Intrinsic::usub_with_overflow:o=O_USUBO;break;case Intrinsic::umul_with_overflow:o=O_UMULO;break;case Intrinsic::sadd_with_overflow:o=O_SADDO;break;case Intrinsic::ssub_with_overflow:o=O_SSUBO;break;default:o=O_SMULO;}
        i32 a=one(C.getArgOperand(0)), b=one(C.getArgOperand(1)); auto d=fresh(&C); emit(o,widthOf(C.getArgOperand(0)->getType()),d[0],a,b,d[1]); return; }
      case Intrinsic::ctlz: vec(O_CTLZ,1); return; case Intrinsic::cttz: vec(O_CTTZ,1); return; case Intrinsic::ctpop: vec(O_CTPOP,1); return;
      case Intrinsic::bswap: vec(O_BSWAP,1); return; case Intrinsic::bitreverse: vec(O_BITREV,1); return;
      case Intrinsic::fshl: vec(O_FSHL,3); return; case Intrinsic::fshr: vec(O_FSHR,3); return;
      case Intrinsic::umin: vec(O_UMIN,2); return; case Intrinsic::umax: vec(O_UMAX,2); return; case Intrinsic::smin: vec(O_SMIN,2); return; case Intrinsic::smax: vec(O_SMAX,2); return;
      case Intrinsic::abs: vec(O_ABS,1); return;
      case Intrinsic::usub_sat: vec(O_USUBS,2); return; case Intrinsic::uadd_sat: vec(O_UADDS,2); return; case Intrinsic::sadd_sat: vec(O_SADDS,2); return; case Intrinsic::ssub_sat: vec(O_SSUBS,2); return;
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
        u16 o; switch(cf->getIntrinsicID()){case Intrinsic::vector_reduce_add:o=O_ADD;break;case Intrinsic::vector_reduce_or:o=O_OR;break;case Intrinsic::vector_reduce_and:o=O_AND;break;case Intrinsic::vector_reduce_xor:o=O_XOR;break;case Intrinsic::vector_reduce_umax:o=O_UMAX;break;default:o=O_UMIN;}
        auto a=slots(C.getArgOperand(0)); i32 cur=a[0]; for(size_t i=1;i<a.size();i++){ i32 d=nr++; emit(o,widthOf(T),d,cur,a[i]); cur=d; } sl[&C]={cur}; return; }
      case Intrinsic::fabs: { auto a=one(C.getArgOperand(0)); auto d=fresh(&C); emit(O_FP,widthOf(T),d[0],a,a,0,12); return; }
      case Intrinsic::x86_sse2_pmovmskb_128: { auto a=slots(C.getArgOperand(0)); std::vector<i32> bits; for (i32 x:a){ i32 t=nr++; auto &q=emit(O_LSHR,8,t,x,cst(7,8)); (void)q; i32 b=nr++; auto &z=emit(O_TRUNC,8,b,t); z.w2=1; bits.push_back(b);} i32 m=nr++; std::vector<i32> l; l.push_back(1); l.push_back(16); l.push_back(16); for(i32 x:bits) l.push_back(x); l.push_back(1); l.push_back(m); emit(O_BITCAST,0,0,extlist(l)); auto d=fresh(&C); auto &z=emit(O_ZEXT,16,d[0],m); z.w2=32; return; }
      case Intrinsic::trap: emit(O_EDGE_PANIC,0,0,0,0,0,1); return;
      case Intrinsic::threadlocal_address: sl[&C]={one(C.getArgOperand(0))}; return;
      default: fresh(&C); emit(O_UNSUP,0,0,0,0,0,100+cf->getIntrinsicID()); return;
    }
  }
  if (C.isInlineAsm()) { auto dd=fresh(&C); auto *IA=cast<InlineAsm>(C.getCalledOperand()); if (IA->getAsmString().find("cpuid")!=std::string::npos) { std::vector<Leaf> ll; leaves(T,0,ll); for (size_t i=0;i<dd.size();i++) emit(O_MOV,ll[i].w,dd[i],cst(0,ll[i].w)); return; } if (!T->isVoidTy() ) emit(O_UNSUP,0,0,0,0,0,9); return; }
  std::vector<i32> l; for (auto &A : C.args()) { if (A->getType()->isMetadataTy()) continue; for (i32 s : slots(A)) l.push_back(s); }
  u32 ex=extlist(l); auto d=T->isVoidTy()?std::vector<i32>():fresh(&C); i32 d0=d.empty()?-1:d[0];
  if (cf) { Func *g=mod.byname.at(cf->getName().str()); emit(g->builtin?O_BUILTIN:O_CALL,d.size(),d0,ex,0,0,g->idx); }
  else emit(O_ICALL,d.size(),d0,ex,one(C.getCalledOperand()));
}
// ---------------------------------------------------------------- prep
int prep_module(const char *in, const char *out, const char *entries, bool verbose) {
  auto buf=MemoryBuffer::getFile(in); if(!buf){ fprintf(stderr,"cannot read %s\n",in); return 2; }
  auto m=parseBitcodeFile((*buf)->getMemBufferRef(),Ctx); if(!m){ errs()<<toString(m.takeError())<<"\n"; return 2; }
  auto &Mo=**m; StripDebugInfo(Mo);
  std::set<std::string> keep; { std::string s=entries,t; for(char c:s+",") if(c==','){ if(!t.empty()) keep.insert(t); t.clear(); } else t+=c; }
  u32 cut=0;
  { std::vector<GlobalAlias*> al; for (auto &A : Mo.aliases()) al.push_back(&A); for (auto *A : al) { A->replaceAllUsesWith(A->getAliasee()); A->eraseFromParent(); } }
  for (auto &F : Mo) { std::string n=F.getName().str(); if (F.isDeclaration()) continue; if (is_panic_fn(n)||is_cut_fn(n)) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); cut++; if (is_panic_fn(n)) { F.setDoesNotReturn(); F.addFnAttr(Attribute::Cold); } } }
  // personality functions and landing pads are never executed: drop so that they keep nothing alive
  for (auto &F : Mo) { F.removeFnAttr("target-features"); F.removeFnAttr("target-cpu"); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr("probe-stack"); }
  for (auto &F : Mo) { if (F.isDeclaration()) continue; std::vector<InvokeInst*> inv; for (auto &B : F) if (auto *I=dyn_cast<InvokeInst>(B.getTerminator())) inv.push_back(I);
    for (auto *I : inv) { SmallVector<Value*,8> args(I->args()); SmallVector<OperandBundleDef,1> ob; I->getOperandBundlesAsDefs(ob); CallInst *c=CallInst::Create(I->getFunctionType(),I->getCalledOperand(),args,ob,"",I); c->setCallingConv(I->getCallingConv()); c->setAttributes(I->getAttributes()); I->replaceAllUsesWith(c); I->getUnwindDest()->removePredecessor(I->getParent()); BranchInst::Create(I->getNormalDest(),I); I->eraseFromParent(); }
    if (F.hasPersonalityFn()) F.setPersonalityFn(nullptr);
    // remove now-unreachable landing pad blocks
    std::set<BasicBlock*> live; std::vector<BasicBlock*> st{&F.getEntryBlock()}; live.insert(st[0]); while(!st.empty()){ auto*b=st.back(); st.pop_back(); for(auto*s:successors(b)) if(live.insert(s).second) st.push_back(s); }
    std::vector<BasicBlock*> dead; for(auto&b:F) if(!live.count(&b)) dead.push_back(&b);
    for(auto*b:dead) { for(auto*s:successors(b)) if(live.count(s)) s->removePredecessor(b); b->dropAllReferences(); }
    for(auto*b:dead) { while(!b->empty()){ auto&i=b->back(); if(!i.use_empty()) i.replaceAllUsesWith(PoisonValue::get(i.getType())); i.eraseFromParent(); } }
    for(auto*b:dead) { b->replaceAllUsesWith(PoisonValue::get(b->getType())); b->eraseFromParent(); }
  }
  for (auto &G : Mo.globals()) G.setThreadLocalMode(GlobalValue::NotThreadLocal);
  internalizeModule(Mo,[&](const GlobalValue &g){ return keep.count(g.getName().str())>0; });
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopInterleaving=false; PTO.LoopVectorization=false; PTO.SLPVectorization=false; PTO.LoopUnrolling=false; PTO.MergeFunctions=false;
  PassBuilder PB(nullptr,PTO); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  ModulePassManager pre; pre.addPass(GlobalDCEPass()); pre.run(Mo,MAM);
  if (verifyModule(Mo,&errs())) { fprintf(stderr,"verify failed\n"); return 2; }
  ModulePassManager mp=PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); mp.run(Mo,MAM);
  std::error_code ec; raw_fd_ostream os(out,ec); WriteBitcodeToFile(Mo,os); os.flush();
  u32 nf=0,nd=0; for(auto&F:Mo) if(F.isDeclaration()) nd++; else nf++;
  if (verbose) { fprintf(stderr,"prep: %u bodies cut, %u functions kept, %u external\n",cut,nf,nd); for(auto&F:Mo) if(F.isDeclaration()&&!F.isIntrinsic()&&!is_panic_fn(F.getName().str())&&builtin_id(F.getName().str())<0) fprintf(stderr,"  external: %s\n",F.getName().str().c_str()); }
  for (auto &k:keep) if(!Mo.getFunction(k)) { fprintf(stderr,"prep: no entry %s\n",k.c_str()); return 2; }
  return 0;
}
