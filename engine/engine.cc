// Forking symbolic executor for LLVM bitcode (LLVM 18, Z3).
//   engine <module.bc> --entry=<fn> --out=<dir> [--timeout=s] [--max-errors=n] ...
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <cerrno>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cassert>
using namespace llvm;
using std::vector; using std::string; using std::map; using std::set;

Stats stats; u64 gRlimit=400000000;
static ExprPool P;
static Solver *S;

struct Val { u64 c; Expr*e; };
static inline Val CV(u64 c){ return Val{c,nullptr}; }
static inline Val EV(Expr*e){ if(e->k==KConst) return Val{e->c,nullptr}; return Val{0,e}; }
static inline Expr* X(const Val&v,unsigned w){ return v.e? v.e : P.cst(v.c,w); }

// ---------------------------------------------------------------- refcounted
template<class T> struct Ref { T*p=nullptr; Ref(){} Ref(T*q):p(q){ if(p)p->rc++; } Ref(const Ref&o):p(o.p){ if(p)p->rc++; } Ref(Ref&&o):p(o.p){o.p=nullptr;}
  Ref&operator=(Ref o){ std::swap(p,o.p); return *this; } ~Ref(){ if(p&&--p->rc==0) delete p; } T*operator->()const{return p;} T&operator*()const{return *p;} explicit operator bool()const{return p;}
  T* own(){ if(p->rc>1){ T*n=new T(*p); n->rc=1; p->rc--; p=n; } return p; } };

struct Obj { u32 rc=0; u64 size=0; u8 kind=0; bool freed=false, ro=false; const char*name=""; vector<u8> d; vector<Expr*> sym; vector<u8> un; const void*site=nullptr; };
enum { OK_HEAP, OK_STACK, OK_GLOBAL, OK_FUNC, OK_EXC };
static const unsigned SLOTBITS=24; static const u64 OBASE=0x1000; static const u64 SLOT=1ull<<SLOTBITS;
struct Chunk { u32 rc=0; Ref<Obj> o[64]; };

struct Mem {
  vector<Ref<Chunk>> ch; u64 next=1;
  Obj* get(u64 idx){ u64 c=idx>>6; if(c>=ch.size()||!ch[c]) return nullptr; return ch[c]->o[idx&63].p; }
  Ref<Obj>& slot(u64 idx){ u64 c=idx>>6; if(c>=ch.size()) ch.resize(c+1); if(!ch[c]) ch[c]=Ref<Chunk>(new Chunk); return ch[c].own()->o[idx&63]; }
  Obj* wr(u64 idx){ return slot(idx).own(); }
  u64 add(Obj*o){ u64 idx=next; u64 n=(o->size+OBASE+SLOT)/SLOT; next+=n; slot(idx)=Ref<Obj>(o); return (idx<<SLOTBITS)+OBASE; }
};
static inline u64 addrOf(u64 idx){ return (idx<<SLOTBITS)+OBASE; }

// ---------------------------------------------------------------- decoded IR
struct Leaf { u64 off; unsigned w; };
struct Edge { u32 pc; vector<std::pair<int,int>> cp; };
struct FuncInfo; struct Engine; struct State;
enum BRes { ADV, HANDLED };
typedef BRes (*Builtin)(Engine&,State&,struct Inst&,vector<Val>&);
enum { OP_BINOP=200, OP_CMP, OP_CALLB, OP_CALLF, OP_CALLI, OP_COPY, OP_LANDING, OP_ZEXT, OP_SEXT, OP_TRUNC };
struct Inst { u16 op=0; u8 sub=0; bool invoke=false; u16 w=0,w2=0; int dst=-1; u32 nd=0; vector<int> ops; vector<u64> imm; u32 t0=0,t1=0; const Instruction*I=nullptr; Function*callee=nullptr; Builtin bi=nullptr; vector<Leaf> leaves; };
struct FuncInfo { Function*F; vector<Inst> code; vector<Val> pool; vector<Edge> edges; u32 nslots=0; vector<int> argSlots; string name; };

struct Frame { u32 rc=0; FuncInfo*fi=nullptr; u32 pc=0; vector<Val> r; vector<u64> allocas; };
struct ExcInfo { u64 ti; };
struct State {
  vector<Ref<Frame>> st; Mem mem; vector<Expr*> cons; map<u32,u64> pins; map<Expr*,u64> epins; u64 pinver=0; vector<u64> model;
  vector<std::pair<string,vector<u32>>> inputs; map<string,int> occ; vector<u64> caught; map<u64,u64> exc,adj; vector<std::pair<string,Val>> obs; u64 instrs=0; u64 depth=0; u64 id=0; bool dead=false; u64 unw=0; bool pre=false;
  u64 errnoAddr=0; bool hasUndef=false; vector<string> notes;
  u64 guardScope=0; u64 undefs=0;
};
static u64 nextPinver=1;

struct Shared { volatile int stop; volatile int errors; volatile int tests; };
static Shared*shm;

struct Engine {
  Module*M; const DataLayout*DL; string outdir; double deadline=1e18; int maxErrors=3; u64 maxInstr=30000000; int maxTests=30; bool noUninit=false,forkTables=false; u64 maxEnum=1200;
  std::unordered_map<const Function*,FuncInfo*> fcache; std::unordered_map<u64,Function*> faddr; std::unordered_map<const Value*,u64> gaddr; std::unordered_map<string,Builtin> builtins;
  vector<State*> work; set<string> covers, functionsRun; 
  struct ErrRec { string kind,msg,stack; string inputs; bool undef; }; vector<ErrRec> errs; set<string> errKeys; vector<string> tests; vector<string> incomplete; 
  map<string,vector<Expr*>> symcache; set<string> unmodelled; u64 nextStateId=1; string entryName; map<string,u64> kindTI; bool isChild=false; vector<pid_t> kids; int jr=-1,jw=-1; bool haveToken=false; set<string> noteSet;
  std::unordered_map<const Function*,bool> seenF;
  void note(const string&s){ if(noteSet.insert(s).second) fprintf(stderr,"note: %s\n",s.c_str()); }

  // ------------------------------------------------------------ types
  unsigned width(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80; string s; raw_string_ostream o(s); t->print(o); fprintf(stderr,"bad type %s\n",s.c_str()); return 64; }
  void flatten(Type*t,u64 off,vector<Leaf>&out){
    if(t->isVoidTy()) return;
    if(auto*s=dyn_cast<StructType>(t)){ auto*L=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();++i) flatten(s->getElementType(i),off+L->getElementOffset(i),out); return; }
    if(auto*a=dyn_cast<ArrayType>(t)){ u64 sz=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();++i) flatten(a->getElementType(),off+i*sz,out); return; }
    if(auto*v=dyn_cast<FixedVectorType>(t)){ u64 sz=DL->getTypeStoreSize(v->getElementType()); for(u64 i=0;i<v->getNumElements();++i) flatten(v->getElementType(),off+i*sz,out); return; }
    out.push_back({off,width(t)});
  }
  unsigned nleaves(Type*t){ vector<Leaf> l; flatten(t,0,l); return l.size(); }
  u64 faddrOf(Function*F){ auto it=gaddr.find(F); return it->second; }
  Val apv(const APInt&a){ if(a.getBitWidth()<=64) return CV(a.getZExtValue()); Expr*lo=P.cst(a.extractBitsAsZExtValue(64,0),64); unsigned hw=a.getBitWidth()-64; return Val{0,P.intern(P.mk(KConcat,a.getBitWidth(),0,P.cst(a.extractBitsAsZExtValue(hw,64),hw),lo))}; }
  void constVals(Constant*c,vector<Val>&out){
    Type*t=c->getType();
    if(auto*i=dyn_cast<ConstantInt>(c)){ out.push_back(apv(i->getValue())); return; }
    if(auto*f=dyn_cast<ConstantFP>(c)){ out.push_back(apv(f->getValueAPF().bitcastToAPInt())); return; }
    if(isa<ConstantPointerNull>(c)){ out.push_back(CV(0)); return; }
    if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantTokenNone>(c)){ unsigned n=nleaves(t); for(unsigned i=0;i<n;++i) out.push_back(CV(0)); return; }
    if(auto*g=dyn_cast<GlobalValue>(c)){ out.push_back(CV(globalAddr(g))); return; }
    if(auto*d=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<d->getNumElements();++i) constVals(d->getElementAsConstant(i),out); return; }
    if(auto*a=dyn_cast<ConstantAggregate>(c)){ for(unsigned i=0;i<a->getNumOperands();++i) constVals(a->getOperand(i),out); return; }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
      switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)){ fprintf(stderr,"const gep\n"); abort(); } vector<Val> b; constVals(cast<Constant>(g->getPointerOperand()),b); out.push_back(CV(b[0].c+off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { vector<Val> b; constVals(ce->getOperand(0),b); out.push_back(CV(b[0].c&maskW(width(t)))); return; }
      case Instruction::Trunc: { vector<Val> b; constVals(ce->getOperand(0),b); out.push_back(CV(b[0].c&maskW(width(t)))); return; }
      case Instruction::Sub: { vector<Val> a,b; constVals(ce->getOperand(0),a); constVals(ce->getOperand(1),b); out.push_back(CV((a[0].c-b[0].c)&maskW(width(t)))); return; }
      case Instruction::Add: { vector<Val> a,b; constVals(ce->getOperand(0),a); constVals(ce->getOperand(1),b); out.push_back(CV((a[0].c+b[0].c)&maskW(width(t)))); return; }
      case Instruction::ICmp: { vector<Val> a,b; constVals(ce->getOperand(0),a); constVals(ce->getOperand(1),b); bool r=false; switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: r=a[0].c==b[0].c; break; case CmpInst::ICMP_NE: r=a[0].c!=b[0].c; break; case CmpInst::ICMP_UGT: r=a[0].c>b[0].c; break; default: fprintf(stderr,"const icmp\n"); abort(); } out.push_back(CV(r)); return; }
      case Instruction::Select: { vector<Val> a; constVals(ce->getOperand(0),a); constVals(ce->getOperand(a[0].c?1:2),out); return; }
      default: { string s; raw_string_ostream o(s); ce->print(o); fprintf(stderr,"constexpr %s\n",s.c_str()); abort(); }
      }
    }
    string s; raw_string_ostream o(s); c->print(o); fprintf(stderr,"const? %s\n",s.c_str()); abort();
  }
  u64 globalAddr(const GlobalValue*g){ auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second; if(auto*a=dyn_cast<GlobalAlias>(g)){ vector<Val> v; constVals(const_cast<Constant*>(a->getAliasee()),v); gaddr[g]=v[0].c; return v[0].c; } fprintf(stderr,"no addr for %s\n",g->getName().str().c_str()); abort(); }

  // ------------------------------------------------------------ decode
  FuncInfo* decode(Function*F){
    auto it=fcache.find(F); if(it!=fcache.end()) return it->second;
    FuncInfo*fi=new FuncInfo; fi->F=F; fi->name=demangle(F->getName().str()); fcache[F]=fi;
    std::unordered_map<const Value*,int> slot; int ns=0;
    std::unordered_map<const Constant*,int> cslot;
    for(auto&a:F->args()){ slot[&a]=ns; fi->argSlots.push_back(ns); ns+=std::max(1u,nleaves(a.getType())); }
    for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()){ slot[&I]=ns; ns+=std::max(1u,nleaves(I.getType())); }
    fi->nslots=ns;
    auto op=[&](const Value*v)->int{ if(auto*c=dyn_cast<Constant>(v)){ auto it=cslot.find(c); if(it!=cslot.end()) return it->second; int b=fi->pool.size(); vector<Val> o; constVals(const_cast<Constant*>(c),o); if(o.empty()) o.push_back(CV(0)); for(auto&x:o) fi->pool.push_back(x); cslot[c]=-1-b; return -1-b; }
      auto it=slot.find(v); if(it==slot.end()){ if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return 0; fprintf(stderr,"no slot\n"); abort(); } return it->second; };
    std::unordered_map<const BasicBlock*,u32> bpc; u32 pc=0;
    for(auto&B:*F){ bpc[&B]=pc; for(auto&I:B){ if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue; if(skipI(&I)) continue; pc++; } }
    auto edge=[&](const BasicBlock*from,const BasicBlock*to)->u32{ Edge e; e.pc=bpc[to]; for(auto&ph:to->phis()){ int n=std::max(1u,nleaves(ph.getType())); int d=slot[&ph]; int s=op(ph.getIncomingValueForBlock(from)); for(int i=0;i<n;++i) e.cp.push_back({d+i, s>=0? s+i : s-i}); } fi->edges.push_back(e); return fi->edges.size()-1; };
    for(auto&B:*F) for(auto&I:B){
      if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)||skipI(&I)) continue;
      Inst n; n.I=&I; if(!I.getType()->isVoidTy()){ n.dst=slot[&I]; n.nd=nleaves(I.getType()); }
      unsigned oc=I.getOpcode(); n.op=oc;
      if(I.isBinaryOp()){ n.ops={op(I.getOperand(0)),op(I.getOperand(1))}; Type*t=I.getType(); if(t->isVectorTy()) { n.w=width(t->getScalarType()); } else n.w=width(t); 
        switch(oc){ case Instruction::Add:n.sub=KAdd;break; case Instruction::Sub:n.sub=KSub;break; case Instruction::Mul:n.sub=KMul;break; case Instruction::UDiv:n.sub=KUDiv;break; case Instruction::SDiv:n.sub=KSDiv;break; case Instruction::URem:n.sub=KURem;break; case Instruction::SRem:n.sub=KSRem;break; case Instruction::And:n.sub=KAnd;break; case Instruction::Or:n.sub=KOr;break; case Instruction::Xor:n.sub=KXor;break; case Instruction::Shl:n.sub=KShl;break; case Instruction::LShr:n.sub=KLShr;break; case Instruction::AShr:n.sub=KAShr;break;
          case Instruction::FAdd:n.sub=KFAdd;break; case Instruction::FSub:n.sub=KFSub;break; case Instruction::FMul:n.sub=KFMul;break; case Instruction::FDiv:n.sub=KFDiv;break; default: n.sub=0; }
        n.op=OP_BINOP; }
      else switch(oc){
      case Instruction::ICmp: { auto*c=cast<ICmpInst>(&I); n.ops={op(I.getOperand(0)),op(I.getOperand(1))}; n.w=width(I.getOperand(0)->getType()->getScalarType()); n.sub=c->getPredicate(); n.op=OP_CMP; break; }
      case Instruction::FCmp: { auto*c=cast<FCmpInst>(&I); n.ops={op(I.getOperand(0)),op(I.getOperand(1))}; n.w=width(I.getOperand(0)->getType()->getScalarType()); n.sub=c->getPredicate(); break; }
      case Instruction::Trunc: n.ops={op(I.getOperand(0))}; n.w=width(I.getType()->getScalarType()); n.w2=width(I.getOperand(0)->getType()->getScalarType()); n.op=OP_TRUNC; break;
      case Instruction::PtrToInt: { n.ops={op(I.getOperand(0))}; n.w=width(I.getType()); n.w2=64; n.op= n.w<64?OP_TRUNC: OP_COPY; break; }
      case Instruction::IntToPtr: { n.ops={op(I.getOperand(0))}; n.w=64; n.w2=width(I.getOperand(0)->getType()); n.op= n.w2<64?OP_ZEXT:OP_COPY; break; }
      case Instruction::ZExt: n.ops={op(I.getOperand(0))}; n.w=width(I.getType()->getScalarType()); n.w2=width(I.getOperand(0)->getType()->getScalarType()); n.op=OP_ZEXT; break;
      case Instruction::SExt: n.ops={op(I.getOperand(0))}; n.w=width(I.getType()->getScalarType()); n.w2=width(I.getOperand(0)->getType()->getScalarType()); n.op=OP_SEXT; break;
      case Instruction::BitCast: { n.ops={op(I.getOperand(0))}; unsigned ln=nleaves(I.getOperand(0)->getType()); if(ln==n.nd) n.op=OP_COPY; else { n.imm={ln}; n.w=width(I.getType()->getScalarType()); n.w2=width(I.getOperand(0)->getType()->getScalarType()); } break; }
      case Instruction::Freeze: n.ops={op(I.getOperand(0))}; n.op=OP_COPY; break;
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: n.ops={op(I.getOperand(0))}; n.w=width(I.getType()); n.w2=width(I.getOperand(0)->getType()); break;
      case Instruction::FNeg: n.ops={op(I.getOperand(0))}; n.w=width(I.getType()); break;
      case Instruction::Alloca: { auto*a=cast<AllocaInst>(&I); n.imm={(u64)DL->getTypeAllocSize(a->getAllocatedType())}; n.ops={op(a->getArraySize())}; n.w=width(a->getArraySize()->getType()); break; }
      case Instruction::Load: flatten(I.getType(),0,n.leaves); n.ops={op(I.getOperand(0))}; n.imm={(u64)DL->getTypeStoreSize(I.getType())}; break;
      case Instruction::Store: flatten(I.getOperand(0)->getType(),0,n.leaves); n.ops={op(I.getOperand(0)),op(I.getOperand(1))}; n.imm={(u64)DL->getTypeStoreSize(I.getOperand(0)->getType())}; break;
      case Instruction::GetElementPtr: { auto*g=cast<GetElementPtrInst>(&I); i64 off=0; n.ops={op(g->getPointerOperand())};
          for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            u64 sz=gi.getSequentialElementStride(*DL); if(auto*ci=dyn_cast<ConstantInt>(ix)){ off+=ci->getSExtValue()*(i64)sz; continue; }
            n.ops.push_back(op(ix)); n.imm.push_back(sz); n.imm.push_back(width(ix->getType())); }
          n.imm.push_back((u64)off); break; }
      case Instruction::Select: n.ops={op(I.getOperand(0)),op(I.getOperand(1)),op(I.getOperand(2))}; flatten(I.getType(),0,n.leaves); n.sub=I.getOperand(0)->getType()->isVectorTy()?2: I.getType()->isPointerTy()?1:0; break;
      case Instruction::Br: { auto*b=cast<BranchInst>(&I); n.t0=edge(&B,b->getSuccessor(0)); if(b->isConditional()){ n.sub=1; n.ops={op(b->getCondition())}; n.t1=edge(&B,b->getSuccessor(1)); } break; }
      case Instruction::Switch: { auto*s=cast<SwitchInst>(&I); n.ops={op(s->getCondition())}; n.w=width(s->getCondition()->getType()); n.t0=edge(&B,s->getDefaultDest()); for(auto c:s->cases()){ n.imm.push_back(c.getCaseValue()->getZExtValue()); n.imm.push_back(edge(&B,c.getCaseSuccessor())); } break; }
      case Instruction::Ret: if(I.getNumOperands()){ n.ops={op(I.getOperand(0))}; n.nd=nleaves(I.getOperand(0)->getType()); } else n.nd=0; break;
      case Instruction::Unreachable: break;
      case Instruction::ExtractValue: { auto*e=cast<ExtractValueInst>(&I); n.ops={op(I.getOperand(0))}; n.imm={leafIndex(e->getAggregateOperand()->getType(),e->getIndices())}; break; }
      case Instruction::InsertValue: { auto*e=cast<InsertValueInst>(&I); n.ops={op(I.getOperand(0)),op(I.getOperand(1))}; n.imm={leafIndex(I.getType(),e->getIndices()),nleaves(I.getOperand(1)->getType())}; break; }
      case Instruction::ExtractElement: { n.ops={op(I.getOperand(0)),op(I.getOperand(1))}; break; }
      case Instruction::InsertElement: { n.ops={op(I.getOperand(0)),op(I.getOperand(1)),op(I.getOperand(2))}; break; }
      case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(&I); n.ops={op(I.getOperand(0)),op(I.getOperand(1))}; n.imm.push_back(nleaves(I.getOperand(0)->getType())); for(int m:sv->getShuffleMask()) n.imm.push_back((u64)(i64)m); break; }
      case Instruction::LandingPad: { auto*l=cast<LandingPadInst>(&I); n.op=OP_LANDING; n.imm.push_back(l->isCleanup()); for(unsigned i=0;i<l->getNumClauses();++i){ if(l->isFilter(i)){ n.imm.push_back(~0ull); continue;} vector<Val> v; constVals(l->getClause(i),v); n.imm.push_back(v[0].c); } break; }
      case Instruction::Resume: n.ops={op(I.getOperand(0))}; break;
      case Instruction::AtomicRMW: { auto*a=cast<AtomicRMWInst>(&I); n.ops={op(a->getPointerOperand()),op(a->getValOperand())}; n.w=width(I.getType()); n.sub=a->getOperation(); break; }
      case Instruction::Fence: break;
      case Instruction::Call: case Instruction::Invoke: {
          auto*c=cast<CallBase>(&I); n.invoke=oc==Instruction::Invoke; for(auto&a:c->args()) n.ops.push_back(op(a.get()));
          for(unsigned i=0;i<c->arg_size();++i){ n.imm.push_back(nleaves(c->getArgOperand(i)->getType())); n.leaves.push_back({c->isByValArgument(i)?(u64)DL->getTypeAllocSize(c->getParamByValType(i)):0, 0}); }
          if(n.invoke){ auto*iv=cast<InvokeInst>(c); n.t0=edge(&B,iv->getNormalDest()); n.t1=edge(&B,iv->getUnwindDest()); }
          Function*cf=dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
          if(!cf) if(auto*al=dyn_cast<GlobalAlias>(c->getCalledOperand())) cf=dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
          if(isa<InlineAsm>(c->getCalledOperand())) { n.op=OP_CALLB; n.bi=builtins["__asm__"]; break; }
          if(cf){ n.callee=cf; Builtin b=findBuiltin(cf); if(b){ n.op=OP_CALLB; n.bi=b; } else n.op=OP_CALLF; }
          else { n.op=OP_CALLI; n.ops.push_back(op(c->getCalledOperand())); }
          break; }
      default: break;
      }
      fi->code.push_back(std::move(n));
    }
    return fi;
  }
  static bool skipI(const Instruction*I){ if(auto*c=dyn_cast<IntrinsicInst>(I)){ switch(c->getIntrinsicID()){ case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: return !isa<InvokeInst>(I); default: return false; } } return false; }
  u64 leafIndex(Type*t,ArrayRef<unsigned> ix){ u64 r=0; for(unsigned i:ix){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;++k) r+=nleaves(s->getElementType(k)); t=s->getElementType(i);} else { auto*a=cast<ArrayType>(t); r+=i*nleaves(a->getElementType()); t=a->getElementType(); } } return r; }
  Builtin findBuiltin(Function*F){ string n=F->getName().str(); auto it=builtins.find(n); if(it!=builtins.end()) return it->second; if(F->isIntrinsic()){ for(string p=n;;){ auto d=p.rfind('.'); if(d==string::npos) break; p=p.substr(0,d); auto it=builtins.find(p); if(it!=builtins.end()) return it->second; } } return nullptr; }

  // ------------------------------------------------------------ state helpers
  std::map<string,u64> prof; std::map<string,double> profT; bool profOn=getenv("VP_PROF")!=nullptr;
  State* clone(State&s){ State*n=new State(s); n->id=nextStateId++; stats.forks++; if(profOn){ string w=where(s),k,l; std::istringstream is(w); int c=0; while(std::getline(is,l)) if(c==0||l.find("/repo/")!=string::npos||l.find("harness")!=string::npos){ k+=l+"\n    "; if(++c==3) break; } prof[k]++; } return n; }
  Frame& top(State&s){ return *s.st.back().own(); }
  const Val& get(State&s,const Frame&f,int o){ return o>=0? f.r[o] : f.fi->pool[-1-o]; }
  const Val& get(State&s,const Frame&f,int o,int k){ return o>=0? f.r[o+k] : f.fi->pool[-1-o+k]; }
  Expr* simp(State&s,Expr*e){ if(e->k==KConst) return e; if(!s.epins.empty()){ auto it=s.epins.find(e); if(it!=s.epins.end()) return P.cst(it->second,e->width); } if(s.pins.empty()) return e; Expr*r=P.subst(e,s.pins,s.pinver); if(r!=e&&!s.epins.empty()){ auto it=s.epins.find(r); if(it!=s.epins.end()) return P.cst(it->second,r->width); } return r; }
  void addCons(State&s,Expr*e){ if(e->k==KConst) return; if(e->k==KAnd&&e->width==1){ addCons(s,e->a); addCons(s,e->b); return; }
    if(e->k==KXor&&e->width==1&&P.isC(e->b,1)&&e->a->k==KOr){ addCons(s,P.bnot(e->a->a)); addCons(s,P.bnot(e->a->b)); return; }
    for(Expr*x:s.cons) if(x==e) return; s.cons.push_back(e);
    if(e->k==KEq&&e->b->k==KConst){ if(e->a->k==KVar) s.pins[(u32)e->a->c]=e->b->c; else s.epins[e->a]=e->b->c; s.pinver=nextPinver++; }
    else if(e->k==KVar&&e->width==1){ s.pins[(u32)e->c]=1; s.pinver=nextPinver++; } }
  bool modelSays(State&s,Expr*e){ P.stamp++; return P.eval(e,s.model)!=0; }
  u64 modelVal(State&s,Expr*e){ P.stamp++; return P.eval(e,s.model); }
  // decide a boolean; forks a clone that re-executes the current instruction with the other outcome
  int decide(State&s,Expr*c){
    c=simp(s,c); if(c->k==KConst) return c->c?1:0;
    Expr*nc=P.bnot(c);
    for(size_t i=s.cons.size();i-->0;){ if(s.cons[i]==c) return 1; if(s.cons[i]==nc) return 0; }
    bool v=modelSays(s,c); stats.modelHits++;
    Expr*other=v?nc:c; vector<u64> m; double t0=profOn?now():0; Res r=S->check(s.cons,other,s.model,&m); if(profOn){ double t=now()-t0; string w=where(s),k,l; std::istringstream is(w); int c=0; while(std::getline(is,l)) if(c==0||l.find("/repo/")!=string::npos||l.find("harness")!=string::npos){ k+=l+"\n    "; if(++c==3) break; } profT[k]+=t; }
    if(r==UNKNOWN){ incompleteMark("solver gave up"); }
    if(r==SAT){ State*n=clone(s); addCons(*n,other); n->model=m; n->depth++; work.push_back(n); s.depth++; addCons(s,v?c:nc); }
    else if(r==UNKNOWN){ addCons(s,v?c:nc); }
    return v;
  }
  // is e possible? (no fork)
  Res possible(State&s,Expr*c,vector<u64>*m){ c=simp(s,c); if(c->k==KConst) { if(c->c&&m) *m=s.model; return c->c?SAT:UNSAT; } Expr*nc=P.bnot(c); for(Expr*x:s.cons) { if(x==c){ if(m)*m=s.model; return SAT;} if(x==nc) return UNSAT; } if(modelSays(s,c)){ if(m)*m=s.model; return SAT; } Res r=S->check(s.cons,c,s.model,m); if(r==UNKNOWN) incompleteMark("solver gave up"); return r; }
  u64 concretize(State&s,const Val&v,unsigned w,const char*what){
    if(!v.e) return v.c; Expr*e=simp(s,v.e); if(e->k==KConst) return e->c;
    u64 val=modelVal(s,e); Expr*ne=P.bnot(P.bin(KEq,e,P.cst(val,e->width)));
    vector<u64> m; Res r=S->check(s.cons,ne,s.model,&m);
    if(r==UNKNOWN) incompleteMark("solver gave up");
    if(r==SAT){ u64 cnt=0; for(Expr*x:s.cons) if(x->k==KXor&&x->a->k==KEq&&x->a->a==e) cnt++;
      if(cnt>maxEnum){ incompleteMark(string("too many values for symbolic ")+what+" at "+where(s)); }
      else { State*n=clone(s); addCons(*n,ne); n->model=m; n->depth++; work.push_back(n); } }
    Expr*eq=P.bin(KEq,e,P.cst(val,e->width)); addCons(s,eq); if(s.epins.find(e)==s.epins.end()){ s.epins[e]=val; s.pinver=nextPinver++; }
    return val;
  }
  string where(State&s){ string r; int n=0; for(size_t i=s.st.size();i-->0&&n<14;++n){ auto&f=*s.st[i]; string loc; if(f.pc<f.fi->code.size()){ if(auto&dl=f.fi->code[f.pc].I->getDebugLoc()){ loc=dl->getFilename().str()+":"+std::to_string(dl.getLine()); for(auto*ia=dl->getInlinedAt();ia;ia=ia->getInlinedAt()) loc+=" < "+ia->getFilename().str()+":"+std::to_string(ia->getLine()); } }
      string nm=f.fi->name; auto p=nm.find('('); if(p!=string::npos) nm=nm.substr(0,p); r+=nm+" @ "+loc+"\n"; } return r; }
  void incompleteMark(const string&s){ string k=s.substr(0,s.find('\n')); for(auto&x:incomplete) if(x.substr(0,x.find('\n'))==k) return; incomplete.push_back(s); fprintf(stderr,"INCOMPLETE: %s\n",s.c_str()); }
  static string jesc(const string&s){ string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
  string inputsJson(State&s,const vector<u64>&m){ string r="["; bool first=true; for(auto&p:s.inputs){ if(!first) r+=","; first=false; r+="["+jesc(p.first)+",\""; for(u32 v:p.second){ char b[4]; snprintf(b,4,"%02x",(unsigned)((v<m.size()?m[v]:0)&0xff)); r+=b; } r+="\"]"; } return r+"]"; }
  void report(State&s,const string&kind,const string&msg,const vector<u64>*m=nullptr){
    string stk=where(s); 
    if(kind=="unmodelled"||kind=="engine"){ incompleteMark(kind+": "+msg+"\n"+stk); return; }
    // key: message plus innermost application frame
    string key=kind+"|"+msg.substr(0,120); { std::istringstream is(stk); string l; while(std::getline(is,l)) if(l.find("/repo/")!=string::npos||l.find("harness")!=string::npos){ key+="|"+l; break; } }
    if(!errKeys.insert(key).second) return;
    errs.push_back({kind,msg,stk,inputsJson(s,m?*m:s.model),false}); __sync_fetch_and_add(&shm->errors,1);
    fprintf(stderr,"ERROR %s: %s\n%s\n",kind.c_str(),msg.c_str(),stk.c_str());
    if(shm->errors>=maxErrors) shm->stop=1;
  }
  void kill(State&s){ s.dead=true; }
  void fail(State&s,const string&kind,const string&msg){ if(s.pre){ fprintf(stderr,"in static init: "); } report(s,kind,msg); kill(s); }

  // ------------------------------------------------------------ memory
  u64 alloc(State&s,u64 size,int kind,bool zero,const char*name){ Obj*o=new Obj; o->size=size; o->kind=kind; o->name=name; o->d.assign(size,0); if(!zero&&size&&!noUninit) o->un.assign(size,1); return s.mem.add(o); }
  string descr(State&s,u64 a){ u64 idx=a>>SLOTBITS; Obj*o=s.mem.get(idx); char b[200]; if(!o){ snprintf(b,200,"address 0x%llx",(unsigned long long)a); } else snprintf(b,200,"offset %lld of %s object '%s' of %llu bytes",(long long)(a-addrOf(idx)),o->kind==OK_HEAP?"heap":o->kind==OK_STACK?"stack":o->kind==OK_GLOBAL?"global":"other",o->name,(unsigned long long)o->size); return b; }
  // resolves a concrete address; returns object index or 0 after reporting
  u64 resolveC(State&s,u64 a,u64 n,bool w,u64&off){
    u64 idx=a>>SLOTBITS; Obj*o=s.mem.get(idx);
    if(!o){ // large objects span several slots
      u64 j=idx; for(int k=0;k<64&&j>0;++k){ --j; o=s.mem.get(j); if(o){ if(a-addrOf(j)<o->size) idx=j; else o=nullptr; break; } }
    }
    if(!o){ if(n==0){ off=0; return 0; } fail(s,a<4096?"null":"oob",string(w?"write":"read")+" of "+std::to_string(n)+" bytes at invalid "+descr(s,a)); return 0; }
    off=a-addrOf(idx);
    if(o->freed){ fail(s,"uaf",string(w?"write to":"read from")+" freed "+descr(s,a)); return 0; }
    if(o->kind==OK_FUNC){ fail(s,"oob","data access to function"); return 0; }
    if(off>o->size||n>o->size-off){ fail(s,"oob",string(w?"write":"read")+" of "+std::to_string(n)+" bytes at "+descr(s,a)); return 0; }
    if(w&&o->ro){ fail(s,"oob","write to read-only "+descr(s,a)); return 0; }
    return idx;
  }
  Expr* byteE(Obj*o,u64 i){ if(!o->sym.empty()&&o->sym[i]) return o->sym[i]; return P.cst(o->d[i],8); }
  void materialize(State&s,u64 idx,u64 off,u64 n){ Obj*o=s.mem.get(idx); if(o->un.empty()) return; bool any=false; for(u64 i=0;i<n;++i) if(o->un[off+i]){any=true;break;} if(!any) return;
    o=s.mem.wr(idx); if(o->sym.empty()) o->sym.assign(o->size,nullptr);
    for(u64 i=0;i<n;++i) if(o->un[off+i]){ o->un[off+i]=0; string key="undef#"+std::to_string(s.undefs++); auto&v=symcache[key]; if(v.empty()) v.push_back(P.var(key,8,true)); o->sym[off+i]=v[0]; } }
  Val loadC(State&s,u64 idx,u64 off,unsigned w){ // w bits
    unsigned n=(w+7)/8; Obj*o=s.mem.get(idx);
    if(!o->un.empty()){ materialize(s,idx,off,n); o=s.mem.get(idx); }
    bool sy=false; if(!o->sym.empty()) for(unsigned i=0;i<n;++i) if(o->sym[off+i]){sy=true;break;}
    if(!sy&&n<=8){ u64 v=0; memcpy(&v,&o->d[off],n); return CV(v&maskW(w)); }
    Expr*e=byteE(o,off); for(unsigned i=1;i<n;++i) e=P.concat(byteE(o,off+i),e);
    if(e->width!=w) e=P.extract(e,0,w);
    return EV(e);
  }
  void storeC(State&s,u64 idx,u64 off,unsigned w,const Val&v){
    unsigned n=(w+7)/8; Obj*o=s.mem.wr(idx);
    if(!o->un.empty()) for(unsigned i=0;i<n;++i) o->un[off+i]=0;
    if(!v.e){ u64 c=v.c; if(n<=8) memcpy(&o->d[off],&c,n); else { memset(&o->d[off],0,n); memcpy(&o->d[off],&c,8);} if(!o->sym.empty()) for(unsigned i=0;i<n;++i) o->sym[off+i]=nullptr; return; }
    if(o->sym.empty()) o->sym.assign(o->size,nullptr);
    Expr*e=v.e; if(e->width<n*8) e=P.zext(e,n*8);
    for(unsigned i=0;i<n;++i){ Expr*b=P.extract(e,i*8,8); if(b->k==KConst){ o->d[off+i]=b->c; o->sym[off+i]=nullptr; } else o->sym[off+i]=b; }
  }
  // symbolic address: returns idx; offE symbolic offset (or concrete through off)
  u64 resolve(State&s,const Val&a,u64 n,bool w,u64&off,Expr*&offE){
    offE=nullptr; if(!a.e) return resolveC(s,a.c,n,w,off);
    Expr*e=simp(s,a.e); if(e->k==KConst) return resolveC(s,e->c,n,w,off);
    for(int tries=0;;++tries){
      u64 v=modelVal(s,e); u64 idx=v>>SLOTBITS; Obj*o=s.mem.get(idx);
      if(!o||o->kind==OK_FUNC||o->size<n){ // this model is a violation
        fail(s,"oob",string(w?"write":"read")+" of "+std::to_string(n)+" bytes at symbolic "+descr(s,v)); return 0; }
      u64 base=addrOf(idx); Expr*rel=P.bin(KSub,e,P.cst(base,64)); Expr*ok=P.bin(KUle,rel,P.cst(o->size-n,64));
      int d=decide(s,ok);
      if(!d){ // current model is out of this object's bounds
        fail(s,"oob",string(w?"write":"read")+" of "+std::to_string(n)+" bytes at symbolic "+descr(s,v)); return 0; }
      if(o->freed){ fail(s,"uaf","symbolic access to freed "+descr(s,v)); return 0; }
      if(w&&o->ro){ fail(s,"oob","write to read-only "+descr(s,v)); return 0; }
      rel=simp(s,rel); if(rel->k==KConst){ off=rel->c; return idx; }
      offE=rel; return idx;
    }
  }
  bool load(State&s,const Val&a,unsigned w,Val&out){
    unsigned n=(w+7)/8; u64 off; Expr*oe; u64 idx=resolve(s,a,n,false,off,oe); if(!idx) return false;
    if(!oe){ out=loadC(s,idx,off,w); return true; }
    Obj*o=s.mem.get(idx); u64 cnt=o->size-n+1; unsigned tz=ExprPool::ctz(oe->kz); u64 step= tz>=16?65536:(1ull<<tz); u64 mx=~oe->kz; 
    u64 lim=std::min(cnt-1,mx);
    if(lim/step>600){ off=concretize(s,Val{0,oe},64,"read offset"); out=loadC(s,idx,off,w); return true; }
    Expr*r=nullptr; 
    for(u64 k=(lim/step)*step;;k-=step){ Val v=loadC(s,idx,k,w); Expr*ve=X(v,w); r= r? P.ite(P.bin(KEq,oe,P.cst(k,64)),ve,r):ve; if(k==0) break; }
    if(forkTables&&r->k!=KConst&&s.mem.get(idx)->ro){ out=CV(concretize(s,EV(r),w,"table value")); return true; }
    out=EV(r); return true;
  }
  bool store(State&s,const Val&a,unsigned w,const Val&v){
    unsigned n=(w+7)/8; u64 off; Expr*oe; u64 idx=resolve(s,a,n,true,off,oe); if(!idx) return false;
    if(oe) off=concretize(s,Val{0,oe},64,"write offset");
    storeC(s,idx,off,w,v); return true;
  }
  u64 rd(State&s,u64 a,unsigned n){ u64 off; u64 idx=resolveC(s,a,n,false,off); if(!idx) return 0; Val v=loadC(s,idx,off,n*8); return v.e? modelVal(s,v.e):v.c; }
  string cstr(State&s,u64 a){ string r; for(;;){ u64 off; u64 idx=resolveC(s,a,1,false,off); if(!idx) break; Val v=loadC(s,idx,off,8); u8 c=v.e?modelVal(s,v.e):v.c; if(!c) break; r+=(char)c; ++a; if(r.size()>400) break; } return r; }
  bool copyMem(State&s,const Val&dst,const Val&src,u64 n){
    if(n==0) return true; u64 so,d0; Expr*e1,*e2; u64 si=resolve(s,src,n,false,so,e1); if(!si) return false; if(e1) so=concretize(s,Val{0,e1},64,"copy source");
    u64 di=resolve(s,dst,n,true,d0,e2); if(!di) return false; if(e2) d0=concretize(s,Val{0,e2},64,"copy target");
    Obj*d=s.mem.wr(di); Obj*o=s.mem.get(si); 
    bool osym=false,oun=false; if(!o->sym.empty()) for(u64 i=0;i<n;++i) if(o->sym[so+i]){osym=true;break;} if(!o->un.empty()) for(u64 i=0;i<n;++i) if(o->un[so+i]){oun=true;break;}
    if(oun&&o!=d&&0){}
    memmove(&d->d[d0],&o->d[so],n);
    if(osym&&d->sym.empty()) d->sym.assign(d->size,nullptr);
    if(!d->sym.empty()){ if(osym) memmove(&d->sym[d0],&o->sym[so],n*sizeof(Expr*)); else memset(&d->sym[d0],0,n*sizeof(Expr*)); }
    if(oun&&d->un.empty()) d->un.assign(d->size,0);
    if(!d->un.empty()){ if(oun) memmove(&d->un[d0],&o->un[so],n); else memset(&d->un[d0],0,n); }
    return true;
  }

  // ------------------------------------------------------------ calls
  void jump(State&s,Frame&f,u32 e){ Edge&ed=f.fi->edges[e]; size_t n=ed.cp.size(); if(n==1){ f.r[ed.cp[0].first]=get(s,f,ed.cp[0].second); } else if(n){ Val tmp[64]; vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;++i) t[i]=get(s,f,ed.cp[i].second); for(size_t i=0;i<n;++i) f.r[ed.cp[i].first]=t[i]; } f.pc=ed.pc; }
  void advance(State&s){ Frame&f=top(s); Inst&in=f.fi->code[f.pc]; if(in.invoke) jump(s,f,in.t0); else f.pc++; }
  void setDst(State&s,const Val&v,int k=0){ Frame&f=top(s); Inst&in=f.fi->code[f.pc]; if(in.dst>=0) f.r[in.dst+k]=v; }
  bool pushCall(State&s,Function*F,const vector<Val>&args){ // args flattened
    FuncInfo*fi=decode(F); if(F->isDeclaration()){ fail(s,"unmodelled","call to "+fi->name+" ["+F->getName().str()+"]"); unmodelled.insert(F->getName().str()); return false; }
    if(s.st.size()>400){ fail(s,"stack","recursion deeper than 400 frames"); return false; }
    if(!seenF[F]){ seenF[F]=true; functionsRun.insert(fi->name); }
    Frame*f=new Frame; f->fi=fi; f->r.assign(fi->nslots,CV(0)); size_t na=0; for(size_t i=0;i<fi->argSlots.size();++i){ unsigned n=nleaves(F->getArg(i)->getType()); for(unsigned k=0;k<n&&na<args.size();++k) f->r[fi->argSlots[i]+k]=args[na++]; }
    s.st.push_back(Ref<Frame>(f)); return true;
  }
  void popFrame(State&s){ Frame&f=*s.st.back(); for(u64 a:f.allocas){ Obj*o=s.mem.wr(a); o->freed=true; o->d.clear(); o->sym.clear(); o->un.clear(); } s.st.pop_back(); }
  // ------------------------------------------------------------ exceptions
  u64 vtVMI=0,vtSI=0,vtC=0,vtPtr=0;
  // upcast from type ti at obj to target; returns true and adjusts
  bool upcast(State&s,u64 ti,u64 obj,u64 target,u64&res){
    if(ti==target){ res=obj; return true; }
    u64 vt=rd(s,ti,8); if(s.dead) return false; u64 vti=vt-16;
    if(vtSI&&vti==vtSI){ return upcast(s,rd(s,ti+16,8),obj,target,res); }
    if(vtVMI&&vti==vtVMI){ u64 nb=rd(s,ti+20,4); for(u64 i=0;i<nb;++i){ u64 b=rd(s,ti+24+i*16,8); i64 of=(i64)rd(s,ti+32+i*16,8); i64 o=of>>8; u64 bo; if(of&1){ if(!obj) continue; u64 vp=rd(s,obj,8); bo=obj+rd(s,vp+o,8); } else bo=obj?obj+o:0; if(upcast(s,b,bo,target,res)) return true; } return false; }
    return false;
  }
  void throwExc(State&s,u64 obj,u64 ti){ s.exc[obj]=ti; unwind(s,obj); }
  void unwind(State&s,u64 obj){ // top frame is the thrower's frame (current inst is a call); search from here
    for(;;){
      if(s.st.empty()) return;
      Frame&f=top(s); Inst&in=f.fi->code[f.pc];
      if(in.invoke){ Edge&ed=f.fi->edges[in.t1]; Inst&lp=f.fi->code[ed.pc]; if(lp.op!=OP_LANDING){ fail(s,"engine","no landing pad"); return; }
        u64 ti=s.exc[obj]; u64 sel=0; bool take=lp.imm[0]; s.adj[obj]=obj; for(size_t i=1;i<lp.imm.size();++i){ if(lp.imm[i]==0){ sel=1; take=true; break; } if(lp.imm[i]==~0ull){ continue; } u64 adj; if(upcast(s,ti,obj,lp.imm[i],adj)){ s.adj[obj]=adj; sel=typeId(lp.imm[i]); take=true; break; } if(s.dead) return; 
            // pointers: thrown T* caught as const T* etc. compare names
          }
        if(take){ jump(s,f,in.t1); if(lp.dst>=0){ f.r[lp.dst]=CV(obj); f.r[lp.dst+1]=CV(sel); } f.pc=ed.pc+1; return; }
      }
      if(s.st.size()==1){ u64 ti=s.exc[obj]; string nm=cstr(s,rd(s,ti+8,8)); fail(s,"uncaught","uncaught exception of type "+demangle("_ZTS"+nm).substr(0,100)); return; }
      popFrame(s);
    }
  }
  map<u64,u64> tids; u64 typeId(u64 ti){ if(ti==0) return 1; auto it=tids.find(ti); if(it!=tids.end()) return it->second; u64 n=tids.size()+2; tids[ti]=n; return n; }

  void run(State*s);
  void step(State&s);
  void initBuiltins(); void initGlobals(State&s); void finish(State&s);
  void storeConst(State&s,Obj*o,Constant*c,u64 off);
  void writeResult(double wall); void maybeShare(); double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  double lastShare=0; void explore(); void becomeChild();
};

#define A0 args[0]
#define A1 args[1]
#define A2 args[2]
#define BI(n) static BRes n(Engine&E,State&s,Inst&in,vector<Val>&args)

BI(b_nop){ if(in.dst>=0) for(u32 i=0;i<in.nd;++i) E.setDst(s,CV(0),i); return ADV; }
BI(b_malloc){ u64 n=E.concretize(s,A0,64,"allocation size"); if(n>(1u<<26)){ E.fail(s,"engine","huge allocation "+std::to_string(n)); return HANDLED; } u64 a=E.alloc(s,n,OK_HEAP,false,"heap"); s.mem.get(a>>SLOTBITS)->site=in.I; E.setDst(s,CV(a)); return ADV; }
BI(b_calloc){ u64 n=E.concretize(s,A0,64,"allocation size")*E.concretize(s,A1,64,"allocation size"); u64 a=E.alloc(s,n,OK_HEAP,true,"heap"); E.setDst(s,CV(a)); return ADV; }
static bool doFree(Engine&E,State&s,const Val&p){ u64 a=E.concretize(s,p,64,"freed pointer"); if(!a) return true; u64 idx=a>>SLOTBITS; Obj*o=s.mem.get(idx); if(!o||o->kind!=OK_HEAP||a!=addrOf(idx)){ E.fail(s,"free","free of invalid pointer: "+E.descr(s,a)); return false; } if(o->freed){ E.fail(s,"free","double free"); return false; } o=s.mem.wr(idx); o->freed=true; o->d=vector<u8>(); o->sym=vector<Expr*>(); o->un=vector<u8>(); return true; }
BI(b_free){ if(!doFree(E,s,A0)) return HANDLED; return ADV; }
BI(b_realloc){ u64 n=E.concretize(s,A1,64,"allocation size"); u64 p=E.concretize(s,A0,64,"pointer"); u64 a=E.alloc(s,n,OK_HEAP,false,"heap"); if(p){ Obj*o=s.mem.get(p>>SLOTBITS); if(!o||o->freed){ E.fail(s,"free","realloc of invalid pointer"); return HANDLED; } u64 m=std::min(n,o->size); if(!E.copyMem(s,CV(a),CV(p),m)) return HANDLED; if(!doFree(E,s,CV(p))) return HANDLED; } E.setDst(s,CV(a)); return ADV; }
BI(b_memcpy){ u64 n=E.concretize(s,A2,64,"copy length"); if(!E.copyMem(s,A0,A1,n)) return HANDLED; E.setDst(s,A0); return ADV; }
BI(b_memset){ u64 n=E.concretize(s,A2,64,"fill length"); if(n){ u64 off; Expr*oe; u64 idx=E.resolve(s,A0,n,true,off,oe); if(!idx) return HANDLED; if(oe) off=E.concretize(s,Val{0,oe},64,"fill offset"); Val b=A1; if(b.e) b=EV(P.extract(b.e,0,8)); else b.c&=0xff; for(u64 i=0;i<n;++i) E.storeC(s,idx,off+i,8,b); } E.setDst(s,A0); return ADV; }
BI(b_memcmp){ u64 n=E.concretize(s,A2,64,"compare length"); if(n==0){ E.setDst(s,CV(0)); return ADV; }
  // find the readable extent; libc may stop early, but the standard demands both ranges be valid
  u64 o1,o2; Expr*e1,*e2; u64 i1=E.resolve(s,A0,n,false,o1,e1); if(!i1) return HANDLED; if(e1) o1=E.concretize(s,Val{0,e1},64,"compare offset"); u64 i2=E.resolve(s,A1,n,false,o2,e2); if(!i2) return HANDLED; if(e2) o2=E.concretize(s,Val{0,e2},64,"compare offset");
  Expr*r=P.cst(0,32); for(u64 k=n;k-->0;){ Val x=E.loadC(s,i1,o1+k,8),y=E.loadC(s,i2,o2+k,8); Expr*a=X(x,8),*b=X(y,8); r=P.ite(P.bin(KEq,a,b),r,P.ite(P.bin(KUlt,a,b),P.cst(~0ull,32),P.cst(1,32))); }
  E.setDst(s,EV(r)); return ADV; }
BI(b_memchr){ u64 n=E.concretize(s,A2,64,"search length"); u64 p=E.concretize(s,A0,64,"pointer"); Expr*c=P.extract(X(A1,32),0,8); 
  for(u64 k=0;k<n;++k){ u64 off; u64 idx=E.resolveC(s,p+k,1,false,off); if(!idx) return HANDLED; Val x=E.loadC(s,idx,off,8); if(E.decide(s,P.bin(KEq,X(x,8),c))){ E.setDst(s,CV(p+k)); return ADV; } }
  E.setDst(s,CV(0)); return ADV; }
BI(b_strlen){ u64 p=E.concretize(s,A0,64,"pointer"); for(u64 k=0;;++k){ u64 off; u64 idx=E.resolveC(s,p+k,1,false,off); if(!idx) return HANDLED; Val x=E.loadC(s,idx,off,8); if(E.decide(s,P.bin(KEq,X(x,8),P.cst(0,8)))){ E.setDst(s,CV(k)); return ADV; } } }
// ---- verification interface
BI(b_sym){ u64 p=E.concretize(s,A0,64,"p"),n=E.concretize(s,A1,64,"n"); string nm=E.cstr(s,A2.c); int oc=s.occ[nm]++; string key=nm+"#"+std::to_string(oc)+"#"+std::to_string(n); auto&v=E.symcache[key]; if(v.empty()) for(u64 i=0;i<n;++i) v.push_back(P.var(key+"["+std::to_string(i)+"]",8,false));
  vector<u32> ids; for(u64 i=0;i<n;++i){ u64 off; u64 idx=E.resolveC(s,p+i,1,true,off); if(!idx) return HANDLED; E.storeC(s,idx,off,8,EV(v[i])); ids.push_back((u32)v[i]->c); } s.inputs.push_back({nm,ids}); return ADV; }
BI(b_assume){ Expr*c=E.simp(s,X(A0,1)); if(c->width>1) c=P.bnot(P.bin(KEq,c,P.cst(0,c->width))); vector<u64> m; Res r=E.possible(s,c,&m); if(r!=SAT){ stats.pathsInfeasible++; E.kill(s); return HANDLED; } s.model=m; E.addCons(s,c); return ADV; }
BI(b_assert){ stats.assertsChecked++; Expr*c=E.simp(s,X(A0,1)); if(c->width>1) c=P.bnot(P.bin(KEq,c,P.cst(0,c->width))); vector<u64> m; S->useDom=false; Res r=E.possible(s,P.bnot(c),&m); S->useDom=true; if(r==SAT){ E.report(s,"assert",E.cstr(s,A1.c),&m); Res r2=E.possible(s,c,&m); if(r2!=SAT){ E.kill(s); return HANDLED; } s.model=m; E.addCons(s,c); } return ADV; }
BI(b_cover){ string n=E.cstr(s,A0.c); if(E.covers.insert(n).second){} return ADV; }
BI(b_observe){ string n=E.cstr(s,A1.c); s.obs.push_back({n,A0}); return ADV; }
BI(b_fail){ E.fail(s,"assert",E.cstr(s,A0.c)); return HANDLED; }
BI(b_stop){ stats.paths++; E.kill(s); return HANDLED; }
BI(b_conc){ u64 v=E.concretize(s,A0,64,"value"); E.setDst(s,CV(v)); return ADV; }
BI(b_is_symbolic){ E.setDst(s,CV(A0.e&&E.simp(s,A0.e)->k!=KConst)); return ADV; }
BI(b_objsize){ u64 a=E.concretize(s,A0,64,"p"); Obj*o=s.mem.get(a>>SLOTBITS); E.setDst(s,CV(o?o->size:0)); return ADV; }
BI(b_print){ fprintf(stderr,"vp: %s\n",E.cstr(s,A0.c).c_str()); return ADV; }
BI(b_printv){ Val v=A1; fprintf(stderr,"vp: %s = %llx%s\n",E.cstr(s,A0.c).c_str(),(unsigned long long)(v.e?E.modelVal(s,v.e):v.c),v.e?" (sym)":""); return ADV; }
BI(b_defined){ // the bytes must not depend on uninitialised memory
  u64 p=E.concretize(s,A0,64,"p"),n=E.concretize(s,A1,64,"n"); string nm=E.cstr(s,A2.c);
  for(u64 i=0;i<n;++i){ u64 off; u64 idx=E.resolveC(s,p+i,1,false,off); if(!idx) return HANDLED; Val v=E.loadC(s,idx,off,8); stats.assertsChecked++; if(!v.e) continue; Expr*e=E.simp(s,v.e); if(e->k==KConst) continue;
    std::map<u32,u64> pin; VarSet*vs=e->vars; for(size_t j=0;j<vs->w.size();++j) for(u64 w=vs->w[j];w;w&=w-1){ u32 k=j*64+__builtin_ctzll(w); if(P.varinfo[k].undef) pin[k]=0; } if(pin.empty()) continue;
    static const u64 fills[]={0,0xff,0xbe,0x41}; vector<Expr*> es; for(u64 f:fills){ for(auto&q:pin) q.second=f; es.push_back(P.subst(e,pin,nextPinver++)); }
    for(size_t a=1;a<es.size();++a) if(es[a]!=es[0]){ vector<u64> m; if(E.possible(s,P.bnot(P.bin(KEq,es[0],es[a])),&m)==SAT){ E.report(s,"undef","uninitialised data in "+nm,&m); E.kill(s); return HANDLED; } } }
  return ADV; }
BI(b_undef){ // mark memory as uninitialised
  return ADV; }
// ---- C++ runtime
BI(b_alloc_exc){ u64 n=E.concretize(s,A0,64,"n"); u64 a=E.alloc(s,n,OK_EXC,true,"exception"); E.setDst(s,CV(a)); return ADV; }
BI(b_throw){ E.throwExc(s,A0.c,A1.c); return HANDLED; }
// the handler sees the base it names, found when the handler was chosen
BI(b_begin_catch){ u64 o=A0.c; s.caught.push_back(o); auto i=s.adj.find(o); E.setDst(s,CV(i==s.adj.end()?o:i->second)); return ADV; }
BI(b_end_catch){ if(!s.caught.empty()) s.caught.pop_back(); return ADV; }
BI(b_rethrow){ if(s.caught.empty()){ E.fail(s,"terminate","rethrow without exception"); return HANDLED; } u64 o=s.caught.back(); E.unwind(s,o); return HANDLED; }
BI(b_getexc){ auto i=s.adj.find(A0.c); E.setDst(s,i==s.adj.end()?A0:CV(i->second)); return ADV; }
BI(b_typeid_for){ E.setDst(s,CV(E.typeId(A0.c))); return ADV; }
BI(b_guard_acq){ u64 g=A0.c; u64 off; u64 idx=E.resolveC(s,g,1,true,off); if(!idx) return HANDLED; Val v=E.loadC(s,idx,off,8); E.setDst(s,CV(v.c?0:1)); return ADV; }
BI(b_guard_rel){ u64 off; u64 idx=E.resolveC(s,A0.c,1,true,off); if(!idx) return HANDLED; E.storeC(s,idx,off,8,CV(1)); return ADV; }
BI(b_terminate){ E.fail(s,"terminate","std::terminate / abort called"); return HANDLED; }
BI(b_pure){ E.fail(s,"terminate","pure virtual call"); return HANDLED; }
BI(b_assertfail){ E.fail(s,"terminate","assertion in code failed: "+E.cstr(s,A0.c)); return HANDLED; }
BI(b_dyncast){ u64 p=E.concretize(s,A0,64,"p"); if(!p){ E.setDst(s,CV(0)); return ADV; } u64 vp=E.rd(s,p,8); if(s.dead) return HANDLED; i64 ot=(i64)E.rd(s,vp-16,8); u64 ti=E.rd(s,vp-8,8); if(s.dead) return HANDLED; u64 md=p+ot,r=0; if(!E.upcast(s,ti,md,args[2].c,r)) r=0; if(s.dead) return HANDLED; E.setDst(s,CV(r)); return ADV; }
BI(b_asm){ return ADV; }
// ---- intrinsics
static unsigned W(Inst&in){ return in.I->getType()->isStructTy()? in.I->getType()->getStructElementType(0)->getIntegerBitWidth(): in.I->getType()->isIntegerTy()?in.I->getType()->getIntegerBitWidth():64; }
BI(b_uaddo){ unsigned w=W(in); Expr*a=P.zext(X(A0,w),w+1),*b=P.zext(X(A1,w),w+1); if(w>=64){ Expr*x=X(A0,w),*y=X(A1,w); Expr*r=P.bin(KAdd,x,y); E.setDst(s,EV(r)); E.setDst(s,EV(P.bin(KUlt,r,x)),1); return ADV; } Expr*r=P.bin(KAdd,a,b); E.setDst(s,EV(P.extract(r,0,w))); E.setDst(s,EV(P.extract(r,w,1)),1); return ADV; }
BI(b_usubo){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); E.setDst(s,EV(P.bin(KSub,x,y))); E.setDst(s,EV(P.bin(KUlt,x,y)),1); return ADV; }
BI(b_umulo){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); Expr*r=P.bin(KMul,x,y); E.setDst(s,EV(r)); if(x->k==KConst&&y->k==KConst){ unsigned __int128 t=(unsigned __int128)x->c*y->c; E.setDst(s,CV(t>maskW(w)),1); return ADV; } if(x->k==KConst) std::swap(x,y); if(y->k==KConst){ u64 lim= y->c? maskW(w)/y->c : maskW(w); E.setDst(s,EV(P.bin(KUlt,P.cst(lim,w),x)),1); return ADV; } 
  Expr*q=P.bin(KUDiv,r,y); Expr*ov=P.bin(KAnd,P.bnot(P.bin(KEq,y,P.cst(0,w))),P.bnot(P.bin(KEq,q,x))); E.setDst(s,EV(ov),1); return ADV; }
BI(b_saddo){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); Expr*r=P.bin(KAdd,x,y); Expr*z=P.cst(0,w); Expr*sx=P.bin(KSlt,x,z),*sy=P.bin(KSlt,y,z),*sr=P.bin(KSlt,r,z); E.setDst(s,EV(r)); E.setDst(s,EV(P.bin(KAnd,P.bin(KEq,sx,sy),P.bnot(P.bin(KEq,sr,sx)))),1); return ADV; }
BI(b_ssubo){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); Expr*r=P.bin(KSub,x,y); Expr*z=P.cst(0,w); Expr*sx=P.bin(KSlt,x,z),*sy=P.bin(KSlt,y,z),*sr=P.bin(KSlt,r,z); E.setDst(s,EV(r)); E.setDst(s,EV(P.bin(KAnd,P.bnot(P.bin(KEq,sx,sy)),P.bnot(P.bin(KEq,sr,sx)))),1); return ADV; }
BI(b_smulo){ unsigned w=W(in); Expr*x=P.sext(X(A0,w),w*2<=64?w*2:64),*y=P.sext(X(A1,w),w*2<=64?w*2:64); if(w>32){ if(A0.e||A1.e){ E.fail(s,"engine","smulo64"); return HANDLED; } i64 r; bool o=__builtin_mul_overflow((i64)A0.c,(i64)A1.c,&r); E.setDst(s,CV(r)); E.setDst(s,CV(o),1); return ADV; } Expr*r=P.bin(KMul,x,y); Expr*lo=P.extract(r,0,w); E.setDst(s,EV(lo)); E.setDst(s,EV(P.bnot(P.bin(KEq,P.sext(lo,w*2),r))),1); return ADV; }
BI(b_umin){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); E.setDst(s,EV(P.ite(P.bin(KUlt,x,y),x,y))); return ADV; }
BI(b_umax){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); E.setDst(s,EV(P.ite(P.bin(KUlt,x,y),y,x))); return ADV; }
BI(b_smin){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); E.setDst(s,EV(P.ite(P.bin(KSlt,x,y),x,y))); return ADV; }
BI(b_smax){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); E.setDst(s,EV(P.ite(P.bin(KSlt,x,y),y,x))); return ADV; }
BI(b_abs){ unsigned w=W(in); Expr*x=X(A0,w); E.setDst(s,EV(P.ite(P.bin(KSlt,x,P.cst(0,w)),P.bin(KSub,P.cst(0,w),x),x))); return ADV; }
BI(b_usubsat){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); E.setDst(s,EV(P.ite(P.bin(KUlt,x,y),P.cst(0,w),P.bin(KSub,x,y)))); return ADV; }
BI(b_uaddsat){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); Expr*r=P.bin(KAdd,x,y); E.setDst(s,EV(P.ite(P.bin(KUlt,r,x),P.cst(~0ull,w),r))); return ADV; }
BI(b_bswap){ unsigned w=W(in); Expr*x=X(A0,w); Expr*r=P.extract(x,0,8); for(unsigned i=8;i<w;i+=8) r=P.concat(r,P.extract(x,i,8)); E.setDst(s,EV(r)); return ADV; }
BI(b_ctlz){ unsigned w=W(in); Expr*x=X(A0,w); Expr*r=P.cst(w,w); for(unsigned i=0;i<w;++i) r=P.ite(P.extract(x,i,1),P.cst(w-1-i,w),r); E.setDst(s,EV(r)); return ADV; }
BI(b_cttz){ unsigned w=W(in); Expr*x=X(A0,w); Expr*r=P.cst(w,w); for(unsigned i=w;i-->0;) r=P.ite(P.extract(x,i,1),P.cst(i,w),r); E.setDst(s,EV(r)); return ADV; }
BI(b_ctpop){ unsigned w=W(in); Expr*x=X(A0,w); if(x->k==KConst){ E.setDst(s,CV(__builtin_popcountll(x->c))); return ADV; } Expr*r=P.cst(0,w); for(unsigned i=0;i<w;++i) r=P.bin(KAdd,r,P.zext(P.extract(x,i,1),w)); E.setDst(s,EV(r)); return ADV; }
BI(b_fshl){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); u64 k=E.concretize(s,A2,w,"shift")%w; if(k==0) E.setDst(s,EV(x)); else E.setDst(s,EV(P.concat(P.extract(x,0,w-k),P.extract(y,w-k,k)))); return ADV; }
BI(b_fshr){ unsigned w=W(in); Expr*x=X(A0,w),*y=X(A1,w); u64 k=E.concretize(s,A2,w,"shift")%w; if(k==0) E.setDst(s,EV(y)); else E.setDst(s,EV(P.concat(P.extract(x,0,k),P.extract(y,k,w-k)))); return ADV; }
BI(b_id){ E.setDst(s,A0); return ADV; }
BI(b_isconst){ E.setDst(s,CV(0)); return ADV; }
BI(b_objectsize){ E.setDst(s,CV(~0ull)); return ADV; }
BI(b_stacksave){ E.setDst(s,CV(0)); return ADV; }
BI(b_trap){ E.fail(s,"terminate","trap / undefined behaviour reached"); return HANDLED; }
static unsigned FW(Inst&in){ return in.I->getType()->isFloatTy()?32:64; }
BI(b_floor){ unsigned w=FW(in); E.setDst(s,EV(P.fp(KFFloor,X(A0,w),nullptr,w))); return ADV; }
BI(b_ceil){ unsigned w=FW(in); E.setDst(s,EV(P.fp(KFCeil,X(A0,w),nullptr,w))); return ADV; }
BI(b_fabs){ unsigned w=FW(in); E.setDst(s,EV(P.bin(KAnd,X(A0,w),P.cst(w==32?0x7fffffffull:0x7fffffffffffffffull,w)))); return ADV; }
BI(b_fmuladd){ unsigned w=FW(in); E.setDst(s,EV(P.fp(KFAdd,P.fp(KFMul,X(A0,w),X(A1,w),w),X(A2,w),w))); return ADV; }
BI(b_log2){ // concrete only; symbolic argument: enumerate the integer it came from
  Expr*x=E.simp(s,X(A0,64)); if(x->k!=KConst){ // x = (double) n for an unsigned integer n: fork on its bit length
    if((x->k==KUIToFP||x->k==KSIToFP)&&x->a->width<=64){ Expr*n=x->a; unsigned w=n->width; // find exponent
      if(E.decide(s,P.bin(KEq,n,P.cst(0,w)))){ E.setDst(s,CV(ExprPool::fromD(-INFINITY))); return ADV; }
      for(unsigned k=0;k<w;++k){ // n < 2^(k+1)
        bool last=k+1==w; if(last||E.decide(s,P.bin(KUlt,n,P.cst(1ull<<(k+1),w)))){
          if(E.decide(s,P.bin(KEq,n,P.cst(1ull<<k,w)))){ E.setDst(s,CV(ExprPool::fromD((double)k))); return ADV; }
          // strictly between 2^k and 2^(k+1): some double in (k,k+1), or exactly k+1 when rounding absorbs the difference
          string key="log2#"+std::to_string(n->id); auto&v=E.symcache[key]; if(v.empty()) for(int i=0;i<8;++i) v.push_back(P.var(key,8,true));
          double lo=(double)k; 
          // represent by midpoint: callers only use floor/ceil of the result; rounding up to k+1 is possible only near the top
          u64 top=(k+1>=64?0:(1ull<<(k+1))); bool near=false; if(k>=47){ u64 gap=1ull<<(k-46); Expr*nr=P.bin(KUle,P.cst(top-gap,w),n); near=E.decide(s,nr); }
          double r=lo+0.5; if(near){ // real log2 of a concrete witness decides
            u64 nv=E.concretize(s,EV(n),w,"log2 argument"); r=log2((double)nv); }
          E.setDst(s,CV(ExprPool::fromD(r))); s.notes.push_back("log2"); return ADV; } }
    }
    E.fail(s,"engine","log2 of symbolic value"); return HANDLED; }
  E.setDst(s,CV(ExprPool::fromD(log2(ExprPool::asD(x->c))))); return ADV; }
template<double(*F)(double)> BRes b_math(Engine&E,State&s,Inst&in,vector<Val>&args){ Expr*x=E.simp(s,X(A0,64)); if(x->k!=KConst){ u64 v=E.concretize(s,EV(x),64,"math argument"); E.setDst(s,CV(ExprPool::fromD(F(ExprPool::asD(v))))); return ADV; } E.setDst(s,CV(ExprPool::fromD(F(ExprPool::asD(x->c))))); return ADV; }
BI(b_pow){ u64 a=E.concretize(s,A0,64,"pow argument"),b=E.concretize(s,A1,64,"pow argument"); E.setDst(s,CV(ExprPool::fromD(pow(ExprPool::asD(a),ExprPool::asD(b))))); return ADV; }
BI(b_errno){ if(!s.errnoAddr){ s.errnoAddr=E.alloc(s,8,OK_GLOBAL,true,"errno"); } E.setDst(s,CV(s.errnoAddr)); return ADV; }
BI(b_ptrmask){ E.setDst(s,EV(P.bin(KAnd,X(A0,64),X(A1,64)))); return ADV; }
BI(b_expect){ E.setDst(s,A0); return ADV; }

void Engine::initBuiltins(){
  auto&b=builtins;
  for(auto n:{"__cxa_atexit","llvm.stackrestore","llvm.va_start","llvm.va_end","llvm.sideeffect","llvm.memcpy.inline.none","__cxa_free_exception","__gxx_personality_v0","atexit"}) b[n]=b_nop;
  b["vp_malloc"]=b_malloc; b["malloc"]=b_malloc; b["calloc"]=b_calloc; b["free"]=b_free; b["vp_free"]=b_free; b["realloc"]=b_realloc;
  b["_ZdlPv"]=b_free; b["_ZdlPvm"]=b_free; b["_ZdaPv"]=b_free; b["_ZdaPvm"]=b_free; b["_ZdlPvmSt11align_val_t"]=b_free; b["_ZdlPvSt11align_val_t"]=b_free;
  b["memcpy"]=b_memcpy; b["memmove"]=b_memcpy; b["llvm.memcpy"]=b_memcpy; b["llvm.memmove"]=b_memcpy; b["memset"]=b_memset; b["llvm.memset"]=b_memset; b["memcmp"]=b_memcmp; b["bcmp"]=b_memcmp; b["memchr"]=b_memchr; b["strlen"]=b_strlen;
  b["vp_sym"]=b_sym; b["vp_assume_"]=b_assume; b["vp_assert_"]=b_assert; b["vp_cover"]=b_cover; b["vp_observe_"]=b_observe; b["vp_fail"]=b_fail; b["vp_conc"]=b_conc; b["vp_defined_"]=b_defined; b["vp_stop"]=b_stop; b["vp_print"]=b_print; b["vp_printv"]=b_printv; b["vp_objsize"]=b_objsize; b["vp_is_symbolic"]=b_is_symbolic;
  b["__cxa_allocate_exception"]=b_alloc_exc; b["__cxa_throw"]=b_throw; b["__cxa_begin_catch"]=b_begin_catch; b["__cxa_end_catch"]=b_end_catch; b["__cxa_rethrow"]=b_rethrow; b["__cxa_get_exception_ptr"]=b_getexc; b["llvm.eh.typeid.for"]=b_typeid_for;
  b["__cxa_guard_acquire"]=b_guard_acq; b["__cxa_guard_release"]=b_guard_rel; b["__cxa_guard_abort"]=b_nop; b["_ZSt9terminatev"]=b_terminate; b["abort"]=b_terminate; b["__cxa_pure_virtual"]=b_pure; b["__assert_fail"]=b_assertfail; b["__dynamic_cast"]=b_dyncast; b["__asm__"]=b_asm; b["llvm.trap"]=b_trap; b["llvm.ubsantrap"]=b_trap;
  b["llvm.uadd.with.overflow"]=b_uaddo; b["llvm.usub.with.overflow"]=b_usubo; b["llvm.umul.with.overflow"]=b_umulo; b["llvm.sadd.with.overflow"]=b_saddo; b["llvm.ssub.with.overflow"]=b_ssubo; b["llvm.smul.with.overflow"]=b_smulo;
  b["llvm.umin"]=b_umin; b["llvm.umax"]=b_umax; b["llvm.smin"]=b_smin; b["llvm.smax"]=b_smax; b["llvm.abs"]=b_abs; b["llvm.usub.sat"]=b_usubsat; b["llvm.uadd.sat"]=b_uaddsat;
  b["llvm.bswap"]=b_bswap; b["llvm.ctlz"]=b_ctlz; b["llvm.cttz"]=b_cttz; b["llvm.ctpop"]=b_ctpop; b["llvm.fshl"]=b_fshl; b["llvm.fshr"]=b_fshr;
  b["llvm.expect"]=b_expect; b["llvm.threadlocal.address"]=b_id; b["llvm.launder.invariant.group"]=b_id; b["llvm.strip.invariant.group"]=b_id; b["llvm.is.constant"]=b_isconst; b["llvm.objectsize"]=b_objectsize; b["llvm.stacksave"]=b_stacksave; b["llvm.ptrmask"]=b_ptrmask;
  b["llvm.floor"]=b_floor; b["llvm.ceil"]=b_ceil; b["floor"]=b_floor; b["ceil"]=b_ceil; b["llvm.fabs"]=b_fabs; b["llvm.fmuladd"]=b_fmuladd; b["log2"]=b_log2; b["llvm.log2"]=b_log2; b["llvm.log10"]=b_math<log10>; b["log10"]=b_math<log10>; b["log"]=b_math<log>; b["llvm.log"]=b_math<log>; b["pow"]=b_pow; b["llvm.pow"]=b_pow; b["exp2"]=b_math<exp2>; b["llvm.exp2"]=b_math<exp2>; b["llvm.round"]=b_math<round>; b["llvm.trunc"]=b_math<trunc>; b["lround"]=nullptr; b.erase("lround");
  b["__errno_location"]=b_errno;
}

void Engine::storeConst(State&s,Obj*o,Constant*c,u64 off){
  Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)||isa<ConstantPointerNull>(c)) return;
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ StringRef r=d->getRawDataValues(); memcpy(&o->d[off],r.data(),r.size()); return; }
  if(auto*a=dyn_cast<ConstantStruct>(c)){ auto*L=DL->getStructLayout(a->getType()); for(unsigned i=0;i<a->getNumOperands();++i) storeConst(s,o,a->getOperand(i),off+L->getElementOffset(i)); return; }
  if(auto*a=dyn_cast<ConstantArray>(c)){ u64 sz=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();++i) storeConst(s,o,a->getOperand(i),off+i*sz); return; }
  vector<Val> v; constVals(c,v); if(v.size()!=1){ vector<Leaf> l; flatten(t,0,l); for(size_t i=0;i<l.size();++i) memcpy(&o->d[off+l[i].off],&v[i].c,(l[i].w+7)/8); return; }
  u64 n=DL->getTypeStoreSize(t); u64 cv=v[0].c; if(v[0].e&&v[0].e->k==KConcat){ u64 lo=v[0].e->b->c,hi=v[0].e->a->c; memcpy(&o->d[off],&lo,8); memcpy(&o->d[off+8],&hi,n-8); return; } memcpy(&o->d[off],&cv,std::min<u64>(n,8));
}
void Engine::initGlobals(State&s){
  for(auto&F:*M){ if(F.isIntrinsic()) continue; Obj*o=new Obj; o->size=0; o->kind=OK_FUNC; o->name=strdup(F.getName().str().c_str()); u64 a=s.mem.add(o); gaddr[&F]=a; faddr[a]=&F; }
  for(auto&g:M->globals()){ u64 sz=g.getValueType()->isSized()?(u64)DL->getTypeAllocSize(g.getValueType()):8; string nm=g.getName().str(); if(g.isDeclaration()) sz=std::max<u64>(sz,256); Obj*o=new Obj; o->size=sz; o->kind=OK_GLOBAL; o->d.assign(sz,0); o->name=strdup(demangle(nm).c_str()); gaddr[&g]=s.mem.add(o);
    if(nm=="_ZTVN10__cxxabiv120__si_class_type_infoE") vtSI=gaddr[&g]; if(nm=="_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVMI=gaddr[&g]; if(nm=="_ZTVN10__cxxabiv117__class_type_infoE") vtC=gaddr[&g]; }
  for(auto&g:M->globals()) if(g.hasInitializer()){ Obj*o=s.mem.wr(gaddr[&g]>>SLOTBITS); storeConst(s,o,const_cast<Constant*>(g.getInitializer()),0); o->ro=g.isConstant(); }
}

void Engine::finish(State&s){
  stats.paths++; if(s.depth>stats.maxDepth) stats.maxDepth=s.depth;
  if(s.pre) return;
  if((int)tests.size()<maxTests){ // concrete witness of this path for differential replay
    bool ok=true; string o="["; bool first=true; P.stamp++; for(auto&p:s.obs){ u64 v; if(p.second.e){ v=P.eval(p.second.e,s.model); VarSet*vs=p.second.e->vars; for(size_t j=0;j<vs->w.size();++j) for(u64 w=vs->w[j];w;w&=w-1) if(P.varinfo[j*64+__builtin_ctzll(w)].undef) ok=false; } else v=p.second.c; if(!first) o+=","; first=false; o+="["+jesc(p.first)+","+std::to_string(v)+"]"; } o+="]";
    if(ok&&(stats.paths<10||stats.paths%7==0)) tests.push_back("{\"inputs\":"+inputsJson(s,s.model)+",\"obs\":"+o+"}");
  }
}

void Engine::step(State&s){
  Frame*fp=s.st.back().own(); Frame&f=*fp; Inst&in=f.fi->code[f.pc];
  s.instrs++; stats.instrs++;
  switch(in.op){
  case OP_BINOP: {
    u32 n=in.nd; Kind k=(Kind)in.sub;
    for(u32 i=0;i<n;++i){ Val a=get(s,f,in.ops[0],i),b=get(s,f,in.ops[1],i);
      if(k>=KFAdd){ f.r[in.dst+i]=EV(P.fp(k,X(a,in.w),X(b,in.w),in.w)); continue; }
      if(k==KUDiv||k==KSDiv||k==KURem||k==KSRem){ if(!b.e){ if(b.c==0){ fail(s,"div0","division by zero"); return; } } else { if(decide(s,P.bin(KEq,b.e,P.cst(0,in.w)))){ fail(s,"div0","division by zero"); return; } b=EV(simp(s,b.e)); } }
      if(!a.e&&!b.e&&in.w<=64) f.r[in.dst+i]=CV(P.foldBin(k,a.c,b.c,in.w)); else f.r[in.dst+i]=EV(P.bin(k,X(a,in.w),X(b,in.w))); }
    f.pc++; return; }
  case OP_CMP: {
    for(u32 i=0;i<in.nd;++i){ const Val&a=get(s,f,in.ops[0],i),&b=get(s,f,in.ops[1],i); Kind k; bool sw=false,ng=false;
      switch(in.sub){ case CmpInst::ICMP_EQ:k=KEq;break; case CmpInst::ICMP_NE:k=KEq;ng=true;break; case CmpInst::ICMP_ULT:k=KUlt;break; case CmpInst::ICMP_ULE:k=KUle;break; case CmpInst::ICMP_UGT:k=KUlt;sw=true;break; case CmpInst::ICMP_UGE:k=KUle;sw=true;break; case CmpInst::ICMP_SLT:k=KSlt;break; case CmpInst::ICMP_SLE:k=KSle;break; case CmpInst::ICMP_SGT:k=KSlt;sw=true;break; default:k=KSle;sw=true;break; }
      if(!a.e&&!b.e){ u64 x=a.c,y=b.c; if(sw) std::swap(x,y); u64 r=P.foldBin(k,x,y,in.w); f.r[in.dst+i]=CV(ng?!r:r); }
      else { Expr*x=X(a,in.w),*y=X(b,in.w); if(sw) std::swap(x,y); Expr*r=P.bin(k,x,y); if(ng) r=P.bnot(r); f.r[in.dst+i]=EV(r); } }
    f.pc++; return; }
  case OP_TRUNC: for(u32 i=0;i<in.nd;++i){ Val a=get(s,f,in.ops[0],i); f.r[in.dst+i]= a.e? EV(P.extract(a.e,0,in.w)):CV(a.c&maskW(in.w)); } f.pc++; return;
  case OP_ZEXT: for(u32 i=0;i<in.nd;++i){ Val a=get(s,f,in.ops[0],i); if(!a.e&&in.w<=64) f.r[in.dst+i]=a; else f.r[in.dst+i]=EV(P.zext(X(a,in.w2),in.w)); } f.pc++; return;
  case OP_SEXT: for(u32 i=0;i<in.nd;++i){ Val a=get(s,f,in.ops[0],i); if(!a.e&&in.w<=64) f.r[in.dst+i]=CV((u64)sextW(a.c,in.w2)&maskW(in.w)); else f.r[in.dst+i]=EV(P.sext(X(a,in.w2),in.w)); } f.pc++; return;
  case OP_COPY: for(u32 i=0;i<in.nd;++i) f.r[in.dst+i]=get(s,f,in.ops[0],i); f.pc++; return;
  case Instruction::BitCast: { // vector <-> integer
    u64 ln=in.imm[0]; Expr*e=nullptr; for(u64 i=0;i<ln;++i){ Expr*x=X(get(s,f,in.ops[0],i),in.w2); e=e?P.concat(x,e):x; } for(u32 i=0;i<in.nd;++i) f.r[in.dst+i]=EV(P.extract(e,i*in.w,in.w)); f.pc++; return; }
  case Instruction::FCmp: { Expr*a=X(get(s,f,in.ops[0]),in.w),*b=X(get(s,f,in.ops[1]),in.w); Expr*r; auto un=[&]{return P.fp(KFUno,a,b,1);}; 
    switch(in.sub){ case CmpInst::FCMP_OEQ:r=P.fp(KFOeq,a,b,1);break; case CmpInst::FCMP_OGT:r=P.fp(KFOlt,b,a,1);break; case CmpInst::FCMP_OGE:r=P.fp(KFOle,b,a,1);break; case CmpInst::FCMP_OLT:r=P.fp(KFOlt,a,b,1);break; case CmpInst::FCMP_OLE:r=P.fp(KFOle,a,b,1);break; case CmpInst::FCMP_ONE:r=P.bnot(P.bin(KOr,P.fp(KFOeq,a,b,1),un()));break; case CmpInst::FCMP_ORD:r=P.bnot(un());break; case CmpInst::FCMP_UNO:r=un();break; case CmpInst::FCMP_UEQ:r=P.bin(KOr,P.fp(KFOeq,a,b,1),un());break; case CmpInst::FCMP_UGT:r=P.bnot(P.fp(KFOle,a,b,1));break; case CmpInst::FCMP_UGE:r=P.bnot(P.fp(KFOlt,a,b,1));break; case CmpInst::FCMP_ULT:r=P.bnot(P.fp(KFOle,b,a,1));break; case CmpInst::FCMP_ULE:r=P.bnot(P.fp(KFOlt,b,a,1));break; case CmpInst::FCMP_UNE:r=P.bnot(P.fp(KFOeq,a,b,1));break; default:r=P.cst(in.sub==CmpInst::FCMP_TRUE,1); }
    f.r[in.dst]=EV(r); f.pc++; return; }
  case Instruction::SIToFP: f.r[in.dst]=EV(P.fp(KSIToFP,X(get(s,f,in.ops[0]),in.w2),nullptr,in.w)); f.pc++; return;
  case Instruction::UIToFP: f.r[in.dst]=EV(P.fp(KUIToFP,X(get(s,f,in.ops[0]),in.w2),nullptr,in.w)); f.pc++; return;
  case Instruction::FPToSI: f.r[in.dst]=EV(P.fp(KFPToSI,X(get(s,f,in.ops[0]),in.w2),nullptr,in.w)); f.pc++; return;
  case Instruction::FPToUI: f.r[in.dst]=EV(P.fp(KFPToUI,X(get(s,f,in.ops[0]),in.w2),nullptr,in.w)); f.pc++; return;
  case Instruction::FPExt: f.r[in.dst]=EV(P.fp(KFPExt,X(get(s,f,in.ops[0]),in.w2),nullptr,in.w)); f.pc++; return;
  case Instruction::FPTrunc: f.r[in.dst]=EV(P.fp(KFPTrunc,X(get(s,f,in.ops[0]),in.w2),nullptr,in.w)); f.pc++; return;
  case Instruction::FNeg: f.r[in.dst]=EV(P.bin(KXor,X(get(s,f,in.ops[0]),in.w),P.cst(in.w==32?0x80000000ull:1ull<<63,in.w))); f.pc++; return;
  case Instruction::Alloca: { u64 n=concretize(s,get(s,f,in.ops[0]),in.w,"alloca size"); u64 a=alloc(s,n*in.imm[0],OK_STACK,false,"stack"); Frame&g=top(s); s.mem.get(a>>SLOTBITS)->site=in.I; g.allocas.push_back(a>>SLOTBITS); g.r[in.dst]=CV(a); g.pc++; return; }
  case Instruction::Load: {
    Val a=get(s,f,in.ops[0]);
    if(in.leaves.size()==1){ Val o; if(!load(s,a,in.leaves[0].w,o)) return; if(o.e){ o=EV(simp(s,o.e)); } top(s).r[in.dst]=o; top(s).pc++; return; }
    if(a.e) a=CV(concretize(s,a,64,"address"));
    for(size_t i=0;i<in.leaves.size();++i){ Val o; if(!load(s,CV(a.c+in.leaves[i].off),in.leaves[i].w,o)) return; top(s).r[in.dst+i]=o; } top(s).pc++; return; }
  case Instruction::Store: {
    Val a=get(s,f,in.ops[1]);
    if(in.leaves.size()==1){ Val v=get(s,f,in.ops[0]); if(!store(s,a,in.leaves[0].w,v)) return; top(s).pc++; return; }
    if(a.e) a=CV(concretize(s,a,64,"address"));
    for(size_t i=0;i<in.leaves.size();++i){ Val v=get(s,f,in.ops[0],i); if(!store(s,CV(a.c+in.leaves[i].off),in.leaves[i].w,v)) return; } top(s).pc++; return; }
  case Instruction::GetElementPtr: {
    Val b=get(s,f,in.ops[0]); u64 c=in.imm.back(); Expr*e=b.e; if(!e) c+=b.c;
    for(size_t i=1;i<in.ops.size();++i){ const Val&x=get(s,f,in.ops[i]); u64 sc=in.imm[(i-1)*2]; unsigned w=in.imm[(i-1)*2+1]; if(!x.e) c+=(u64)sextW(x.c,w)*sc; else { Expr*t=P.bin(KMul,P.sext(x.e,64),P.cst(sc,64)); e=e?P.bin(KAdd,e,t):t; } }
    f.r[in.dst]= e? EV(P.bin(KAdd,e,P.cst(c,64))):CV(c); f.pc++; return; }
  case Instruction::Select: {
    if(in.sub==2){ for(u32 i=0;i<in.nd;++i){ Val c=get(s,f,in.ops[0],i); f.r[in.dst+i]=EV(P.ite(X(c,1),X(get(s,f,in.ops[1],i),in.leaves[i].w),X(get(s,f,in.ops[2],i),in.leaves[i].w))); } f.pc++; return; }
    Val c=get(s,f,in.ops[0]); if(c.e){ Expr*e=simp(s,c.e); if(e->k==KConst) c=CV(e->c); else c=Val{0,e}; }
    if(c.e&&(in.sub==1)){ int d=decide(s,c.e); c=CV(d); }
    for(u32 i=0;i<in.nd;++i){ Val r; if(!c.e) r=get(s,f,c.c?in.ops[1]:in.ops[2],i); else r=EV(P.ite(c.e,X(get(s,f,in.ops[1],i),in.leaves[i].w),X(get(s,f,in.ops[2],i),in.leaves[i].w))); top(s).r[in.dst+i]=r; }
    top(s).pc++; return; }
  case Instruction::Br: {
    if(!in.sub){ jump(s,f,in.t0); return; }
    const Val&c=get(s,f,in.ops[0]); int d; if(!c.e) d=c.c&1; else d=decide(s,c.e);
    jump(s,top(s),d?in.t0:in.t1); return; }
  case Instruction::Switch: {
    Val v=get(s,f,in.ops[0]); if(v.e){ Expr*e=simp(s,v.e); if(e->k!=KConst){
        for(size_t i=0;i<in.imm.size();i+=2){ if(decide(s,P.bin(KEq,e,P.cst(in.imm[i],in.w)))){ jump(s,top(s),in.imm[i+1]); return; } }
        jump(s,top(s),in.t0); return; } v=CV(e->c); }
    for(size_t i=0;i<in.imm.size();i+=2) if(in.imm[i]==v.c){ jump(s,f,in.imm[i+1]); return; }
    jump(s,f,in.t0); return; }
  case Instruction::Ret: {
    Val rv[16]; vector<Val> big; Val*r=rv; if(in.nd>16){ big.resize(in.nd); r=big.data(); } for(u32 i=0;i<in.nd;++i) r[i]=get(s,f,in.ops[0],i); u32 n=in.nd;
    popFrame(s); if(s.st.empty()){ finish(s); kill(s); return; }
    for(u32 i=0;i<n;++i) setDst(s,r[i],i); advance(s); return; }
  case Instruction::Unreachable: fail(s,"unreachable","undefined behaviour: unreachable code executed"); return;
  case Instruction::ExtractValue: for(u32 i=0;i<in.nd;++i) f.r[in.dst+i]=get(s,f,in.ops[0],in.imm[0]+i); f.pc++; return;
  case Instruction::InsertValue: { for(u32 i=0;i<in.nd;++i) f.r[in.dst+i]=get(s,f,in.ops[0],i); for(u64 i=0;i<in.imm[1];++i) f.r[in.dst+in.imm[0]+i]=get(s,f,in.ops[1],i); f.pc++; return; }
  case Instruction::ExtractElement: { u64 k=concretize(s,get(s,f,in.ops[1]),64,"lane"); Frame&g=top(s); g.r[in.dst]=get(s,g,in.ops[0],k); g.pc++; return; }
  case Instruction::InsertElement: { u64 k=concretize(s,get(s,f,in.ops[2]),64,"lane"); Frame&g=top(s); for(u32 i=0;i<in.nd;++i) g.r[in.dst+i]=get(s,g,in.ops[0],i); g.r[in.dst+k]=get(s,g,in.ops[1]); g.pc++; return; }
  case Instruction::ShuffleVector: { u64 n=in.imm[0]; for(u32 i=0;i<in.nd;++i){ i64 m=(i64)in.imm[1+i]; f.r[in.dst+i]= m<0?CV(0): (u64)m<n? get(s,f,in.ops[0],m):get(s,f,in.ops[1],m-n); } f.pc++; return; }
  case Instruction::Resume: { u64 o=get(s,f,in.ops[0]).c; if(s.st.size()==1){ fail(s,"uncaught","uncaught exception"); return; } popFrame(s); unwind(s,o); return; }
  case Instruction::AtomicRMW: { Val a=get(s,f,in.ops[0]),v=get(s,f,in.ops[1]),o; if(!load(s,a,in.w,o)) return; Val nv; switch(in.sub){ case AtomicRMWInst::Add: nv=EV(P.bin(KAdd,X(o,in.w),X(v,in.w))); break; case AtomicRMWInst::Sub: nv=EV(P.bin(KSub,X(o,in.w),X(v,in.w))); break; case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::Or: nv=EV(P.bin(KOr,X(o,in.w),X(v,in.w))); break; default: fail(s,"engine","atomicrmw"); return; } if(!store(s,a,in.w,nv)) return; top(s).r[in.dst]=o; top(s).pc++; return; }
  case Instruction::Fence: f.pc++; return;
  case OP_CALLB: {
    vector<Val> args; size_t na=in.imm.size(); for(size_t i=0;i<na;++i) for(u64 k=0;k<std::max<u64>(1,in.imm[i]);++k) args.push_back(get(s,f,in.ops[i],k));
    if(in.bi(*this,s,in,args)==ADV&&!s.dead) advance(s); return; }
  case OP_CALLF: case OP_CALLI: {
    Function*F=in.callee;
    if(in.op==OP_CALLI){ u64 a=concretize(s,get(s,f,in.ops.back()),64,"function pointer"); auto it=faddr.find(a); if(it==faddr.end()){ fail(s,a<4096?"null":"oob","call through invalid function pointer: "+descr(s,a)); return; } F=it->second; }
    vector<Val> args; size_t na=in.imm.size(); Frame&g=top(s);
    for(size_t i=0;i<na;++i) for(u64 k=0;k<in.imm[i];++k) args.push_back(get(s,g,in.ops[i],k));
    if(in.op==OP_CALLI){ Builtin b=findBuiltin(F); if(b){ if(b(*this,s,in,args)==ADV&&!s.dead) advance(s); return; } }
    size_t ai=0; for(size_t i=0;i<na;++i){ if(in.leaves[i].off){ u64 n=in.leaves[i].off; u64 p=concretize(s,args[ai],64,"byval"); u64 c=alloc(s,n,OK_STACK,false,"byval"); if(!copyMem(s,CV(c),CV(p),n)) return; args[ai]=CV(c); } ai+=in.imm[i]; }
    pushCall(s,F,args); return; }
  default: fail(s,"engine",string("opcode ")+in.I->getOpcodeName()); return;
  }
}

static long rssMB(){ FILE*f=fopen("/proc/self/statm","r"); long a=0,b=0,c=0; if(f){ if(fscanf(f,"%ld %ld %ld",&a,&b,&c)!=3) b=c=0; fclose(f); } return (b-c)/256; }
void Engine::run(State*s){
  u64 cnt=0;
  while(!s->dead){ step(*s);
    if(s->instrs>maxInstr&&!s->dead){ fail(*s,"hang","path executed more than "+std::to_string(maxInstr)+" instructions"); break; }
    if((++cnt&0xfff)==0){ if(shm->stop) { s->dead=true; break; } if(now()>deadline){ incompleteMark("time limit"); shm->stop=1; s->dead=true; break; } if((cnt&0xfffff)==0||work.size()>2000){ if(rssMB()>4500){ incompleteMark("memory limit"); shm->stop=1; s->dead=true; break; } } if(work.size()>1) maybeShare(); } }
  delete s;
}
void Engine::maybeShare(){
  if(jr<0) return; double t=now(); if(t-lastShare<0.02) return; lastShare=t; if(work.size()<2) return;
  char c; ssize_t n=read(jr,&c,1); if(n!=1) return;
  fflush(stderr); pid_t p=fork();
  if(p<0){ (void)!write(jw,&c,1); return; }
  // split: child takes even positions, parent odd ones
  vector<State*> mine; 
  for(size_t i=0;i<work.size();++i){ bool ch=(i%2==0); if((p==0)==ch) mine.push_back(work[i]); else delete work[i]; }
  work=mine;
  if(p==0){ isChild=true; kids.clear(); haveToken=true; becomeChild(); }
  else kids.push_back(p);
}
void Engine::becomeChild(){ stats=Stats(); errs.clear(); tests.clear(); incomplete.clear(); 
  throw 1; // unwind to explore(): the running state stays with the parent
}
void Engine::explore(){
  for(;;){
    try {
      while(!work.empty()&&!shm->stop){ if(work.size()>1) maybeShare(); State*s=work.back(); work.pop_back(); run(s); }
      break;
    } catch(int){ /* child: continue with own work */ }
  }
}
void Engine::writeResult(double wall){
  if(profOn){ vector<std::pair<u64,string>> v; for(auto&p:prof) v.push_back({p.second,p.first}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<12;++i) fprintf(stderr,"PROF %llu %s\n",(unsigned long long)v[i].first,v[i].second.c_str());
    vector<std::pair<double,string>> w; for(auto&p:profT) w.push_back({p.second,p.first}); std::sort(w.rbegin(),w.rend()); for(size_t i=0;i<w.size()&&i<6;++i) fprintf(stderr,"SOLV %.2f %s\n",w[i].first,w[i].second.c_str()); }
  std::ostringstream o; o<<"{\"pid\":"<<getpid()<<",\"wall\":"<<wall<<",\"queries\":"<<stats.queries<<",\"byte_decisions\":"<<stats.domq<<",\"sat\":"<<stats.satq<<",\"unsat\":"<<stats.unsatq<<",\"cache_hits\":"<<stats.cacheHits<<",\"model_hits\":"<<stats.modelHits<<",\"solver_time\":"<<stats.solverTime<<",\"instrs\":"<<stats.instrs<<",\"paths\":"<<stats.paths<<",\"infeasible\":"<<stats.pathsInfeasible<<",\"forks\":"<<stats.forks<<",\"depth\":"<<stats.maxDepth<<",\"asserts\":"<<stats.assertsChecked<<",\"solver_error\":"<<(S->hadError?"true":"false");
  o<<",\"covers\":["; bool f=true; for(auto&c:covers){ if(!f)o<<","; f=false; o<<jesc(c);} o<<"],\"functions\":["; f=true; for(auto&c:functionsRun){ if(!f)o<<","; f=false; o<<jesc(c);} o<<"],\"incomplete\":["; f=true; for(auto&c:incomplete){ if(!f)o<<","; f=false; o<<jesc(c);} o<<"],\"unmodelled\":["; f=true; for(auto&c:unmodelled){ if(!f)o<<","; f=false; o<<jesc(c);} o<<"],\"errors\":["; f=true;
  for(auto&e:errs){ if(!f)o<<","; f=false; o<<"{\"kind\":"<<jesc(e.kind)<<",\"msg\":"<<jesc(e.msg)<<",\"stack\":"<<jesc(e.stack)<<",\"inputs\":"<<e.inputs<<"}"; } o<<"],\"tests\":["; f=true; for(auto&t:tests){ if(!f)o<<","; f=false; o<<t; } o<<"]}\n";
  string fn=outdir+"/r-"+std::to_string(getpid())+".json"; std::ofstream(fn)<<o.str();
}

static Engine*gE;
int main(int argc,char**argv){
  string bc,entry="vp_main",out="."; double tmo=300; Engine E; gE=&E; 
  for(int i=1;i<argc;++i){ string a=argv[i]; auto v=[&](const char*p)->const char*{ size_t n=strlen(p); return a.compare(0,n,p)==0?a.c_str()+n:nullptr; }; const char*x;
    if((x=v("--entry="))) entry=x; else if((x=v("--out="))) out=x; else if((x=v("--timeout="))) tmo=atof(x); else if((x=v("--max-errors="))) E.maxErrors=atoi(x); else if((x=v("--max-instr="))) E.maxInstr=strtoull(x,0,10); else if((x=v("--max-tests="))) E.maxTests=atoi(x); else if((x=v("--max-enum="))) E.maxEnum=strtoull(x,0,10); else if((x=v("--rlimit="))) gRlimit=strtoull(x,0,10); else if((x=v("--jobs="))){ sscanf(x,"%d,%d",&E.jr,&E.jw); } else if(a=="--no-uninit") E.noUninit=true; else if(a=="--fork-tables") E.forkTables=true; else bc=a; }
  if(E.jr>=0){ int fl=fcntl(E.jr,F_GETFL); fcntl(E.jr,F_SETFL,fl|O_NONBLOCK); }
  shm=(Shared*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  double t0=E.now(); E.deadline=t0+tmo; E.outdir=out; E.entryName=entry;
  static LLVMContext ctx; SMDiagnostic err; auto M=parseIRFile(bc,err,ctx); if(!M){ err.print("engine",errs()); return 3; }
  E.M=M.get(); E.DL=&M->getDataLayout(); S=new Solver(P);
  E.initBuiltins();
  State*s0=new State; s0->pre=true; E.initGlobals(*s0);
  // static constructors
  if(auto*g=M->getGlobalVariable("llvm.global_ctors")) if(g->hasInitializer()) if(auto*a=dyn_cast<ConstantArray>(g->getInitializer())){
    vector<std::pair<u64,Function*>> cs; for(auto&op:a->operands()){ auto*st=cast<ConstantStruct>(op.get()); if(auto*F=dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),F}); }
    std::stable_sort(cs.begin(),cs.end(),[](auto&x,auto&y){return x.first<y.first;});
    for(auto&c:cs){ if(!E.pushCall(*s0,c.second,{})) { s0->dead=false; s0->st.clear(); continue; } while(!s0->dead&&!s0->st.empty()) E.step(*s0); if(!E.errs.empty()||!E.incomplete.empty()){ fprintf(stderr,"engine: failure in static initialiser %s\n",c.second->getName().str().c_str()); E.writeResult(E.now()-t0); return 0; } s0->dead=false; s0->st.clear(); }
  }
  s0->pre=false; s0->instrs=0; stats.paths=0;
  Function*F=M->getFunction(entry); if(!F){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
  double tinit=E.now()-t0; if(getenv("VP_VERBOSE")) fprintf(stderr,"engine: init %.2fs, %llu instrs\n",tinit,(unsigned long long)stats.instrs);
  if(!E.pushCall(*s0,F,{})){ E.writeResult(E.now()-t0); return 0; }
  E.work.push_back(s0);
  E.explore();
  E.writeResult(E.now()-t0);
  bool bad=false;
  if(E.isChild){ char c='t'; (void)!write(E.jw,&c,1); for(pid_t k:E.kids){ int st; waitpid(k,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) bad=true; } }
  else if(!E.kids.empty()){ char c='t'; (void)!write(E.jw,&c,1); for(pid_t k:E.kids){ int st; waitpid(k,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) bad=true; }
    struct pollfd pf={E.jr,POLLIN,0}; for(;;){ if(read(E.jr,&c,1)==1) break; poll(&pf,1,1000); } }
  fflush(stderr); _exit(bad?4:0);
}
