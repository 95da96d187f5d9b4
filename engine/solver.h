// Path-constraint solving with independence slicing, caching and Z3.
#pragma once
#include "expr.h"
#include <memory>
#include <chrono>

struct Stats { u64 queries=0, domq=0, satq=0, unsatq=0, cacheHits=0, modelHits=0; double solverTime=0; u64 instrs=0, paths=0, pathsInfeasible=0, forks=0, maxDepth=0; u64 assertsChecked=0; };
extern Stats stats;
extern u64 gRlimit;

enum Res { SAT, UNSAT, UNKNOWN };

struct Solver {
  ExprPool &P; Z3_context ctx; Z3_solver fast;
  std::unordered_map<u64,std::pair<Res,std::vector<std::pair<u32,u64>>>> cache;
  static void onerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); }
  bool hadError=false;
  Solver(ExprPool&p):P(p){
    Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); ctx=Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,onerr);
    rne=Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx,rne); rtz=Z3_mk_fpa_rtz(ctx); Z3_inc_ref(ctx,rtz); rtn=Z3_mk_fpa_rtn(ctx); Z3_inc_ref(ctx,rtn); rtp=Z3_mk_fpa_rtp(ctx); Z3_inc_ref(ctx,rtp);
    fs32=Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx,(Z3_ast)fs32); fs64=Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx,(Z3_ast)fs64);
    fast=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,fast);
    Z3_params ps=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,ps); Z3_params_set_uint(ctx,ps,Z3_mk_string_symbol(ctx,"rlimit"),(unsigned)std::min<u64>(gRlimit,0xffffffffu)); Z3_solver_set_params(ctx,fast,ps);
  }
  Z3_ast rne,rtz,rtn,rtp; Z3_sort fs32,fs64;
  bool usesFP(Expr*e){ return fpcheck(e); }
  std::unordered_map<Expr*,bool> fpc;
  bool fpcheck(Expr*e){ if(e->k<=KVar) return false; auto it=fpc.find(e); if(it!=fpc.end()) return it->second; bool r=e->k>=KFAdd||(e->a&&fpcheck(e->a))||(e->b&&fpcheck(e->b))||(e->d&&fpcheck(e->d)); fpc[e]=r; return r; }
  Z3_ast keep(Z3_ast a){ Z3_inc_ref(ctx,a); return a; }
  Z3_sort bvs(unsigned w){ return Z3_mk_bv_sort(ctx,w); }
  Z3_ast num(u64 v,unsigned w){ return Z3_mk_unsigned_int64(ctx,v,bvs(w)); }
  Z3_ast tofp(Expr*e){ return Z3_mk_fpa_to_fp_bv(ctx,bv(e),e->width==32?fs32:fs64); }
  Z3_ast bv(Expr*e){
    if(e->zbv) return e->zbv; Z3_ast r;
    switch(e->k){
    case KConst: r=num(e->c,e->width); break;
    case KVar: { char b[32]; snprintf(b,32,"v%llu",(unsigned long long)e->c); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,b),bvs(e->width)); break; }
    case KAdd: r=Z3_mk_bvadd(ctx,bv(e->a),bv(e->b)); break; case KSub: r=Z3_mk_bvsub(ctx,bv(e->a),bv(e->b)); break; case KMul: r=Z3_mk_bvmul(ctx,bv(e->a),bv(e->b)); break;
    case KUDiv: r=Z3_mk_bvudiv(ctx,bv(e->a),bv(e->b)); break; case KSDiv: r=Z3_mk_bvsdiv(ctx,bv(e->a),bv(e->b)); break; case KURem: r=Z3_mk_bvurem(ctx,bv(e->a),bv(e->b)); break; case KSRem: r=Z3_mk_bvsrem(ctx,bv(e->a),bv(e->b)); break;
    case KAnd: r=Z3_mk_bvand(ctx,bv(e->a),bv(e->b)); break; case KOr: r=Z3_mk_bvor(ctx,bv(e->a),bv(e->b)); break; case KXor: r=Z3_mk_bvxor(ctx,bv(e->a),bv(e->b)); break;
    case KShl: r=Z3_mk_bvshl(ctx,bv(e->a),bv(e->b)); break; case KLShr: r=Z3_mk_bvlshr(ctx,bv(e->a),bv(e->b)); break; case KAShr: r=Z3_mk_bvashr(ctx,bv(e->a),bv(e->b)); break;
    case KConcat: r=Z3_mk_concat(ctx,bv(e->a),bv(e->b)); break;
    case KExtract: r=Z3_mk_extract(ctx,e->c+e->width-1,e->c,bv(e->a)); break;
    case KZExt: r=Z3_mk_zero_ext(ctx,e->width-e->a->width,bv(e->a)); break; case KSExt: r=Z3_mk_sign_ext(ctx,e->width-e->a->width,bv(e->a)); break;
    case KIte: r=Z3_mk_ite(ctx,boolean(e->a),bv(e->b),bv(e->d)); break;
    case KEq: case KUlt: case KUle: case KSlt: case KSle: case KFOeq: case KFOlt: case KFOle: case KFUno: r=Z3_mk_ite(ctx,boolean(e),num(1,1),num(0,1)); break;
    case KFAdd: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_add(ctx,rne,tofp(e->a),tofp(e->b))); break;
    case KFSub: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_sub(ctx,rne,tofp(e->a),tofp(e->b))); break;
    case KFMul: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_mul(ctx,rne,tofp(e->a),tofp(e->b))); break;
    case KFDiv: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_div(ctx,rne,tofp(e->a),tofp(e->b))); break;
    case KSIToFP: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_signed(ctx,rne,bv(e->a),e->width==32?fs32:fs64)); break;
    case KUIToFP: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_unsigned(ctx,rne,bv(e->a),e->width==32?fs32:fs64)); break;
    case KFPToSI: r=Z3_mk_fpa_to_sbv(ctx,rtz,tofp(e->a),e->width); break;
    case KFPToUI: r=Z3_mk_fpa_to_ubv(ctx,rtz,tofp(e->a),e->width); break;
    case KFPExt: case KFPTrunc: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_float(ctx,rne,tofp(e->a),e->width==32?fs32:fs64)); break;
    case KFFloor: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_round_to_integral(ctx,rtn,tofp(e->a))); break;
    case KFCeil: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_round_to_integral(ctx,rtp,tofp(e->a))); break;
    default: abort();
    }
    return e->zbv=keep(r);
  }
  Z3_ast boolean(Expr*e){
    if(e->zbool) return e->zbool; Z3_ast r; Z3_ast ar[2];
    switch(e->k){
    case KConst: r=e->c?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
    case KEq: r=Z3_mk_eq(ctx,bv(e->a),bv(e->b)); break; case KUlt: r=Z3_mk_bvult(ctx,bv(e->a),bv(e->b)); break; case KUle: r=Z3_mk_bvule(ctx,bv(e->a),bv(e->b)); break;
    case KSlt: r=Z3_mk_bvslt(ctx,bv(e->a),bv(e->b)); break; case KSle: r=Z3_mk_bvsle(ctx,bv(e->a),bv(e->b)); break;
    case KAnd: ar[0]=boolean(e->a); ar[1]=boolean(e->b); r=Z3_mk_and(ctx,2,ar); break;
    case KOr: ar[0]=boolean(e->a); ar[1]=boolean(e->b); r=Z3_mk_or(ctx,2,ar); break;
    case KXor: r=e->b->k==KConst? (e->b->c?Z3_mk_not(ctx,boolean(e->a)):boolean(e->a)) : Z3_mk_xor(ctx,boolean(e->a),boolean(e->b)); break;
    case KIte: r=Z3_mk_ite(ctx,boolean(e->a),boolean(e->b),boolean(e->d)); break;
    case KFOeq: r=Z3_mk_fpa_eq(ctx,tofp(e->a),tofp(e->b)); break; case KFOlt: r=Z3_mk_fpa_lt(ctx,tofp(e->a),tofp(e->b)); break; case KFOle: r=Z3_mk_fpa_leq(ctx,tofp(e->a),tofp(e->b)); break;
    case KFUno: ar[0]=Z3_mk_fpa_is_nan(ctx,tofp(e->a)); ar[1]=Z3_mk_fpa_is_nan(ctx,tofp(e->b)); r=Z3_mk_or(ctx,2,ar); break;
    default: r=Z3_mk_eq(ctx,bv(e),num(1,1));
    }
    return e->zbool=keep(r);
  }
  // constraints relevant to q
  void slice(const std::vector<Expr*>&cs,Expr*q,std::vector<Expr*>&out){
    std::vector<u64> m=q->vars->w; std::vector<char> in(cs.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<cs.size();++i) if(!in[i]){ auto&w=cs[i]->vars->w; bool hit=false; for(size_t j=0;j<w.size()&&j<m.size();++j) if(w[j]&m[j]){hit=true;break;}
        if(hit){ in[i]=1; ch=true; if(m.size()<w.size()) m.resize(w.size(),0); for(size_t j=0;j<w.size();++j) m[j]|=w[j]; out.push_back(cs[i]); } } }
  }
  // Branch conditions over a single input byte are decided by an exact table of
  // the 256 values (the expression is evaluated on each); everything else, and
  // every assertion, goes to Z3.
  struct Dom { u64 w[4]; };
  std::unordered_map<Expr*,Dom> doms; bool useDom=true;
  static int soleVar(Expr*e){ int v=-1; auto&w=e->vars->w; for(size_t j=0;j<w.size();++j) if(w[j]){ if(v>=0||(w[j]&(w[j]-1))) return -1; v=j*64+__builtin_ctzll(w[j]); } return v; }
  const Dom& dom(Expr*e,u32 v){ auto it=doms.find(e); if(it!=doms.end()) return it->second; Dom d={{0,0,0,0}}; std::vector<u64> m(v+1,0);
    for(int x=0;x<256;++x){ m[v]=x; P.stamp++; if(P.eval(e,m)) d.w[x>>6]|=1ull<<(x&63); } return doms[e]=d; }
  Res check(const std::vector<Expr*>&cs,Expr*q,const std::vector<u64>&base,std::vector<u64>*model){
    if(q->k==KConst){ if(!q->c) return UNSAT; if(model)*model=base; return SAT; }
    std::vector<Expr*> sl; slice(cs,q,sl); sl.push_back(q);
    if(useDom){ int v=soleVar(q); if(v>=0&&P.varinfo[v].width==8){ bool ok=true; for(Expr*e:sl) if(e!=q&&soleVar(e)!=v){ ok=false; break; } for(Expr*e:sl) if(ok&&fpcheck(e)) ok=false;
      if(ok){ stats.domq++; Dom d={{~0ull,~0ull,~0ull,~0ull}}; for(Expr*e:sl){ const Dom&x=dom(e,v); for(int i=0;i<4;++i) d.w[i]&=x.w[i]; }
        for(int i=0;i<4;++i) if(d.w[i]){ if(model){ *model=base; if(model->size()<=(size_t)v) model->resize(v+1,0); (*model)[v]=i*64+__builtin_ctzll(d.w[i]); } return SAT; }
        return UNSAT; } } }
    std::sort(sl.begin(),sl.end(),[](Expr*a,Expr*b){return a->id<b->id;}); sl.erase(std::unique(sl.begin(),sl.end()),sl.end());
    u64 key=0x1234567; for(Expr*e:sl){ key^=e->id+0x9E3779B97F4A7C15ull+(key<<6)+(key>>2); key*=0xff51afd7ed558ccdull; key^=key>>33; }
    auto it=cache.find(key); 
    if(it!=cache.end()){ stats.cacheHits++; if(model&&it->second.first==SAT){ *model=base; for(auto&p:it->second.second){ if(model->size()<=p.first) model->resize(p.first+1,0); (*model)[p.first]=p.second; } } return it->second.first; }
    bool fpq=false; for(Expr*e:sl) if(fpcheck(e)) fpq=true;
    auto t0=std::chrono::steady_clock::now();
    Z3_solver s=fast;
    if(fpq){ s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_FPBV")); Z3_solver_inc_ref(ctx,s);
      Z3_params ps=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,ps); Z3_params_set_uint(ctx,ps,Z3_mk_string_symbol(ctx,"rlimit"),(unsigned)std::min<u64>(gRlimit,0xffffffffu)); Z3_solver_set_params(ctx,s,ps); Z3_params_dec_ref(ctx,ps); }
    else Z3_solver_reset(ctx,s);
    for(Expr*e:sl) Z3_solver_assert(ctx,s,boolean(e));
    Z3_lbool r=Z3_solver_check(ctx,s);
    stats.queries++;
    Res res= r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNKNOWN;
    std::vector<std::pair<u32,u64>> asg;
    if(res==SAT){ stats.satq++;
      Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
      std::vector<u64> vm; for(Expr*e:sl){ if(vm.size()<e->vars->w.size()) vm.resize(e->vars->w.size(),0); for(size_t j=0;j<e->vars->w.size();++j) vm[j]|=e->vars->w[j]; }
      for(size_t j=0;j<vm.size();++j) for(u64 w=vm[j];w;w&=w-1){ u32 v=j*64+__builtin_ctzll(w); Z3_ast o=nullptr; Z3_model_eval(ctx,m,bv(P.varexpr[v]),true,&o); uint64_t val=0; if(!o||!Z3_get_numeral_uint64(ctx,o,&val)) hadError=true; asg.push_back({v,val}); }
      Z3_model_dec_ref(ctx,m);
      if(model){ *model=base; for(auto&p:asg){ if(model->size()<=p.first) model->resize(p.first+1,0); (*model)[p.first]=p.second; } 
        // sanity: the model must satisfy the query (guards against translation errors)
        P.stamp++; for(Expr*e:sl) if(!fpq && P.eval(e,*model)!=1){ fprintf(stderr,"engine: model mismatch\n"); hadError=true; }
      }
    } else if(res==UNSAT) stats.unsatq++;
    else { fprintf(stderr,"z3 unknown: %s\n",Z3_solver_get_reason_unknown(ctx,s)); }
    if(fpq) Z3_solver_dec_ref(ctx,s);
    stats.solverTime+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    if(res!=UNKNOWN) cache[key]={res,asg};
    return res;
  }
};
