// Hash-consed bit-vector expressions, folding, evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

enum Kind : u8 { KConst, KVar, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KEq, KUlt, KUle, KSlt, KSle, KConcat, KExtract, KZExt, KSExt, KIte,
  KFAdd, KFSub, KFMul, KFDiv, KFOeq, KFOlt, KFOle, KFUno, KSIToFP, KUIToFP, KFPToSI, KFPToUI, KFPExt, KFPTrunc, KFFloor, KFCeil };

struct VarSet { std::vector<u64> w; size_t hash; };

struct Expr {
  Kind k; u16 width; u32 id;
  u64 c;            // const value / var id / extract low bit
  Expr *a,*b,*d;
  u64 kz;           // bits known to be zero
  VarSet *vars;
  Z3_ast zbv, zbool;
  u64 evStamp, evVal;
  u64 simpStamp; Expr *simpRes;
};

static inline u64 maskW(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sextW(u64 v,unsigned w){ if(w>=64) return (i64)v; u64 s=1ull<<(w-1); v&=maskW(w); return (i64)((v^s)-s); }

struct VarInfo { std::string name; unsigned width; bool undef; };

struct ExprPool {
  std::vector<Expr*> arena; size_t used=0; 
  struct Key { Kind k; u16 w; u64 c; Expr*a,*b,*d; };
  struct H { size_t operator()(const Expr*e)const{ u64 h=e->k*0x9E3779B97F4A7C15ull; h^=e->width+ (h<<6)+(h>>2); h^=e->c*0xff51afd7ed558ccdull+(h<<6)+(h>>2);
     h^=(u64)e->a+(h<<6)+(h>>2); h^=(u64)e->b*3+(h<<6)+(h>>2); h^=(u64)e->d*7+(h<<6)+(h>>2); return h; } };
  struct E { bool operator()(const Expr*x,const Expr*y)const{ return x->k==y->k&&x->width==y->width&&x->c==y->c&&x->a==y->a&&x->b==y->b&&x->d==y->d; } };
  // open addressing table
  std::vector<Expr*> tab; size_t cnt=0;
  u32 nextId=1;
  std::vector<VarInfo> varinfo;
  std::vector<Expr*> varexpr;
  VarSet *emptySet;
  std::unordered_map<u64,VarSet*> unionCache;
  std::vector<VarSet*> allSets;
  std::unordered_multimap<size_t,VarSet*> setIndex;
  ExprPool(){ tab.assign(1<<16,nullptr); emptySet=internSet({}); }
  VarSet* internSet(std::vector<u64> w){
    while(!w.empty()&&w.back()==0) w.pop_back();
    size_t h=1469598103934665603ull; for(u64 x:w){ h^=x; h*=1099511628211ull; h^=h>>29; }
    auto r=setIndex.equal_range(h);
    for(auto i=r.first;i!=r.second;++i) if(i->second->w==w) return i->second;
    VarSet*s=new VarSet{w,h}; setIndex.emplace(h,s); return s;
  }
  VarSet* unite(VarSet*a,VarSet*b){
    if(a==b||b==emptySet) return a; if(a==emptySet) return b;
    if(a>b) std::swap(a,b);
    u64 key=(u64)a*0x9E3779B97F4A7C15ull ^ (u64)b*0xc2b2ae3d27d4eb4full;
    auto it=unionCache.find(key); if(it!=unionCache.end()) return it->second;
    std::vector<u64> w(std::max(a->w.size(),b->w.size()),0);
    for(size_t i=0;i<a->w.size();++i) w[i]|=a->w[i];
    for(size_t i=0;i<b->w.size();++i) w[i]|=b->w[i];
    VarSet*s=internSet(w); unionCache[key]=s; return s;
  }
  void grow(){ std::vector<Expr*> o; o.swap(tab); tab.assign(o.size()*2,nullptr); H h; size_t m=tab.size()-1;
    for(Expr*e:o) if(e){ size_t i=h(e)&m; while(tab[i]) i=(i+1)&m; tab[i]=e; } }
  char *chunk=nullptr; size_t left=0;
  Expr* intern(const Expr&t){
    H h; E eq; size_t m=tab.size()-1; size_t i=h(&t)&m;
    while(tab[i]){ if(eq(tab[i],&t)) return tab[i]; i=(i+1)&m; }
    if(left<sizeof(Expr)){ left=sizeof(Expr)*4096; chunk=(char*)malloc(left); }
    Expr*e=(Expr*)chunk; chunk+=sizeof(Expr); left-=sizeof(Expr);
    *e=t; e->id=nextId++; e->zbv=e->zbool=nullptr; e->evStamp=0; e->simpStamp=0; e->simpRes=nullptr;
    VarSet*s=emptySet; if(t.k==KVar){ std::vector<u64> w(t.c/64+1,0); w[t.c/64]|=1ull<<(t.c%64); s=internSet(w);} 
    if(t.a) s=unite(s,t.a->vars); if(t.b) s=unite(s,t.b->vars); if(t.d) s=unite(s,t.d->vars);
    e->vars=s; e->kz=knownZero(e);
    tab[i]=e; if(++cnt*2>tab.size()) grow();
    return e;
  }
  u64 knownZero(Expr*e){
    unsigned w=e->width; u64 M=maskW(w); if(w>64) return 0;
    switch(e->k){
    case KConst: return ~e->c & M;
    case KAnd: return (e->a->kz|e->b->kz);
    case KOr: case KXor: return (e->a->kz&e->b->kz);
    case KZExt: return e->a->kz | (M & ~maskW(e->a->width));
    case KConcat: { if(e->b->width>=64) return e->b->kz; return ((e->a->kz<<e->b->width)|e->b->kz)&M; }
    case KExtract: if(e->a->width>64) return 0; return (e->a->kz>>e->c)&M;
    case KIte: return e->b->kz&e->d->kz;
    case KShl: if(e->b->k==KConst&&e->b->c<w) return ((e->a->kz<<e->b->c)|maskW(e->b->c))&M; return 0;
    case KLShr: if(e->b->k==KConst&&e->b->c<w) return ((e->a->kz>>e->b->c)| ~(M>>e->b->c))&M; return 0;
    case KAdd: { // no carry past the top known bit
       u64 ma=~e->a->kz&M, mb=~e->b->kz&M; u64 low=0; 
       unsigned tz=std::min(ctz(e->a->kz),ctz(e->b->kz)); low=tz?maskW(tz):0;
       unsigned __int128 s=(unsigned __int128)ma+mb; if(s>M) return low&M; u64 hi=(u64)s; unsigned bits=64-(hi?__builtin_clzll(hi):64); return (low|(M&~maskW(bits)))&M; }
    case KMul: { u64 ma=~e->a->kz&M, mb=~e->b->kz&M; unsigned tz=ctz(e->a->kz)+ctz(e->b->kz); u64 low=tz>=64?~0ull:maskW(tz); if(tz==0) low=0; unsigned __int128 s=(unsigned __int128)ma*mb; if(s>M) return low&M; u64 hi=(u64)s; unsigned bits=64-(hi?__builtin_clzll(hi):64); return (low|(M&~maskW(bits)))&M; }
    case KUDiv: { u64 ma=~e->a->kz&M; if(e->b->k==KConst&&e->b->c){ u64 q=ma/e->b->c; unsigned bits=64-(q?__builtin_clzll(q):64); return M&~maskW0(bits);} return 0; }
    case KURem: { if(e->b->k==KConst&&e->b->c){ u64 q=e->b->c-1; unsigned bits=64-(q?__builtin_clzll(q):64); return M&~maskW0(bits);} return 0; }
    default: return 0;
    }
  }
  static u64 maskW0(unsigned b){ return b==0?0:maskW(b); }
  static unsigned ctz(u64 kz){ return ~kz? __builtin_ctzll(~kz):64; }
  Expr mk(Kind k,unsigned w,u64 c=0,Expr*a=0,Expr*b=0,Expr*d=0){ Expr t; memset(&t,0,sizeof t); t.k=k;t.width=w;t.c=c;t.a=a;t.b=b;t.d=d; return t; }
  Expr* cst(u64 v,unsigned w){ return intern(mk(KConst,w,v&maskW(w))); }
  Expr* var(const std::string&n,unsigned w,bool undef){ u64 id=varinfo.size(); varinfo.push_back({n,w,undef}); Expr*e=intern(mk(KVar,w,id)); varexpr.push_back(e); return e; }
  bool isC(Expr*e){ return e->k==KConst; }
  bool isC(Expr*e,u64 v){ return e->k==KConst&&e->c==v; }

  Expr* zext(Expr*e,unsigned w){ if(e->width==w) return e; if(isC(e)&&w<=64) return cst(e->c,w); if(e->k==KZExt) return zext(e->a,w); return intern(mk(KZExt,w,0,e)); }
  Expr* sext(Expr*e,unsigned w){ if(e->width==w) return e; if(isC(e)&&w<=64) return cst((u64)sextW(e->c,e->width),w);
    if(e->width<=64 && (e->kz>>(e->width-1)&1)) return zext(e,w);
    if(e->k==KSExt) return sext(e->a,w); return intern(mk(KSExt,w,0,e)); }
  Expr* extract(Expr*e,unsigned lo,unsigned w){
    if(lo==0&&w==e->width) return e;
    if(isC(e)) return cst(e->c>>lo,w);
    if(w<=64&&e->width<=64 && ((e->kz>>lo)&maskW(w))==maskW(w)) return cst(0,w);
    switch(e->k){
    case KExtract: return extract(e->a,lo+e->c,w);
    case KConcat: { unsigned bw=e->b->width; if(lo+w<=bw) return extract(e->b,lo,w); if(lo>=bw) return extract(e->a,lo-bw,w);
        return concat(extract(e->a,0,lo+w-bw),extract(e->b,lo,bw-lo)); }
    case KZExt: { unsigned aw=e->a->width; if(lo+w<=aw) return extract(e->a,lo,w); if(lo>=aw) return cst(0,w); return zext(extract(e->a,lo,aw-lo),w); }
    case KSExt: { unsigned aw=e->a->width; if(lo+w<=aw) return extract(e->a,lo,w); break; }
    case KAnd: case KOr: case KXor: if(e->a->k==KConst||e->b->k==KConst||e->k!=KXor) return bin(e->k,extract(e->a,lo,w),extract(e->b,lo,w)); break;
    case KShl: if(e->b->k==KConst&&e->b->c<e->width){ unsigned s=e->b->c; if(lo>=s) return extract(e->a,lo-s,w); if(lo+w<=s) return cst(0,w); return concat(extract(e->a,0,lo+w-s),cst(0,s-lo)); } break;
    case KLShr: if(e->b->k==KConst&&e->b->c<e->width){ unsigned s=e->b->c; if(lo+w+s<=e->width) return extract(e->a,lo+s,w); if(lo+s>=e->width) return cst(0,w); return zext(extract(e->a,lo+s,e->width-lo-s),w);} break;
    case KAdd: case KSub: case KMul: if(lo==0) return bin(e->k,extract(e->a,0,w),extract(e->b,0,w)); break;
    case KIte: if(e->b->k==KConst||e->d->k==KConst) return ite(e->a,extract(e->b,lo,w),extract(e->d,lo,w)); break;
    default: break;
    }
    return intern(mk(KExtract,w,lo,e));
  }
  Expr* concat(Expr*hi,Expr*lo){
    unsigned w=hi->width+lo->width;
    if(isC(hi)&&isC(lo)&&w<=64) return cst((hi->c<<lo->width)|lo->c,w);
    if(isC(hi,0)&&w<=64) return zext(lo,w);
    if(hi->k==KZExt && w<=64) return zext(concat(hi->a,lo),w);
    if(hi->k==KExtract&&lo->k==KExtract&&hi->a==lo->a&&hi->c==lo->c+lo->width) return extract(hi->a,lo->c,w);
    if(hi->k==KExtract&&hi->a==lo&&hi->c==lo->width) return extract(hi->a,0,w); 
    if(lo->k==KConcat&&hi->k==KExtract&&lo->a->k==KExtract&&hi->a==lo->a->a&&hi->c==lo->a->c+lo->a->width) return concat(extract(hi->a,lo->a->c,hi->width+lo->a->width),lo->b);
    if(isC(hi)&&lo->k==KConcat&&isC(lo->a)&&hi->width+lo->a->width<=64) return concat(concat(hi,lo->a),lo->b);
    return intern(mk(KConcat,w,0,hi,lo));
  }
  Expr* bnot(Expr*e){ return bin(KXor,e,cst(~0ull,e->width)); }
  Expr* ite(Expr*c,Expr*t,Expr*f){
    if(isC(c)) return c->c?t:f; if(t==f) return t;
    if(c->k==KXor&&c->width==1&&isC(c->b,1)) return ite(c->a,f,t);
    if(t->width==1){ if(isC(t,1)&&isC(f,0)) return c; if(isC(t,0)&&isC(f,1)) return bnot(c); if(isC(t,1)) return bin(KOr,c,f); if(isC(t,0)) return bin(KAnd,bnot(c),f); if(isC(f,0)) return bin(KAnd,c,t); if(isC(f,1)) return bin(KOr,bnot(c),t); }
    if(t->k==KIte&&t->a==c) return ite(c,t->b,f); if(f->k==KIte&&f->a==c) return ite(c,t,f->d);
    if(f->k==KIte&&f->b==t) return ite(bin(KOr,c,f->a),t,f->d);
    if(t->k==KZExt&&f->k==KZExt&&t->a->width==f->a->width) return zext(ite(c,t->a,f->a),t->width);
    return intern(mk(KIte,t->width,0,c,t,f));
  }
  u64 foldBin(Kind k,u64 x,u64 y,unsigned w){
    u64 M=maskW(w);
    switch(k){
    case KAdd: return (x+y)&M; case KSub: return (x-y)&M; case KMul: return (x*y)&M;
    case KUDiv: return y? x/y : M; case KURem: return y? x%y:x;
    case KSDiv: { i64 a=sextW(x,w),b=sextW(y,w); if(b==0) return a<0?1:M; if(b==-1) return (u64)(-(u64)a)&M; return (u64)(a/b)&M; }
    case KSRem: { i64 a=sextW(x,w),b=sextW(y,w); if(b==0) return x; if(b==-1) return 0; return (u64)(a%b)&M; }
    case KAnd: return x&y; case KOr: return x|y; case KXor: return x^y;
    case KShl: return y>=w?0:(x<<y)&M; case KLShr: return y>=w?0:x>>y; case KAShr: { i64 a=sextW(x,w); return (u64)(y>=w?(a<0?-1:0):(a>>y))&M; }
    case KEq: return x==y; case KUlt: return x<y; case KUle: return x<=y; case KSlt: return sextW(x,w)<sextW(y,w); case KSle: return sextW(x,w)<=sextW(y,w);
    default: abort();
    }
  }
  static bool isCmp(Kind k){ return k>=KEq&&k<=KSle; }
  Expr* bin(Kind k,Expr*a,Expr*b){
    unsigned w=a->width; unsigned rw=isCmp(k)?1:w;
    if(isC(a)&&isC(b)) return cst(foldBin(k,a->c,b->c,w),rw);
    bool comm=(k==KAdd||k==KMul||k==KAnd||k==KOr||k==KXor||k==KEq);
    if(comm){ if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); }
    u64 M=maskW(w);
    if(w<=64) switch(k){
    case KAdd: if(isC(b,0)) return a; if(isC(b)&&a->k==KAdd&&isC(a->b)) return bin(KAdd,a->a,cst(a->b->c+b->c,w));
      if(isC(b)&&a->k==KIte&&isC(a->b)&&isC(a->d)) return ite(a->a,cst(a->b->c+b->c,w),cst(a->d->c+b->c,w));
      if(!isC(b)&&a->k==KAdd&&isC(a->b)) return bin(KAdd,bin(KAdd,a->a,b),a->b);
      if(!isC(b)&&b->k==KAdd&&isC(b->b)) return bin(KAdd,bin(KAdd,a,b->a),b->b);
      if(a->k==KSub&&a->b==b) return a->a; if(b->k==KSub&&b->b==a) return b->a;
      if(!isC(b)&&(a->kz|b->kz)==M) return bin(KOr,a,b);
      break;
    case KSub: if(isC(b)) return bin(KAdd,a,cst(-b->c,w)); if(a==b) return cst(0,w);
      if(a->k==KAdd){ if(a->a==b) return a->b; if(a->b==b) return a->a; }
      if(b->k==KAdd&&isC(b->b)) return bin(KAdd,bin(KSub,a,b->a),cst(-b->b->c,w));
      if(a->k==KAdd&&isC(a->b)) return bin(KAdd,bin(KSub,a->a,b),a->b);
      if(b->k==KAdd){ if(b->a==a) return bin(KSub,cst(0,w),b->b); if(b->b==a) return bin(KSub,cst(0,w),b->a); }
      break;
    case KMul: if(isC(b,0)) return b; if(isC(b,1)) return a; if(isC(b)&&(b->c&(b->c-1))==0) return bin(KShl,a,cst(__builtin_ctzll(b->c),w)); break;
    case KUDiv: if(isC(b,1)) return a; if(isC(b)&&b->c&&(b->c&(b->c-1))==0) return bin(KLShr,a,cst(__builtin_ctzll(b->c),w)); break;
    case KURem: if(isC(b,1)) return cst(0,w); if(isC(b)&&b->c&&(b->c&(b->c-1))==0) return bin(KAnd,a,cst(b->c-1,w)); break;
    case KAnd: if(isC(b,0)) return b; if(isC(b,M)) return a; if(a==b) return a;
      if(isC(b)){ if((~b->c&M&~a->kz)==0) return a; if((b->c&~a->kz)==0) return cst(0,w); if(a->k==KAnd&&isC(a->b)) return bin(KAnd,a->a,cst(a->b->c&b->c,w));
         // contiguous low mask -> zext(extract)
         u64 m=b->c; if((m&(m+1))==0){ unsigned n=64-__builtin_clzll(m); return zext(extract(a,0,n),w);} 
         if(a->k==KZExt){ return zext(bin(KAnd,a->a,cst(m,a->a->width)),w); }
         { unsigned tz=__builtin_ctzll(m); u64 mm=m>>tz; if(tz && (mm&(mm+1))==0){ unsigned n=64-__builtin_clzll(mm); Expr*x=concat(extract(a,tz,n),cst(0,tz)); return zext(x,w);} }
      }
      if(w==1&&((a->k==KXor&&a->a==b&&isC(a->b,1))||(b->k==KXor&&b->a==a&&isC(b->b,1)))) return cst(0,1);
      if((a->kz|b->kz)==M) return cst(0,w);
      if(a->k==KZExt&&b->k==KZExt&&a->a->width==b->a->width) return zext(bin(k,a->a,b->a),w);
      break;
    case KOr: if(isC(b,0)) return a; if(isC(b,M)) return b; if(a==b) return a;
      if(w==1&&((a->k==KXor&&a->a==b&&isC(a->b,1))||(b->k==KXor&&b->a==a&&isC(b->b,1)))) return cst(1,1);
      if(a->k==KZExt&&b->k==KZExt&&a->a->width==b->a->width) return zext(bin(k,a->a,b->a),w);
      // disjoint fields -> concat
      if(w>1&&!isC(b)&&(a->kz|b->kz)==M){ Expr*lo=a,*hi=b; for(int t=0;t<2;++t){ unsigned hz=ctz(hi->kz); if(hz>0&&hz<w){ u64 lm=~lo->kz&M; if(lm<=maskW(hz)) return concat(extract(hi,hz,w-hz),extract(lo,0,hz)); } std::swap(lo,hi);} }
      break;
    case KXor: if(isC(b,0)) return a; if(a==b) return cst(0,w); if(isC(b)&&a->k==KXor&&isC(a->b)) return bin(KXor,a->a,cst(a->b->c^b->c,w));
      if(w==1&&isC(b,1)){ if(a->k==KUlt) return bin(KUle,a->b,a->a); if(a->k==KUle) return bin(KUlt,a->b,a->a); if(a->k==KSlt) return bin(KSle,a->b,a->a); if(a->k==KSle) return bin(KSlt,a->b,a->a); }
      if(isC(b)&&a->k==KIte&&isC(a->b)&&isC(a->d)) return ite(a->a,bin(k,a->b,b),bin(k,a->d,b));
      break;
    case KShl: if(isC(b,0)) return a; if(isC(b)){ if(b->c>=w) return cst(0,w); return concat(extract(a,0,w-b->c),cst(0,b->c)); } break;
    case KLShr: if(isC(b,0)) return a; if(isC(b)){ if(b->c>=w) return cst(0,w); return zext(extract(a,b->c,w-b->c),w); } break;
    case KAShr: if(isC(b,0)) return a; if(isC(b)){ u64 s=b->c>=w?w-1:b->c; return sext(extract(a,s,w-s),w); } break;
    case KEq: 
      if(a==b) return cst(1,1);
      if(w==1){ if(isC(b,1)) return a; if(isC(b,0)) return bnot(a); }
      if(isC(b)){
        if(b->c & a->kz) return cst(0,1);
        if(a->k==KZExt) return bin(KEq,a->a,cst(b->c,a->a->width));
        if(a->k==KSExt){ u64 t=b->c&maskW(a->a->width); if(((u64)sextW(t,a->a->width)&M)!=b->c) return cst(0,1); return bin(KEq,a->a,cst(t,a->a->width)); }
        if(a->k==KConcat){ unsigned lw=a->b->width; return bin(KAnd,bin(KEq,a->a,cst(b->c>>lw,a->a->width)),bin(KEq,a->b,cst(b->c,lw))); }
        if(a->k==KAdd&&isC(a->b)) return bin(KEq,a->a,cst(b->c-a->b->c,w));
        if(a->k==KXor&&isC(a->b)) return bin(KEq,a->a,cst(b->c^a->b->c,w));
        if(a->k==KIte){ if(isC(a->b)||isC(a->d)) { Expr*x=bin(KEq,a->b,b),*y=bin(KEq,a->d,b); if(isC(x)||isC(y)) return ite(a->a,x,y);} }
        if(a->k==KSub&&b->c==0) return bin(KEq,a->a,a->b);
      } else {
        if(a->k==KZExt&&b->k==KZExt){ unsigned m=std::max(a->a->width,b->a->width); return bin(KEq,zext(a->a,m),zext(b->a,m)); }
        if(a->k==KAdd&&b->k==KAdd&&isC(a->b)&&isC(b->b)) return bin(KEq,a->a,bin(KAdd,b->a,cst(b->b->c-a->b->c,w)));
        if(a->k==KConcat&&b->k==KConcat&&a->b->width==b->b->width) return bin(KAnd,bin(KEq,a->a,b->a),bin(KEq,a->b,b->b));
      }
      break;
    case KUlt: if(a==b) return cst(0,1); if(isC(b)){ if(b->c==0) return cst(0,1); if((~a->kz&M)<b->c) return cst(1,1); if(b->c==1) return bin(KEq,a,cst(0,w)); } if(isC(a)){ u64 mx=~b->kz&M; if(a->c>=mx) return cst(0,1); if(a->c==0) return bnot(bin(KEq,b,a)); }
      if(a->k==KZExt&&b->k==KZExt&&a->a->width==b->a->width) return bin(k,a->a,b->a);
      if(a->k==KZExt&&isC(b)) return bin(k,a->a,cst(b->c,a->a->width)); // b <= max since checked
      if(b->k==KZExt&&isC(a)) return bin(k,cst(a->c,b->a->width),b->a);
      break;
    case KUle: if(a==b) return cst(1,1); if(isC(a,0)) return cst(1,1); if(isC(b,M)) return cst(1,1); if(isC(b)&&(~a->kz&M)<=b->c) return cst(1,1); if(isC(a)&&a->c>(~b->kz&M)) return cst(0,1);
      if(isC(b)) return bin(KUlt,a,cst(b->c+1,w)); if(isC(a)) return bin(KUlt,cst(a->c-1,w),b);
      if(a->k==KZExt&&b->k==KZExt&&a->a->width==b->a->width) return bin(k,a->a,b->a);
      break;
    case KSlt: if(a==b) return cst(0,1);
      if((a->kz>>(w-1)&1)&&(b->kz>>(w-1)&1)) return bin(KUlt,a,b);
      if(isC(b,0)) { return extract(a,w-1,1); }
      break;
    case KSle: if(a==b) return cst(1,1); if((a->kz>>(w-1)&1)&&(b->kz>>(w-1)&1)) return bin(KUle,a,b);
      break;
    default: break;
    }
    return intern(mk(k,rw,0,a,b));
  }
  // floating point (operands are IEEE bit patterns)
  static double asD(u64 v){ double d; memcpy(&d,&v,8); return d; }
  static float asF(u64 v){ u32 x=v; float d; memcpy(&d,&x,4); return d; }
  static u64 fromD(double d){ u64 v; memcpy(&v,&d,8); return v; }
  static u64 fromF(float d){ u32 v; memcpy(&v,&d,4); return v; }
  u64 foldFP(Kind k,u64 x,u64 y,unsigned w,unsigned rw){
    double a= w==32? asF(x):asD(x), b= w==32? asF(y):asD(y);
    auto pk=[&](double r)->u64{ return w==32? fromF((float)r):fromD(r); };
    switch(k){
    case KFAdd: return w==32?fromF(asF(x)+asF(y)):fromD(a+b); case KFSub: return w==32?fromF(asF(x)-asF(y)):fromD(a-b);
    case KFMul: return w==32?fromF(asF(x)*asF(y)):fromD(a*b); case KFDiv: return w==32?fromF(asF(x)/asF(y)):fromD(a/b);
    case KFOeq: return a==b; case KFOlt: return a<b; case KFOle: return a<=b; case KFUno: return std::isnan(a)||std::isnan(b);
    case KFFloor: return pk(floor(a)); case KFCeil: return pk(ceil(a));
    case KFPToSI: { if(!(a>-9.3e18&&a<9.3e18)) return 0; return (u64)(i64)a & maskW(rw);} case KFPToUI: { if(!(a>-1&&a<1.85e19)) return 0; return (u64)a & maskW(rw);} 
    case KFPExt: return fromD(a); case KFPTrunc: return fromF((float)a);
    default: abort();
    }
  }
  Expr* fp(Kind k,Expr*a,Expr*b,unsigned rw){
    if(isC(a)&&(!b||isC(b))){
      if(k==KSIToFP){ i64 v=sextW(a->c,a->width); return cst(rw==32?fromF((float)v):fromD((double)v),rw); }
      if(k==KUIToFP){ return cst(rw==32?fromF((float)a->c):fromD((double)a->c),rw); }
      return cst(foldFP(k,a->c,b?b->c:0,a->width,rw),rw);
    }
    return intern(mk(k,rw,0,a,b));
  }
  // evaluation under an assignment
  u64 stamp=1;
  u64 eval(Expr*e,const std::vector<u64>&m){
    if(e->k==KConst) return e->c;
    if(e->k==KVar) return e->c<m.size()? m[e->c]&maskW(e->width):0;
    if(e->evStamp==stamp) return e->evVal;
    u64 r=0; unsigned w=e->width;
    if(w>64){ fprintf(stderr,"eval of wide expr\n"); abort(); }
    switch(e->k){
    case KConcat: r= (e->b->width>=64?0:(eval(e->a,m)<<e->b->width))|eval(e->b,m); break;
    case KExtract: if(e->a->width>64){ r=evalWideExtract(e->a,e->c,w,m);} else r=(eval(e->a,m)>>e->c)&maskW(w); break;
    case KZExt: r=eval(e->a,m); break;
    case KSExt: r=(u64)sextW(eval(e->a,m),e->a->width)&maskW(w); break;
    case KIte: r=eval(e->a,m)?eval(e->b,m):eval(e->d,m); break;
    case KFAdd: case KFSub: case KFMul: case KFDiv: case KFOeq: case KFOlt: case KFOle: case KFUno:
      r=foldFP(e->k,eval(e->a,m),eval(e->b,m),e->a->width,w); break;
    case KSIToFP: { i64 v=sextW(eval(e->a,m),e->a->width); r=w==32?fromF((float)v):fromD((double)v); break; }
    case KUIToFP: { u64 v=eval(e->a,m); r=w==32?fromF((float)v):fromD((double)v); break; }
    case KFPToSI: case KFPToUI: case KFPExt: case KFPTrunc: case KFFloor: case KFCeil: r=foldFP(e->k,eval(e->a,m),0,e->a->width,w); break;
    default: if((e->a->width)>64){ if(e->k==KEq){ r=1; for(unsigned lo=0;lo<e->a->width;lo+=64){ unsigned n=std::min(64u,e->a->width-lo); if(eval(extract(e->a,lo,n),m)!=eval(extract(e->b,lo,n),m)) r=0; } break;} fprintf(stderr,"wide op %d\n",e->k); abort(); }
      r=foldBin(e->k,eval(e->a,m),eval(e->b,m),e->a->width);
    }
    e->evStamp=stamp; e->evVal=r; return r;
  }
  u64 evalWideExtract(Expr*a,unsigned lo,unsigned w,const std::vector<u64>&m){
    Expr*x=extract(a,lo,w); if(x->k==KExtract&&x->a==a){ 
      if(a->k==KZExt||a->k==KSExt||a->k==KIte){ if(a->k==KIte) return eval(a->a,m)?evalWideExtract(a->b,lo,w,m):evalWideExtract(a->d,lo,w,m); }
      if(a->k==KMul||a->k==KAdd||a->k==KSub||a->k==KLShr){ unsigned __int128 v=evalWide(a,m); return (u64)(v>>lo)&maskW(w); }
      fprintf(stderr,"wide extract kind %d\n",a->k); abort(); }
    return eval(x,m);
  }
  unsigned __int128 evalWide(Expr*a,const std::vector<u64>&m){
    if(a->width<=64) return eval(a,m);
    switch(a->k){
    case KZExt: return evalWide(a->a,m);
    case KSExt: return (unsigned __int128)(__int128)sextW(eval(a->a,m),a->a->width);
    case KConcat: return (evalWide(a->a,m)<<a->b->width)|evalWide(a->b,m);
    case KMul: return evalWide(a->a,m)*evalWide(a->b,m);
    case KAdd: return evalWide(a->a,m)+evalWide(a->b,m);
    case KSub: return evalWide(a->a,m)-evalWide(a->b,m);
    case KLShr: { auto s=evalWide(a->b,m); return s>=128?0:evalWide(a->a,m)>>(unsigned)s; }
    case KIte: return eval(a->a,m)?evalWide(a->b,m):evalWide(a->d,m);
    default: fprintf(stderr,"wide eval kind %d\n",a->k); abort();
    }
  }
  // substitution of pinned variables
  Expr* subst(Expr*e,const std::map<u32,u64>&pins,u64 st){
    if(e->k==KConst) return e;
    if(e->k==KVar){ auto it=pins.find((u32)e->c); return it==pins.end()?e:cst(it->second,e->width); }
    if(e->simpStamp==st) return e->simpRes;
    bool touch=false; for(auto&p:pins){ size_t i=p.first/64; if(i<e->vars->w.size()&&(e->vars->w[i]>>(p.first%64)&1)){touch=true;break;} }
    Expr*r=e;
    if(touch){
      Expr*a=e->a?subst(e->a,pins,st):0,*b=e->b?subst(e->b,pins,st):0,*d=e->d?subst(e->d,pins,st):0;
      if(a!=e->a||b!=e->b||d!=e->d) r=rebuild(e,a,b,d);
    }
    e->simpStamp=st; e->simpRes=r; return r;
  }
  Expr* rebuild(Expr*e,Expr*a,Expr*b,Expr*d){
    switch(e->k){
    case KConcat: return concat(a,b); case KExtract: return extract(a,e->c,e->width); case KZExt: return zext(a,e->width); case KSExt: return sext(a,e->width);
    case KIte: return ite(a,b,d);
    case KFAdd: case KFSub: case KFMul: case KFDiv: case KFOeq: case KFOlt: case KFOle: case KFUno: case KSIToFP: case KUIToFP: case KFPToSI: case KFPToUI: case KFPExt: case KFPTrunc: case KFFloor: case KFCeil: return fp(e->k,a,b,e->width);
    default: return bin(e->k,a,b);
    }
  }
};
