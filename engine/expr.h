// Expression DAG for bit-vectors: hash-consed, simplifying constructors.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <functional>
#include <map>
#include <set>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum EKind : uint8_t {
  E_CONST, E_SYM,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_NOT,            // bitwise not
  E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE
};

struct Expr;
typedef std::shared_ptr<std::vector<uint32_t>> SymSet;

struct Expr {
  EKind k; uint16_t w; uint32_t id; uint32_t aux; // aux: extract offset or symbol index
  u128 c;                                          // constant value
  Expr *a=nullptr,*b=nullptr,*d=nullptr;
  u128 umin, umax;                                 // unsigned bounds
  const std::vector<uint32_t>* syms=nullptr;       // interned sorted set, lazily computed
  uint32_t egen=0; u128 eval;                      // evaluation memo
  void* z3=nullptr;                                // translated ast
  bool isC() const { return k==E_CONST; }
};

inline u128 maskW(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
inline i128 sx(u128 v, unsigned w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); return (i128)((v^m)-m); }

struct ExprPool {
  struct Key { EKind k; uint16_t w; uint32_t aux; u128 c; Expr*a,*b,*d; };
  std::vector<Expr*> table; size_t mask, count=0; uint32_t nextId=1;
  std::vector<std::string> symNames; std::vector<unsigned> symWidths; std::vector<Expr*> symExprs;
  std::set<std::vector<uint32_t>> symSets; 
  const std::vector<uint32_t>* emptySet;
  uint32_t gen=1;
  ExprPool(){ table.assign(1<<20,nullptr); mask=table.size()-1; emptySet=&*symSets.insert(std::vector<uint32_t>()).first; }
  static uint64_t mix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>32; return h; }
  static uint64_t hashOf(EKind k,uint16_t w,uint32_t aux,u128 c,Expr*a,Expr*b,Expr*d){
    uint64_t h=mix(k*1315423911ULL,w); h=mix(h,aux); h=mix(h,(uint64_t)c); h=mix(h,(uint64_t)(c>>64));
    h=mix(h,a?a->id:0); h=mix(h,b?b->id:0); h=mix(h,d?d->id:0); return h; }
  void grow(){
    std::vector<Expr*> old; old.swap(table); table.assign(old.size()*2,nullptr); mask=table.size()-1;
    for(Expr*e:old) if(e){ size_t i=hashOf(e->k,e->w,e->aux,e->c,e->a,e->b,e->d)&mask; while(table[i]) i=(i+1)&mask; table[i]=e; }
  }
  Expr* mk(EKind k,unsigned w,uint32_t aux,u128 c,Expr*a=nullptr,Expr*b=nullptr,Expr*d=nullptr){
    if(count*2>table.size()) grow();
    size_t i=hashOf(k,w,aux,c,a,b,d)&mask;
    while(Expr*e=table[i]){
      if(e->k==k&&e->w==w&&e->aux==aux&&e->c==c&&e->a==a&&e->b==b&&e->d==d) return e;
      i=(i+1)&mask;
    }
    Expr*e=new Expr; e->k=k;e->w=w;e->aux=aux;e->c=c;e->a=a;e->b=b;e->d=d;e->id=nextId++; table[i]=e;count++;
    bounds(e);
    return e;
  }
  void bounds(Expr*e){
    u128 M=maskW(e->w); e->umin=0; e->umax=M;
    switch(e->k){
      case E_CONST: e->umin=e->umax=e->c; break;
      case E_ZEXT: e->umin=e->a->umin; e->umax=e->a->umax; break;
      case E_CONCAT: if(e->w<=128){ e->umin=(e->a->umin<<e->b->w)|e->b->umin; e->umax=(e->a->umax<<e->b->w)|e->b->umax; 
           if(e->a->umin!=e->a->umax){ e->umin=(e->a->umin<<e->b->w); e->umax=(e->a->umax<<e->b->w)|maskW(e->b->w);} } break;
      case E_ITE: e->umin=std::min(e->b->umin,e->d->umin); e->umax=std::max(e->b->umax,e->d->umax); break;
      case E_AND: e->umax=std::min(e->a->umax,e->b->umax); break;
      case E_OR: { e->umin=std::max(e->a->umin,e->b->umin); u128 m=e->a->umax|e->b->umax; unsigned n=0; while(n<128&&(n>=128?0:(m>>n))) n++; e->umax=std::min(M,maskW(n)); } break;
      case E_ADD: if(e->w<128){ u128 hi=e->a->umax+e->b->umax; if(hi<=M){ e->umin=e->a->umin+e->b->umin; e->umax=hi; } } break;
      case E_SUB: if(e->a->umin>=e->b->umax){ e->umin=e->a->umin-e->b->umax; e->umax=e->a->umax-e->b->umin; } break;
      case E_MUL: if(e->w<=64){ u128 hi=e->a->umax*e->b->umax; if(hi<=M){ e->umin=e->a->umin*e->b->umin; e->umax=hi; } } break;
      case E_UDIV: if(e->b->isC()&&e->b->c){ e->umin=e->a->umin/e->b->c; e->umax=e->a->umax/e->b->c; } break;
      case E_UREM: if(e->b->isC()&&e->b->c){ e->umax=std::min(e->a->umax,(u128)(e->b->c-1)); } break;
      case E_LSHR: if(e->b->isC()&&e->b->c<e->w){ e->umin=e->a->umin>>(unsigned)e->b->c; e->umax=e->a->umax>>(unsigned)e->b->c; } break;
      case E_SHL: if(e->b->isC()&&e->b->c<e->w&&e->w<=64){ u128 hi=e->a->umax<<(unsigned)e->b->c; if(hi<=M){ e->umin=e->a->umin<<(unsigned)e->b->c; e->umax=hi; } } break;
      case E_EXTRACT: if(e->aux==0 && e->a->umax<=M){ e->umin=e->a->umin; e->umax=e->a->umax; } break;
      default: break;
    }
  }
  Expr* C(u128 v,unsigned w){ return mk(E_CONST,w,0,v&maskW(w)); }
  Expr* sym(const std::string&name,unsigned w){ uint32_t i=symNames.size(); symNames.push_back(name); symWidths.push_back(w); Expr*e=mk(E_SYM,w,i,0); symExprs.push_back(e); return e; }
  const std::vector<uint32_t>* symsOf(Expr*e){
    if(e->syms) return e->syms;
    // iterative post-order
    std::vector<Expr*> st{e};
    while(!st.empty()){
      Expr*x=st.back(); if(x->syms){ st.pop_back(); continue; }
      if(x->k==E_CONST){ x->syms=emptySet; st.pop_back(); continue; }
      if(x->k==E_SYM){ x->syms=&*symSets.insert(std::vector<uint32_t>{x->aux}).first; st.pop_back(); continue; }
      bool ready=true;
      for(Expr*ch:{x->a,x->b,x->d}) if(ch&&!ch->syms){ st.push_back(ch); ready=false; }
      if(!ready) continue;
      const std::vector<uint32_t>*cur=nullptr;
      for(Expr*ch:{x->a,x->b,x->d}) if(ch){
        if(!cur||cur->empty()) cur=ch->syms; else if(ch->syms!=cur&&!ch->syms->empty()){
          std::vector<uint32_t> u; std::set_union(cur->begin(),cur->end(),ch->syms->begin(),ch->syms->end(),std::back_inserter(u));
          cur=&*symSets.insert(std::move(u)).first; } }
      x->syms=cur; st.pop_back();
    }
    return e->syms;
  }
  // ---- constant operator semantics (SMT-LIB semantics for division by zero) ----
  static u128 op2(EKind k,u128 x,u128 y,unsigned w){
    u128 M=maskW(w);
    switch(k){
      case E_ADD: return (x+y)&M; case E_SUB: return (x-y)&M; case E_MUL: return (x*y)&M;
      case E_UDIV: return y?x/y:M; case E_UREM: return y?x%y:x;
      case E_SDIV: { i128 a=sx(x,w),b=sx(y,w); if(!b) return a<0?1:M; if(b==-1) return (u128)(-(u128)a)&M; return (u128)(a/b)&M; }
      case E_SREM: { i128 a=sx(x,w),b=sx(y,w); if(!b) return x; if(b==-1) return 0; return (u128)(a%b)&M; }
      case E_AND: return x&y; case E_OR: return x|y; case E_XOR: return x^y;
      case E_SHL: return y>=w?0:(x<<(unsigned)y)&M; case E_LSHR: return y>=w?0:(x>>(unsigned)y);
      case E_ASHR: { i128 a=sx(x,w); return (u128)(a>>(y>=w?w-1:(unsigned)y))&M; }
      case E_EQ: return x==y; case E_ULT: return x<y; case E_ULE: return x<=y;
      case E_SLT: return sx(x,w)<sx(y,w); case E_SLE: return sx(x,w)<=sx(y,w);
      default: abort();
    }
  }
  Expr* T(){ return C(1,1); } Expr* F(){ return C(0,1); }
  Expr* notE(Expr*x){
    if(x->isC()) return C(~x->c,x->w);
    if(x->k==E_NOT) return x->a;
    if(x->w==1){
      if(x->k==E_ULT) return mk2(E_ULE,x->b,x->a);
      if(x->k==E_ULE) return mk2(E_ULT,x->b,x->a);
      if(x->k==E_SLT) return mk2(E_SLE,x->b,x->a);
      if(x->k==E_SLE) return mk2(E_SLT,x->b,x->a);
    }
    return mk(E_NOT,x->w,0,0,x);
  }
  bool isNotOf(Expr*x,Expr*y){ return (x->k==E_NOT&&x->a==y)||(y->k==E_NOT&&y->a==x)||(x->w==1&&notE(x)==y); }
  Expr* ite(Expr*c,Expr*t,Expr*f){
    if(c->isC()) return c->c?t:f;
    if(t==f) return t;
    if(c->k==E_NOT) return ite(c->a,f,t);
    if(t->w==1){
      if(t->isC()&&f->isC()) return t->c?c:notE(c);
      if(t->isC()) return t->c? mk2(E_OR,c,f) : mk2(E_AND,notE(c),f);
      if(f->isC()) return f->c? mk2(E_OR,notE(c),t) : mk2(E_AND,c,t);
    }
    if(t->k==E_ITE&&t->a==c) t=t->b;
    if(f->k==E_ITE&&f->a==c) f=f->d;
    if(t==f) return t;
    if(f->k==E_ITE && f->b==t) return ite(mk2(E_OR,c,f->a),t,f->d);
    return mk(E_ITE,t->w,0,0,c,t,f);
  }
  Expr* extract(Expr*x,unsigned off,unsigned w){
    if(off==0&&w==x->w) return x;
    if(x->isC()) return C(x->c>>off,w);
    switch(x->k){
      case E_EXTRACT: return extract(x->a,x->aux+off,w);
      case E_CONCAT: { unsigned lw=x->b->w; if(off+w<=lw) return extract(x->b,off,w); if(off>=lw) return extract(x->a,off-lw,w);
          return concat(extract(x->a,0,off+w-lw),extract(x->b,off,lw-off)); }
      case E_ZEXT: { unsigned iw=x->a->w; if(off+w<=iw) return extract(x->a,off,w); if(off>=iw) return C(0,w); return zext(extract(x->a,off,iw-off),w); }
      case E_SEXT: { unsigned iw=x->a->w; if(off+w<=iw) return extract(x->a,off,w); break; }
      case E_AND: case E_OR: case E_XOR: return mk2(x->k,extract(x->a,off,w),extract(x->b,off,w));
      case E_NOT: return notE(extract(x->a,off,w));
      case E_ADD: case E_SUB: case E_MUL: if(off==0) return mk2(x->k,extract(x->a,0,w),extract(x->b,0,w)); break;
      case E_SHL: if(x->b->isC()){ unsigned s=(unsigned)x->b->c; if(s<x->w){ if(off>=s) return extract(x->a,off-s,w); if(off+w<=s) return C(0,w); return concat(extract(x->a,0,off+w-s),C(0,s-off)); } } break;
      case E_LSHR: if(x->b->isC()){ unsigned s=(unsigned)x->b->c; if(s<x->w){ if(off+s+w<=x->w) return extract(x->a,off+s,w); if(off+s>=x->w) return C(0,w); return zext(extract(x->a,off+s,x->w-off-s),w);} } break;
      case E_ITE: if((x->b->isC()||x->b->k==E_CONCAT||x->b->k==E_ZEXT||x->b->k==E_ITE)||(x->d->isC()||x->d->k==E_CONCAT||x->d->k==E_ZEXT||x->d->k==E_ITE)) return ite(x->a,extract(x->b,off,w),extract(x->d,off,w)); break;
      default: break;
    }
    if(x->umax<=maskW(128) && off<128 && (x->umax>>off)==0) return C(0,w);
    return mk(E_EXTRACT,w,off,0,x);
  }
  Expr* zext(Expr*x,unsigned w){
    if(w==x->w) return x; if(w<x->w) return extract(x,0,w);
    if(x->isC()) return C(x->c,w);
    if(x->k==E_ZEXT) return zext(x->a,w);
    return mk(E_ZEXT,w,0,0,x);
  }
  Expr* sext(Expr*x,unsigned w){
    if(w==x->w) return x; if(w<x->w) return extract(x,0,w);
    if(x->isC()) return C((u128)sx(x->c,x->w),w);
    if(x->k==E_ZEXT) return zext(x->a,w);
    if(x->k==E_SEXT) return sext(x->a,w);
    if(x->w>1 && x->umax < ((u128)1<<(x->w-1))) return zext(x,w);
    return mk(E_SEXT,w,0,0,x);
  }
  Expr* concat(Expr*hi,Expr*lo){
    unsigned w=hi->w+lo->w;
    if(hi->isC()&&lo->isC()) return C((hi->c<<lo->w)|lo->c,w);
    if(hi->isC()&&hi->c==0) return zext(lo,w);
    if(hi->k==E_EXTRACT&&lo->k==E_EXTRACT&&hi->a==lo->a&&hi->aux==lo->aux+lo->w) return extract(hi->a,lo->aux,w);
    if(hi->k==E_EXTRACT&&hi->a==lo&&hi->aux==lo->w) return extract(hi->a,0,w);
    // concat(extract(x), concat(extract(x) , y))
    if(lo->k==E_CONCAT){ Expr*m=lo->a; if((hi->k==E_EXTRACT&&m->k==E_EXTRACT&&hi->a==m->a&&hi->aux==m->aux+m->w)||(hi->isC()&&m->isC())) return concat(concat(hi,m),lo->b); }
    if(hi->k==E_ZEXT) return zext(concat(hi->a,lo),w);
    // canonical: right-nested with the leaf on the left
    if(hi->k==E_CONCAT) return concat(hi->a,concat(hi->b,lo));
    if(hi->k==E_ITE&&lo->k==E_ITE&&hi->a==lo->a) return ite(hi->a,concat(hi->b,lo->b),concat(hi->d,lo->d));
    if(hi->k==E_ITE&&hi->b->isC()&&hi->d->isC()&&lo->isC()) return ite(hi->a,concat(hi->b,lo),concat(hi->d,lo));
    return mk(E_CONCAT,w,0,0,hi,lo);
  }
  bool allConstLeaves(Expr*x,int depth){ if(x->isC()) return true; if(x->k!=E_ITE||depth==0) return false; return allConstLeaves(x->b,depth-1)&&allConstLeaves(x->d,depth-1); }
  // does pushing a comparison into the ITE pay (at least one leaf constant)?
  Expr* cmpIte(EKind k,Expr*x,Expr*y){
    if(x->k==E_ITE&&y->isC()&&(x->b->isC()||x->d->isC())) return ite(x->a,mk2(k,x->b,y),mk2(k,x->d,y));
    if(y->k==E_ITE&&x->isC()&&(y->b->isC()||y->d->isC())) return ite(y->a,mk2(k,x,y->b),mk2(k,x,y->d));
    return nullptr;
  }
  Expr* mk2(EKind k,Expr*x,Expr*y){
    unsigned w=x->w;
    bool cmp = k>=E_EQ&&k<=E_SLE;
    if(x->isC()&&y->isC()) return C(op2(k,x->c,y->c,w),cmp?1:w);
    bool comm = k==E_ADD||k==E_MUL||k==E_AND||k==E_OR||k==E_XOR||k==E_EQ;
    if(comm){ if(y->isC()||(!x->isC()&&y->id<x->id&&0)){ } if(x->isC()) std::swap(x,y); else if(!y->isC()&&x->id>y->id) std::swap(x,y); }
    u128 M=maskW(w);
    switch(k){
      case E_ADD:
        if(y->isC()){ if(y->c==0) return x; if(x->k==E_ADD&&x->b->isC()) return mk2(E_ADD,x->a,C(x->b->c+y->c,w));
          if(x->k==E_SUB&&x->a->isC()) return mk2(E_SUB,C(x->a->c+y->c,w),x->b);
          if(x->k==E_ITE&&x->b->isC()&&x->d->isC()) return ite(x->a,mk2(k,x->b,y),mk2(k,x->d,y)); }
        else { if(x->k==E_ADD&&x->b->isC()) return mk2(E_ADD,mk2(E_ADD,x->a,y),x->b); if(y->k==E_ADD&&y->b->isC()) return mk2(E_ADD,mk2(E_ADD,x,y->a),y->b); 
          if(x->k==E_SUB&&x->b==y) return x->a; if(y->k==E_SUB&&y->b==x) return y->a; }
        break;
      case E_SUB:
        if(x==y) return C(0,w);
        if(y->isC()){ return mk2(E_ADD,x,C((~y->c+1)&M,w)); }
        if(x->k==E_ADD){ if(x->a==y) return x->b; if(x->b==y) return x->a; if(y->k==E_ADD&&y->b->isC()&&x->b->isC()) return mk2(E_ADD,mk2(E_SUB,x->a,y->a),C(x->b->c-y->b->c,w)); 
             if(x->b->isC()) return mk2(E_ADD,mk2(E_SUB,x->a,y),x->b); }
        if(y->k==E_ADD){ if(y->a==x) return mk2(E_SUB,C(0,w),y->b); if(y->b==x) return mk2(E_SUB,C(0,w),y->a); if(y->b->isC()) return mk2(E_ADD,mk2(E_SUB,x,y->a),C((~y->b->c+1)&M,w)); }
        break;
      case E_MUL:
        if(y->isC()){ if(y->c==0) return y; if(y->c==1) return x; if((y->c&(y->c-1))==0){ unsigned s=0; while(!((y->c>>s)&1)) s++; return mk2(E_SHL,x,C(s,w)); }
          if(x->k==E_ITE&&x->b->isC()&&x->d->isC()) return ite(x->a,mk2(k,x->b,y),mk2(k,x->d,y)); }
        break;
      case E_UDIV: if(y->isC()){ if(y->c==1) return x; if(y->c&&x->umax<y->c) return C(0,w); if(y->c&&(y->c&(y->c-1))==0){ unsigned s=0; while(!((y->c>>s)&1)) s++; return mk2(E_LSHR,x,C(s,w)); }
          if(x->k==E_ZEXT&&y->c<=maskW(x->a->w)) return zext(mk2(E_UDIV,x->a,C(y->c,x->a->w)),w);
          { Expr*n=narrow(x); if(n!=x&&y->c<=maskW(n->w)) return zext(mk2(E_UDIV,n,C(y->c,n->w)),w); } } break;
      case E_UREM: if(y->isC()){ if(y->c==1) return C(0,w); if(y->c&&x->umax<y->c) return x; if(y->c&&(y->c&(y->c-1))==0) return mk2(E_AND,x,C(y->c-1,w));
          if(x->k==E_ZEXT&&y->c<=maskW(x->a->w)) return zext(mk2(E_UREM,x->a,C(y->c,x->a->w)),w);
          { Expr*n=narrow(x); if(n!=x&&y->c<=maskW(n->w)) return zext(mk2(E_UREM,n,C(y->c,n->w)),w); } } break;
      case E_SDIV: case E_SREM: if(w>1&&x->umax<((u128)1<<(w-1))&&y->umax<((u128)1<<(w-1))) return mk2(k==E_SDIV?E_UDIV:E_UREM,x,y); break;
      case E_AND:
        if(x==y) return x;
        if(y->isC()){ if(y->c==0) return y; if(y->c==M) return x; if(x->k==E_AND&&x->b->isC()) return mk2(E_AND,x->a,C(x->b->c&y->c,w));
          if(((y->c+1)&y->c)==0){ unsigned n=0; while((y->c>>n)&1) n++; if(x->umax<=y->c) return x; if(w<=64) return zext(extract(x,0,n),w); }
          if(x->k==E_ZEXT&&x->a->w<w&&(y->c&maskW(x->a->w))!=y->c) return mk2(E_AND,x,C(y->c&maskW(x->a->w),w));
          if(x->k==E_ITE&&(x->b->isC()||x->d->isC())) return ite(x->a,mk2(k,x->b,y),mk2(k,x->d,y)); }
        if(w==1&&!x->isC()&&!y->isC()&&isNotOf(x,y)) return F();
        if(w==1){ if(x->k==E_AND&&(x->a==y||x->b==y)) return x; if(y->k==E_AND&&(y->a==x||y->b==x)) return y; }
        if(x->k==E_ZEXT&&y->k==E_ZEXT&&x->a->w==y->a->w) return zext(mk2(k,x->a,y->a),w);
        break;
      case E_OR:
        if(x==y) return x;
        if(y->isC()){ if(y->c==0) return x; if(y->c==M) return y; if(x->k==E_OR&&x->b->isC()) return mk2(E_OR,x->a,C(x->b->c|y->c,w));
          if(x->k==E_ITE&&(x->b->isC()||x->d->isC())) return ite(x->a,mk2(k,x->b,y),mk2(k,x->d,y)); }
        if(w==1&&!x->isC()&&!y->isC()&&isNotOf(x,y)) return T();
        if(w==1){ if(x->k==E_OR&&(x->a==y||x->b==y)) return x; if(y->k==E_OR&&(y->a==x||y->b==x)) return y; }
        if(x->k==E_ZEXT&&y->k==E_ZEXT&&x->a->w==y->a->w) return zext(mk2(k,x->a,y->a),w);
        { Expr*r=orConcat(x,y); if(r) return r; r=orConcat(y,x); if(r) return r; }
        break;
      case E_XOR:
        if(x==y) return C(0,w);
        if(y->isC()){ if(y->c==0) return x; if(y->c==M) return notE(x); if(x->k==E_XOR&&x->b->isC()) return mk2(E_XOR,x->a,C(x->b->c^y->c,w));
          if(x->k==E_ITE&&x->b->isC()&&x->d->isC()) return ite(x->a,mk2(k,x->b,y),mk2(k,x->d,y)); }
        if(x->k==E_ZEXT&&y->k==E_ZEXT&&x->a->w==y->a->w) return zext(mk2(k,x->a,y->a),w);
        if(w==1){ if(x->k==E_NOT&&y->k==E_NOT) return mk2(E_XOR,x->a,y->a); }
        break;
      case E_SHL: if(y->isC()){ if(y->c==0) return x; if(y->c>=w) return C(0,w); return concat(extract(x,0,w-(unsigned)y->c),C(0,(unsigned)y->c)); }
        if(x->isC()&&x->c==0) return x; break;
      case E_LSHR: if(y->isC()){ if(y->c==0) return x; if(y->c>=w) return C(0,w); return zext(extract(x,(unsigned)y->c,w-(unsigned)y->c),w); }
        if(x->isC()&&x->c==0) return x; break;
      case E_ASHR: if(y->isC()){ if(y->c==0) return x; u128 s=y->c>=w?w-1:y->c; return sext(extract(x,(unsigned)s,w-(unsigned)s),w); } break;
      case E_EQ: {
        if(x==y) return T();
        if(x->umax<y->umin||y->umax<x->umin) return F();
        if(w==1){ if(y->isC()) return y->c?x:notE(x); if(isNotOf(x,y)) return F(); }
        if(y->isC()){
          switch(x->k){
            case E_ZEXT: return mk2(E_EQ,x->a,C(y->c,x->a->w));
            case E_SEXT: { Expr*t=C(y->c,x->a->w); if(C((u128)sx(t->c,t->w),w)!=y) return F(); return mk2(E_EQ,x->a,t); }
            case E_CONCAT: return mk2(E_AND,mk2(E_EQ,x->a,C(y->c>>x->b->w,x->a->w)),mk2(E_EQ,x->b,C(y->c,x->b->w)));
            case E_ADD: if(x->b->isC()) return mk2(E_EQ,x->a,C(y->c-x->b->c,w)); break;
            case E_SUB: if(x->a->isC()) return mk2(E_EQ,x->b,C(x->a->c-y->c,w)); if(y->c==0) return mk2(E_EQ,x->a,x->b); break;
            case E_XOR: if(x->b->isC()) return mk2(E_EQ,x->a,C(x->b->c^y->c,w)); if(y->c==0) return mk2(E_EQ,x->a,x->b); break;
            case E_NOT: return mk2(E_EQ,x->a,C(~y->c,w));
            case E_OR: if(y->c==0) return mk2(E_AND,mk2(E_EQ,x->a,y),mk2(E_EQ,x->b,y)); break;
            case E_ITE: { Expr*r=cmpIte(k,x,y); if(r) return r; break; }
            default: break;
          }
        } else {
          if(x->k==E_ZEXT&&y->k==E_ZEXT){ unsigned m=std::max(x->a->w,y->a->w); return mk2(E_EQ,zext(x->a,m),zext(y->a,m)); }
          if(x->k==E_SEXT&&y->k==E_SEXT&&x->a->w==y->a->w) return mk2(E_EQ,x->a,y->a);
          if(x->k==E_CONCAT&&y->k==E_CONCAT&&x->a->w==y->a->w) return mk2(E_AND,mk2(E_EQ,x->a,y->a),mk2(E_EQ,x->b,y->b));
          if(x->k==E_ITE&&y->k==E_ITE&&x->a==y->a) return ite(x->a,mk2(k,x->b,y->b),mk2(k,x->d,y->d));
          if(x->k==E_ADD&&y->k==E_ADD&&x->b==y->b) return mk2(E_EQ,x->a,y->a);
          if(x->k==E_ADD&&(x->a==y)) return mk2(E_EQ,x->b,C(0,w)); if(x->k==E_ADD&&x->b==y) return mk2(E_EQ,x->a,C(0,w));
          if(y->k==E_ADD&&(y->a==x)) return mk2(E_EQ,y->b,C(0,w)); if(y->k==E_ADD&&y->b==x) return mk2(E_EQ,y->a,C(0,w));
        }
        break; }
      case E_ULT:
        if(x==y) return F(); if(x->umax<y->umin) return T(); if(x->umin>=y->umax) return F();
        if(y->isC()){ if(y->c==0) return F(); if(y->c==1) return mk2(E_EQ,x,C(0,w)); if(y->c==M) return notE(mk2(E_EQ,x,y)); if(x->k==E_ZEXT) return mk2(E_ULT,x->a,C(y->c,x->a->w)); }
        if(x->isC()){ if(x->c==M) return F(); if(x->c==0) return notE(mk2(E_EQ,y,C(0,w))); if(x->c==M-1) return mk2(E_EQ,y,C(M,w)); if(y->k==E_ZEXT) return mk2(E_ULT,C(x->c,y->a->w),y->a); }
        if(x->k==E_ZEXT&&y->k==E_ZEXT){ unsigned m=std::max(x->a->w,y->a->w); return mk2(E_ULT,zext(x->a,m),zext(y->a,m)); }
        { Expr*r=cmpIte(k,x,y); if(r) return r; } break;
      case E_ULE:
        if(x==y) return T(); if(x->umax<=y->umin) return T(); if(x->umin>y->umax) return F();
        if(y->isC()){ if(y->c==M) return T(); return mk2(E_ULT,x,C(y->c+1,w)); }
        if(x->isC()){ if(x->c==0) return T(); return mk2(E_ULT,C(x->c-1,w),y); }
        if(x->k==E_ZEXT&&y->k==E_ZEXT){ unsigned m=std::max(x->a->w,y->a->w); return mk2(E_ULE,zext(x->a,m),zext(y->a,m)); }
        { Expr*r=cmpIte(k,x,y); if(r) return r; } break;
      case E_SLT: case E_SLE: {
        if(x==y) return k==E_SLE?T():F();
        u128 H=(u128)1<<(w-1);
        if(w>1&&x->umax<H&&y->umax<H) return mk2(k==E_SLT?E_ULT:E_ULE,x,y);
        if(w>1&&x->umin>=H&&y->umin>=H) return mk2(k==E_SLT?E_ULT:E_ULE,x,y);
        if(x->umax<H&&y->umin>=H) return F(); if(x->umin>=H&&y->umax<H) return T();
        if(x->k==E_SEXT&&y->k==E_SEXT&&x->a->w==y->a->w) return mk2(k,x->a,y->a);
        if(x->k==E_SEXT&&y->isC()){ Expr*t=C(y->c,x->a->w); if(C((u128)sx(t->c,t->w),w)==y) return mk2(k,x->a,t); return sx(y->c,w)>0?T():F(); }
        if(y->k==E_SEXT&&x->isC()){ Expr*t=C(x->c,y->a->w); if(C((u128)sx(t->c,t->w),w)==x) return mk2(k,t,y->a); return sx(x->c,w)<0?T():F(); }
        if(k==E_SLE&&y->isC()&&y->c!=H-1) return mk2(E_SLT,x,C(y->c+1,w));
        if(k==E_SLE&&x->isC()&&x->c!=H) return mk2(E_SLT,C(x->c-1,w),y);
        { Expr*r=cmpIte(k,x,y); if(r) return r; } break; }
      default: break;
    }
    return mk(k,cmp?1:w,0,0,x,y);
  }
  // x|y where y = concat(hi, 0...0) and x fits in the zero part
  Expr* orConcat(Expr*x,Expr*y){
    if(y->k==E_CONCAT){
      Expr*lo=y; // find trailing constant zeros
      std::vector<Expr*> parts; while(lo->k==E_CONCAT){ parts.push_back(lo->a); lo=lo->b; } 
      if(lo->isC()&&lo->c==0&&x->umax<=maskW(lo->w)){
        Expr*r=extract(x,0,lo->w); for(size_t i=parts.size();i--;) r=concat(parts[i],r); return r; }
    }
    if(y->k==E_ZEXT&&y->a->k==E_CONCAT&&x->umax<=maskW(y->a->w)&&y->a->w<y->w){ Expr*r=orConcat(extract(x,0,y->a->w),y->a); if(r) return zext(r,y->w); }
    return nullptr;
  }
  // reduce the width of x according to its upper bound
  Expr* narrow(Expr*x){ unsigned n=1; while(n<x->w&&(x->umax>>n)) n++; n=(n+7)/8*8; if(n>=x->w) return x; return extract(x,0,n); }
  Expr* bin(EKind k,Expr*x,Expr*y){ return mk2(k,x,y); }
  // ---- evaluation under a (total, default 0) assignment ----
  u128 evalUnder(Expr*e,const std::vector<uint64_t>&asg){
    gen++; return evalRec(e,asg);
  }
  u128 evalRec(Expr*e,const std::vector<uint64_t>&asg){
    if(e->k==E_CONST) return e->c;
    if(e->egen==gen) return e->eval;
    u128 r=0;
    switch(e->k){
      case E_SYM: r=e->aux<asg.size()?asg[e->aux]:0; r&=maskW(e->w); break;
      case E_NOT: r=~evalRec(e->a,asg)&maskW(e->w); break;
      case E_ZEXT: r=evalRec(e->a,asg); break;
      case E_SEXT: r=(u128)sx(evalRec(e->a,asg),e->a->w)&maskW(e->w); break;
      case E_EXTRACT: r=(evalRec(e->a,asg)>>e->aux)&maskW(e->w); break;
      case E_CONCAT: r=((evalRec(e->a,asg)<<e->b->w)|evalRec(e->b,asg))&maskW(e->w); break;
      case E_ITE: r=evalRec(e->a,asg)?evalRec(e->b,asg):evalRec(e->d,asg); break;
      default: { u128 x=evalRec(e->a,asg),y=evalRec(e->b,asg); r=op2(e->k,x,y,e->a->w); }
    }
    e->egen=gen; e->eval=r; return r;
  }
  std::string str(Expr*e,int depth=6){
    static const char*names[]={"c","s","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>","a>>","==","<u","<=u","<s","<=s","~","zx","sx","ex","cat","ite"};
    if(e->k==E_CONST){ char b[64]; snprintf(b,64,"%llu:%u",(unsigned long long)e->c,e->w); return b; }
    if(e->k==E_SYM) return symNames[e->aux];
    if(depth==0) return "...";
    std::string r="("+std::string(names[e->k]); if(e->k==E_EXTRACT) r+=std::to_string(e->aux)+"w"+std::to_string(e->w);
    for(Expr*c:{e->a,e->b,e->d}) if(c) r+=" "+str(c,depth-1); return r+")";
  }
};
extern ExprPool P;
