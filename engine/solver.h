// z3-backed decision procedure with independence slicing, caching and model reuse.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>

typedef std::vector<uint64_t> Model; // by symbol index (symbols are at most 64 bits wide)

struct SolverStats { uint64_t queries=0, z3calls=0, cacheHits=0, domainHits=0, sat=0, unsat=0, unknown=0; double z3time=0, maxz3=0; uint64_t checkQueries=0, checkZ3=0, checkTrivial=0; };

inline std::string xstr(Expr*e,int d){ if(!e) return ""; if(e->k==E_CONST) return std::to_string((uint64_t)e->c); if(e->k==E_SYM) return "s"+std::to_string(e->aux); if(d<=0) return "#"+std::to_string(e->id); std::string r="("+std::to_string(e->k)+":"+std::to_string(e->w); for(Expr*x:{e->a,e->b,e->d}) if(x) r+=" "+xstr(x,d-1); return r+")"; }
struct Solver {
  Z3_context ctx; SolverStats st; unsigned timeoutMs=60000;
  struct VecHash{ size_t operator()(const std::vector<uint32_t>&v) const { uint64_t h=v.size(); for(auto x:v) h=ExprPool::mix(h,x); return h; } };
  struct CacheEnt { int res; std::vector<std::pair<uint32_t,uint64_t>> model; };
  std::unordered_map<std::vector<uint32_t>,CacheEnt,VecHash> cache;
  Solver(){ Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); abort(); }); }
  Z3_ast keep(Z3_ast a){ Z3_inc_ref(ctx,a); return a; }
  Z3_sort bv(unsigned w){ return Z3_mk_bv_sort(ctx,w); }
  Z3_ast num(u128 v,unsigned w){
    if(w<=64) return Z3_mk_unsigned_int64(ctx,(uint64_t)v,bv(w));
    return Z3_mk_concat(ctx,Z3_mk_unsigned_int64(ctx,(uint64_t)(v>>64),bv(w-64)),Z3_mk_unsigned_int64(ctx,(uint64_t)v,bv(64)));
  }
  Z3_ast b2v(Z3_ast b){ return Z3_mk_ite(ctx,b,num(1,1),num(0,1)); }
  Z3_ast asBool(Expr*e){ // width 1
    Z3_ast t=tr(e);
    return Z3_mk_eq(ctx,t,num(1,1));
  }
  std::unordered_map<Expr*,Z3_ast> boolMemo;
  Z3_ast trBool(Expr*e){
    auto it=boolMemo.find(e); if(it!=boolMemo.end()) return it->second;
    Z3_ast r;
    switch(e->k){
      case E_CONST: r=e->c?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
      case E_NOT: r=Z3_mk_not(ctx,trBool(e->a)); break;
      case E_AND: { Z3_ast x[2]={trBool(e->a),trBool(e->b)}; r=Z3_mk_and(ctx,2,x); break; }
      case E_OR: { Z3_ast x[2]={trBool(e->a),trBool(e->b)}; r=Z3_mk_or(ctx,2,x); break; }
      case E_XOR: r=Z3_mk_xor(ctx,trBool(e->a),trBool(e->b)); break;
      case E_ITE: r=Z3_mk_ite(ctx,trBool(e->a),trBool(e->b),trBool(e->d)); break;
      case E_EQ: if(e->a->w==1) r=Z3_mk_iff(ctx,trBool(e->a),trBool(e->b)); else r=Z3_mk_eq(ctx,tr(e->a),tr(e->b)); break;
      case E_ULT: r=Z3_mk_bvult(ctx,tr(e->a),tr(e->b)); break;
      case E_ULE: r=Z3_mk_bvule(ctx,tr(e->a),tr(e->b)); break;
      case E_SLT: r=Z3_mk_bvslt(ctx,tr(e->a),tr(e->b)); break;
      case E_SLE: r=Z3_mk_bvsle(ctx,tr(e->a),tr(e->b)); break;
      default: r=asBool(e);
    }
    keep(r); boolMemo[e]=r; return r;
  }
  Z3_ast tr(Expr*e){
    if(e->z3) return (Z3_ast)e->z3;
    Z3_ast r;
    switch(e->k){
      case E_CONST: r=num(e->c,e->w); break;
      case E_SYM: { std::string n="s"+std::to_string(e->aux); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n.c_str()),bv(e->w)); break; }
      case E_ADD: r=Z3_mk_bvadd(ctx,tr(e->a),tr(e->b)); break;
      case E_SUB: r=Z3_mk_bvsub(ctx,tr(e->a),tr(e->b)); break;
      case E_MUL: r=Z3_mk_bvmul(ctx,tr(e->a),tr(e->b)); break;
      case E_UDIV: r=Z3_mk_bvudiv(ctx,tr(e->a),tr(e->b)); break;
      case E_SDIV: r=Z3_mk_bvsdiv(ctx,tr(e->a),tr(e->b)); break;
      case E_UREM: r=Z3_mk_bvurem(ctx,tr(e->a),tr(e->b)); break;
      case E_SREM: r=Z3_mk_bvsrem(ctx,tr(e->a),tr(e->b)); break;
      case E_AND: if(e->w==1){ r=b2v(trBool(e)); break; } r=Z3_mk_bvand(ctx,tr(e->a),tr(e->b)); break;
      case E_OR: if(e->w==1){ r=b2v(trBool(e)); break; } r=Z3_mk_bvor(ctx,tr(e->a),tr(e->b)); break;
      case E_XOR: if(e->w==1){ r=b2v(trBool(e)); break; } r=Z3_mk_bvxor(ctx,tr(e->a),tr(e->b)); break;
      case E_SHL: r=Z3_mk_bvshl(ctx,tr(e->a),tr(e->b)); break;
      case E_LSHR: r=Z3_mk_bvlshr(ctx,tr(e->a),tr(e->b)); break;
      case E_ASHR: r=Z3_mk_bvashr(ctx,tr(e->a),tr(e->b)); break;
      case E_NOT: if(e->w==1){ r=b2v(trBool(e)); break; } r=Z3_mk_bvnot(ctx,tr(e->a)); break;
      case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r=b2v(trBool(e)); break;
      case E_ZEXT: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,tr(e->a)); break;
      case E_SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,tr(e->a)); break;
      case E_EXTRACT: r=Z3_mk_extract(ctx,e->aux+e->w-1,e->aux,tr(e->a)); break;
      case E_CONCAT: r=Z3_mk_concat(ctx,tr(e->a),tr(e->b)); break;
      case E_ITE: r=Z3_mk_ite(ctx,trBool(e->a),tr(e->b),tr(e->d)); break;
      default: abort();
    }
    keep(r); e->z3=r; return r;
  }
  Z3_solver zs=nullptr; unsigned zsUses=0;
  // returns 1 sat, 0 unsat, -1 unknown.  Constraints are width-1 expressions.
  int callZ3(const std::vector<Expr*>&cs, const std::vector<uint32_t>&syms, std::vector<std::pair<uint32_t,uint64_t>>&model){
    auto t0=std::chrono::steady_clock::now();
    st.z3calls++;
    Z3_solver s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV"));
    Z3_solver_inc_ref(ctx,s);
    Z3_params ps=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,ps);
    Z3_params_set_uint(ctx,ps,Z3_mk_string_symbol(ctx,"timeout"),timeoutMs);
    Z3_solver_set_params(ctx,s,ps); Z3_params_dec_ref(ctx,ps);
    for(Expr*c:cs) Z3_solver_assert(ctx,s,trBool(c));
    Z3_lbool r=Z3_solver_check(ctx,s);
    int res=-1;
    if(r==Z3_L_FALSE) res=0;
    else if(r==Z3_L_TRUE){
      res=1;
      Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
      for(uint32_t i:syms){
        Z3_ast v; uint64_t val=0;
        if(Z3_model_eval(ctx,m,tr(P.symExprs[i]),true,&v)){ Z3_inc_ref(ctx,v); Z3_get_numeral_uint64(ctx,v,&val); Z3_dec_ref(ctx,v); }
        model.emplace_back(i,val);
      }
      Z3_model_dec_ref(ctx,m);
    }
    Z3_solver_dec_ref(ctx,s);
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    st.z3time+=dt; if(dt>st.maxz3) st.maxz3=dt;
    if(res==1) st.sat++; else if(res==0) st.unsat++; else st.unknown++;
    return res;
  }
  // unary 8-bit domains: bitset of values of symbol satisfying e
  struct Dom{ uint64_t b[4]; };
  std::unordered_map<Expr*,Dom> domMemo;
  std::vector<uint64_t> tmpAsg;
  Dom& domOf(Expr*e,uint32_t s){
    auto it=domMemo.find(e); if(it!=domMemo.end()) return it->second;
    Dom d; memset(&d,0,sizeof d);
    if(tmpAsg.size()<=s) tmpAsg.resize(s+1,0);
    uint64_t old=tmpAsg[s];
    for(unsigned v=0;v<256;v++){ tmpAsg[s]=v; if(P.evalUnder(e,tmpAsg)) d.b[v>>6]|=1ull<<(v&63); }
    tmpAsg[s]=old;
    return domMemo[e]=d;
  }
  // Is (constraints && cond) satisfiable?  `constraints` is known to be satisfied by `base`.
  // On sat, `out` = base overlaid with a model.
  int check(const std::vector<Expr*>&constraints, Expr*cond, const Model&base, Model*out){
    st.queries++;
    if(cond->isC()){ if(cond->c&&out) *out=base; return cond->c?1:0; }
    if(P.evalUnder(cond,base)){ if(out) *out=base; return 1; }
    // independence slicing
    std::vector<char> in(P.symNames.size(),0); 
    const auto*cs=P.symsOf(cond); for(uint32_t s:*cs) in[s]=1;
    std::vector<char> used(constraints.size(),0); std::vector<Expr*> rel; bool ch=true;
    while(ch){ ch=false;
      for(size_t i=constraints.size();i--;) if(!used[i]){
        const auto*ss=P.symsOf(constraints[i]); bool hit=false; for(uint32_t s:*ss) if(in[s]){ hit=true; break; }
        if(hit){ used[i]=1; rel.push_back(constraints[i]); for(uint32_t s:*ss) if(!in[s]){ in[s]=1; ch=true; } }
      } }
    rel.push_back(cond);
    std::vector<uint32_t> syms; for(size_t i=0;i<in.size();i++) if(in[i]) syms.push_back(i);
    if(syms.size()==1&&P.symWidths[syms[0]]==8){
      Dom d; memset(&d,0xff,sizeof d);
      for(Expr*e:rel){ Dom&x=domOf(e,syms[0]); for(int i=0;i<4;i++) d.b[i]&=x.b[i]; }
      st.domainHits++;
      for(int i=0;i<4;i++) if(d.b[i]){ if(out){ *out=base; if(out->size()<=syms[0]) out->resize(syms[0]+1,0); (*out)[syms[0]]=i*64+__builtin_ctzll(d.b[i]); } return 1; }
      return 0;
    }
    std::vector<uint32_t> key; for(Expr*e:rel) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
    auto it=cache.find(key);
    if(it!=cache.end()) st.cacheHits++;
    else { CacheEnt ce; ce.res=callZ3(rel,syms,ce.model); it=cache.emplace(std::move(key),std::move(ce)).first; }
    if(it->second.res==1&&out){ *out=base; for(auto&p:it->second.model){ if(out->size()<=p.first) out->resize(p.first+1,0); (*out)[p.first]=p.second; } }
    return it->second.res;
  }
  // Validity of `cond` under all constraints, always decided by z3 unless the formula is literally constant.
  int checkAssert(const std::vector<Expr*>&constraints, Expr*cond, const Model&base, Model*out){
    st.checkQueries++;
    if(cond->isC()){ st.checkTrivial++; if(!cond->c&&out) *out=base; return cond->c?0:1; }
    Expr*neg=P.notE(cond);
    if(P.evalUnder(neg,base)){ if(out)*out=base; return 1; }
    uint64_t z=st.z3calls; int r;
    // unary domain answers are re-decided by z3 here
    std::vector<char> in(P.symNames.size(),0); const auto*cs=P.symsOf(neg); for(uint32_t s:*cs) in[s]=1;
    if(cs->size()==1&&P.symWidths[(*cs)[0]]==8){
      std::vector<Expr*> rel; for(Expr*e:constraints){ const auto*ss=P.symsOf(e); for(uint32_t s:*ss) if(in[s]){ rel.push_back(e); break; } }
      bool unary=true; for(Expr*e:rel) if(P.symsOf(e)->size()!=1) unary=false;
      if(unary){ rel.push_back(neg); std::vector<uint32_t> key; for(Expr*e:rel) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
        auto it=cache.find(key); if(it==cache.end()){ CacheEnt ce; ce.res=callZ3(rel,*cs,ce.model); it=cache.emplace(key,std::move(ce)).first; } else st.cacheHits++;
        if(it->second.res==1&&out){ *out=base; for(auto&p:it->second.model){ if(out->size()<=p.first) out->resize(p.first+1,0); (*out)[p.first]=p.second; } }
        if(st.z3calls!=z) st.checkZ3++;
        return it->second.res; }
    }
    r=check(constraints,neg,base,out);
    if(st.z3calls!=z) st.checkZ3++;
    return r;
  }
};
