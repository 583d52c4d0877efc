#include "term.hpp"
#include <chrono>
#include <cstdio>
#include <cstdlib>
std::string Terms::str(TID t,int d) const {
  const Node&x=n[t]; if(d<0) return "..";
  auto S=[&](TID u){return str(u,d-1);};
  static const char* nm[]={"none","const","var","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","zext","sext","extract","concat","ite","==","<u","<=u","<s","<=s","!","rconst","rvar","+","-","*","/","neg","uf","==","<","<=","i2r","rite"};
  switch(x.op){ case T_BCONST: return std::to_string(sx(x.c,x.w)); case T_BVAR: case T_RVAR: return names[x.c];
    case T_RCONST: { const mpq_class&q=rpool[x.c]; if(q.get_den()==1) return q.get_str(); char b[64]; snprintf(b,64,"%.17g",q.get_d()); return b; }
    case T_NOT: return "!("+S(x.a)+")"; case T_RNEG: return "-("+S(x.a)+")";
    case T_RUF: return names[x.c]+"("+S(x.a)+(x.b?","+S(x.b):"")+")";
    case T_ITE: case T_RITE: return "ite("+S((TID)x.c)+","+S(x.a)+","+S(x.b)+")";
    case T_ZEXT: case T_SEXT: case T_I2R: return std::string(nm[x.op])+"("+S(x.a)+")";
    case T_EXTRACT: return "extract("+S(x.a)+","+std::to_string(x.c)+")";
    default: return "("+S(x.a)+" "+nm[x.op]+" "+S(x.b)+")"; } }

const Poly& Polys::of(TID t){
  auto it=memo.find(t); if(it!=memo.end()) return it->second;
  const Node x=T.n[t]; Poly r;
  switch(x.op){
    case T_RCONST: if(T.rval(t)!=0) r[Mono{}]=T.rval(t); break;
    case T_RVAR: r[Mono{{atom(T.names[x.c],t),1}}]=1; break;
    case T_RADD: r=of(x.a); addTo(r,of(x.b),1); break;
    case T_RSUB: r=of(x.a); addTo(r,of(x.b),-1); break;
    case T_RNEG: addTo(r,of(x.a),-1); break;
    case T_RMUL: { Poly a=of(x.a); r=mul(a,of(x.b)); break; }
    case T_RDIV: { Poly a=of(x.a); const Poly& b=of(x.b); if(b.empty()){ r[Mono{{atom("divzero("+str(a)+")",0),1}}]=1; } else r=mul(a,inverse(b)); break; }
    case T_RUF: { std::string k=T.names[x.c]+"("+str(of(x.a))+(x.b?","+str(of(x.b)):std::string())+")"; r[Mono{{atom(k,t),1}}]=1; break; }
    case T_I2R: r[Mono{{atom("i2r#"+std::to_string(x.a),t),1}}]=1; break;
    case T_RITE: r[Mono{{atom("ite#"+std::to_string(t),t),1}}]=1; break;
    default: fprintf(stderr,"efsym: poly of non-real term\n"); abort(); }
  return memo.emplace(t,std::move(r)).first->second; }

static void errh(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _Exit(99); }
Z::Z(Terms&t,Polys&p):T(t),P(p){
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); c=Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(c,errh);
  s=Z3_mk_simple_solver(c); Z3_solver_inc_ref(c,s);
  Z3_params pr=Z3_mk_params(c); Z3_params_inc_ref(c,pr); Z3_params_set_uint(c,pr,Z3_mk_string_symbol(c,"rlimit"),rl); Z3_solver_set_params(c,s,pr);
  realS=Z3_mk_real_sort(c); boolS=Z3_mk_bool_sort(c); keep((Z3_ast)realS); keep((Z3_ast)boolS); }
Z3_ast Z::rnum(const mpq_class&q){ return keep(Z3_mk_numeral(c,q.get_str().c_str(),realS)); }
Z3_ast Z::atomVar(uint32_t a){ auto it=avar.find(a); if(it!=avar.end()) return it->second;
  TID t=P.atomTerm[a]; Z3_ast v;
  if(t&&T.n[t].op==T_I2R){ v=keep(Z3_mk_int2real(c,keep(Z3_mk_bv2int(c,tr(T.n[t].a),true)))); }
  else v=keep(Z3_mk_const(c,Z3_mk_string_symbol(c,("a!"+P.atomName[a].substr(0,200)+"#"+std::to_string(a)).c_str()),realS));
  avar[a]=v;
  return v; }
void Z::ensureDef(uint32_t a){ if(!defined.insert(a).second) return; TID t=P.atomTerm[a]; Z3_ast v=atomVar(a);
  auto iv=P.invOf.find(a); if(iv!=P.invOf.end()){ Z3_ast pr[2]={v,polyNL(iv->second)}; Z3_ast m=keep(Z3_mk_mul(c,2,pr)); add(Z3_mk_eq(c,m,rnum(1))); }
  if(t&&T.n[t].op==T_RUF){ std::string f=T.names[T.n[t].c];
    Z3_ast z=rnum(0);
    if(f=="sqrt"){ Z3_ast pr[2]={v,v}; add(Z3_mk_ge(c,v,z)); add(Z3_mk_eq(c,keep(Z3_mk_mul(c,2,pr)),polyNL(P.of(T.n[t].a)))); }
    if(f=="exp") add(Z3_mk_gt(c,v,z)); }
  }
Z3_ast Z::polyNL(const Poly&p){ std::vector<Z3_ast> sum; for(auto&m:p){ std::vector<Z3_ast> f{rnum(m.second)}; Z3_ast den=nullptr; 
    for(auto&x:m.first){ Z3_ast v=atomVar(x.first); ensureDef(x.first); int e=x.second; if(e<0){ // 1/v : fresh inverse variable
        std::string k="inv!"+std::to_string(x.first); auto it=mvar.find(k); Z3_ast iv; if(it!=mvar.end()) iv=it->second; else { iv=keep(Z3_mk_const(c,Z3_mk_string_symbol(c,k.c_str()),realS)); mvar[k]=iv; Z3_ast pr[2]={iv,v}; add(Z3_mk_eq(c,keep(Z3_mk_mul(c,2,pr)),rnum(1))); }
        v=iv; e=-e; }
      for(int i=0;i<e;i++) f.push_back(v);} (void)den;
    sum.push_back(f.size()==1?f[0]:keep(Z3_mk_mul(c,f.size(),f.data()))); }
  if(sum.empty()) return rnum(0); return sum.size()==1?sum[0]:keep(Z3_mk_add(c,sum.size(),sum.data())); }
Z3_ast Z::polyLin(const Poly&p){ std::vector<Z3_ast> sum; for(auto&m:p){ Z3_ast v; if(m.first.empty()) { sum.push_back(rnum(m.second)); continue; }
    if(m.first.size()==1&&m.first[0].second==1) v=atomVar(m.first[0].first);
    else { std::string k="m!"+P.mstr(m.first); auto it=mvar.find(k); if(it!=mvar.end()) v=it->second; else { v=keep(Z3_mk_const(c,Z3_mk_string_symbol(c,("m!"+std::to_string(mvar.size())).c_str()),realS)); mvar[k]=v; } }
    Z3_ast f[2]={rnum(m.second),v}; sum.push_back(m.second==1?v:keep(Z3_mk_mul(c,2,f))); }
  if(sum.empty()) return rnum(0); return sum.size()==1?sum[0]:keep(Z3_mk_add(c,sum.size(),sum.data())); }
Z3_ast Z::trBool(TID t){ const Node x=T.n[t];
  switch(x.op){ case T_BCONST: return x.c?Z3_mk_true(c):Z3_mk_false(c);
    case T_EQ: case T_ULT: case T_ULE: case T_SLT: case T_SLE: case T_NOT: case T_REQ: case T_RLT: case T_RLE: break;
    case T_AND: if(x.w==1){ Z3_ast a[2]={trBool(x.a),trBool(x.b)}; return keep(Z3_mk_and(c,2,a)); } break;
    case T_OR: if(x.w==1){ Z3_ast a[2]={trBool(x.a),trBool(x.b)}; return keep(Z3_mk_or(c,2,a)); } break;
    case T_XOR: if(x.w==1) return keep(Z3_mk_xor(c,trBool(x.a),trBool(x.b))); break;
    default: break; }
  if(x.op==T_EQ) return keep(Z3_mk_eq(c,tr(x.a),tr(x.b)));
  if(x.op==T_ULT) return keep(Z3_mk_bvult(c,tr(x.a),tr(x.b)));
  if(x.op==T_ULE) return keep(Z3_mk_bvule(c,tr(x.a),tr(x.b)));
  if(x.op==T_SLT) return keep(Z3_mk_bvslt(c,tr(x.a),tr(x.b)));
  if(x.op==T_SLE) return keep(Z3_mk_bvsle(c,tr(x.a),tr(x.b)));
  if(x.op==T_NOT) return keep(Z3_mk_not(c,trBool(x.a)));
  if(x.op==T_REQ||x.op==T_RLT||x.op==T_RLE){ Poly d=P.of(x.a); Polys::addTo(d,P.of(x.b),-1); Z3_ast e=polyNL(d),z=rnum(0);
    return keep(x.op==T_REQ?Z3_mk_eq(c,e,z):x.op==T_RLT?Z3_mk_lt(c,e,z):Z3_mk_le(c,e,z)); }
  Z3_ast one=keep(Z3_mk_unsigned_int64(c,1,Z3_mk_bv_sort(c,1))); return keep(Z3_mk_eq(c,tr(t),one)); }
Z3_ast Z::tr(TID t){ auto it=cache.find(t); if(it!=cache.end()) return it->second; const Node x=T.n[t]; Z3_ast r=nullptr; unsigned w=x.w;
  auto A=[&]{return tr(x.a);}; auto B=[&]{return tr(x.b);};
  switch(x.op){
    case T_BCONST: r=Z3_mk_unsigned_int64(c,x.c,Z3_mk_bv_sort(c,w)); break;
    case T_BVAR: r=Z3_mk_const(c,Z3_mk_string_symbol(c,("v!"+T.names[x.c]).c_str()),Z3_mk_bv_sort(c,w)); break;
    case T_ADD: r=Z3_mk_bvadd(c,A(),B()); break; case T_SUB: r=Z3_mk_bvsub(c,A(),B()); break; case T_MUL: r=Z3_mk_bvmul(c,A(),B()); break;
    case T_UDIV: r=Z3_mk_bvudiv(c,A(),B()); break; case T_SDIV: r=Z3_mk_bvsdiv(c,A(),B()); break; case T_UREM: r=Z3_mk_bvurem(c,A(),B()); break; case T_SREM: r=Z3_mk_bvsrem(c,A(),B()); break;
    case T_AND: r=Z3_mk_bvand(c,A(),B()); break; case T_OR: r=Z3_mk_bvor(c,A(),B()); break; case T_XOR: r=Z3_mk_bvxor(c,A(),B()); break;
    case T_SHL: r=Z3_mk_bvshl(c,A(),B()); break; case T_LSHR: r=Z3_mk_bvlshr(c,A(),B()); break; case T_ASHR: r=Z3_mk_bvashr(c,A(),B()); break;
    case T_ZEXT: r=Z3_mk_zero_ext(c,w-T.n[x.a].w,A()); break; case T_SEXT: r=Z3_mk_sign_ext(c,w-T.n[x.a].w,A()); break;
    case T_EXTRACT: r=Z3_mk_extract(c,x.c+w-1,x.c,A()); break; case T_CONCAT: r=Z3_mk_concat(c,A(),B()); break;
    case T_ITE: r=Z3_mk_ite(c,trBool((TID)x.c),A(),B()); break;
    default: if(w==1){ Z3_sort b1=Z3_mk_bv_sort(c,1); r=Z3_mk_ite(c,trBool(t),keep(Z3_mk_unsigned_int64(c,1,b1)),keep(Z3_mk_unsigned_int64(c,0,b1))); break; }
      fprintf(stderr,"efsym: tr of unsupported term op %d\n",x.op); abort(); }
  keep(r); cache[t]=r; return r; }
int Z::check(const std::vector<Z3_ast>& as){ auto t0=std::chrono::steady_clock::now(); Z3_lbool r=Z3_solver_check_assumptions(c,s,as.size(),as.data());
  secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); queries++; return r==Z3_L_TRUE?1:r==Z3_L_FALSE?-1:0; }
