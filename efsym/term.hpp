// Terms: hash-consed bit-vector / real expression DAG, polynomial normal form, z3 translation.
#pragma once
#include <set>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <gmpxx.h>
#include <z3.h>

typedef uint32_t TID; // 0 = none

enum Op : uint8_t {
  T_NONE, T_BCONST, T_BVAR,
  T_ADD, T_SUB, T_MUL, T_UDIV, T_SDIV, T_UREM, T_SREM, T_AND, T_OR, T_XOR, T_SHL, T_LSHR, T_ASHR,
  T_ZEXT, T_SEXT, T_EXTRACT /*c=low bit*/, T_CONCAT /*a high, b low*/, T_ITE,
  T_EQ, T_ULT, T_ULE, T_SLT, T_SLE, T_NOT,
  T_RCONST, T_RVAR, T_RADD, T_RSUB, T_RMUL, T_RDIV, T_RNEG, T_RUF, T_REQ, T_RLT, T_RLE,
  T_I2R /*signed bv -> real*/, T_RITE
};

struct Node {
  Op op; uint8_t w; // w = width (bv), 0 for real
  TID a, b; uint64_t c; // c: const value / extract low / name index / third operand
  bool operator==(const Node& o) const { return op==o.op && w==o.w && a==o.a && b==o.b && c==o.c; }
};
struct NodeHash { size_t operator()(const Node& n) const {
  uint64_t h = n.op*0x9E3779B97F4A7C15ull + n.w; h ^= (h>>29); h = h*0xBF58476D1CE4E5B9ull + n.a; h ^= (h>>31);
  h = h*0x94D049BB133111EBull + n.b; h ^= h>>30; h = h*0x9E3779B97F4A7C15ull + n.c; return h ^ (h>>32); } };

struct Terms {
  std::vector<Node> n; std::unordered_map<Node,TID,NodeHash> ht;
  std::vector<mpq_class> rpool; std::map<mpq_class,uint32_t> rmap;
  std::vector<std::string> names; std::unordered_map<std::string,uint32_t> nameIdx;
  Terms() { n.push_back({T_NONE,0,0,0,0}); }
  uint32_t name(const std::string& s) { auto it=nameIdx.find(s); if(it!=nameIdx.end()) return it->second;
    uint32_t i=names.size(); names.push_back(s); nameIdx[s]=i; return i; }
  TID mk(Op op,uint8_t w,TID a=0,TID b=0,uint64_t c=0) {
    Node k{op,w,a,b,c}; auto it=ht.find(k); if(it!=ht.end()) return it->second;
    TID id=n.size(); n.push_back(k); ht.emplace(k,id); return id; }
  static uint64_t mask(unsigned w) { return w>=64? ~0ull : ((1ull<<w)-1); }
  static int64_t sx(uint64_t v,unsigned w) { if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=mask(w); return (int64_t)((v^m)-m); }
  TID bconst(unsigned w,uint64_t v) { return mk(T_BCONST,w,0,0,v&mask(w)); }
  bool isC(TID t) const { return n[t].op==T_BCONST; }
  bool isR(TID t) const { return n[t].w==0; }
  TID rconst(const mpq_class& q) { auto it=rmap.find(q); uint32_t i; if(it!=rmap.end()) i=it->second; else { i=rpool.size(); rpool.push_back(q); rmap[q]=i; }
    return mk(T_RCONST,0,0,0,i); }
  const mpq_class& rval(TID t) const { return rpool[n[t].c]; }
  bool isRC(TID t) const { return n[t].op==T_RCONST; }
  TID rvar(const std::string& s){ return mk(T_RVAR,0,0,0,name(s)); }
  TID bvar(const std::string& s,unsigned w){ return mk(T_BVAR,w,0,0,name(s)); }

  TID bin(Op op, unsigned w, TID a, TID b) {
    if (isC(a)&&isC(b)) { uint64_t x=n[a].c,y=n[b].c,r=0; bool ok=true; int64_t sxx=sx(x,w),syy=sx(y,w);
      switch(op){case T_ADD:r=x+y;break;case T_SUB:r=x-y;break;case T_MUL:r=x*y;break;
        case T_UDIV:if(!y)ok=false;else r=x/y;break;case T_UREM:if(!y)ok=false;else r=x%y;break;
        case T_SDIV:if(!syy||(syy==-1))ok=false;else r=sxx/syy;break;case T_SREM:if(!syy||syy==-1)ok=false;else r=sxx%syy;break;
        case T_AND:r=x&y;break;case T_OR:r=x|y;break;case T_XOR:r=x^y;break;
        case T_SHL:r=y>=w?0:x<<y;break;case T_LSHR:r=y>=w?0:x>>y;break;case T_ASHR:r=sxx>>(y>=w?63:y);break;default:ok=false;}
      if(ok) return bconst(w,r); }
    bool ca=isC(a),cb=isC(b); uint64_t va=ca?n[a].c:0,vb=cb?n[b].c:0;
    switch(op){
      case T_ADD: if(ca&&!va) return b; if(cb&&!vb) return a; if(ca){std::swap(a,b);std::swap(ca,cb);std::swap(va,vb);}
        if(cb && n[a].op==T_ADD && isC(n[a].b)) return bin(T_ADD,w,n[a].a,bconst(w,n[n[a].b].c+vb)); break;
      case T_SUB: if(cb) return bin(T_ADD,w,a,bconst(w,0-vb)); if(a==b) return bconst(w,0); break;
      case T_MUL: if((ca&&!va)||(cb&&!vb)) return bconst(w,0); if(ca&&va==1) return b; if(cb&&vb==1) return a; if(ca) std::swap(a,b); break;
      case T_AND: if((ca&&!va)||(cb&&!vb)) return bconst(w,0); if(ca&&va==mask(w)) return b; if(cb&&vb==mask(w)) return a; if(a==b) return a; break;
      case T_OR: if(ca&&!va) return b; if(cb&&!vb) return a; if(a==b) return a; break;
      case T_XOR: if(ca&&!va) return b; if(cb&&!vb) return a; if(a==b) return bconst(w,0); if(w==1&&cb&&vb) return lnot(a); if(w==1&&ca&&va) return lnot(b); break;
      case T_SHL: case T_LSHR: case T_ASHR: if(cb&&!vb) return a; break;
      default: break; }
    return mk(op,w,a,b); }
  TID lnot(TID a){ if(isC(a)) return bconst(1,!n[a].c); if(n[a].op==T_NOT) return n[a].a; return mk(T_NOT,1,a); }
  TID zext(TID a,unsigned w){ unsigned aw=n[a].w; if(aw==w) return a; if(isC(a)) return bconst(w,n[a].c); if(n[a].op==T_ZEXT) return zext(n[a].a,w); return mk(T_ZEXT,w,a); }
  TID sext(TID a,unsigned w){ unsigned aw=n[a].w; if(aw==w) return a; if(isC(a)) return bconst(w,sx(n[a].c,aw)); return mk(T_SEXT,w,a); }
  TID extract(TID a,unsigned lo,unsigned w){ unsigned aw=n[a].w; if(lo==0&&w==aw) return a; if(isC(a)) return bconst(w,n[a].c>>lo);
    const Node& x=n[a];
    if((x.op==T_ZEXT||x.op==T_SEXT)){ unsigned iw=n[x.a].w; if(lo+w<=iw) return extract(x.a,lo,w); if(x.op==T_ZEXT&&lo>=iw) return bconst(w,0); if(lo==0&&w>iw) return x.op==T_ZEXT?zext(x.a,w):sext(x.a,w);}    
    if(x.op==T_EXTRACT) return extract(x.a,x.c+lo,w);
    if(x.op==T_CONCAT){ unsigned bw=n[x.b].w; if(lo+w<=bw) return extract(x.b,lo,w); if(lo>=bw) return extract(x.a,lo-bw,w);}    
    return mk(T_EXTRACT,w,a,0,lo); }
  TID concat(TID hi,TID lo){ unsigned w=n[hi].w+n[lo].w; if(isC(hi)&&isC(lo)) return bconst(w,(n[hi].c<<n[lo].w)|n[lo].c);
    if(isC(hi)&&n[hi].c==0) return zext(lo,w);
    if(n[hi].op==T_EXTRACT&&n[lo].op==T_EXTRACT&&n[hi].a==n[lo].a&&n[hi].c==n[lo].c+n[lo].w) return extract(n[hi].a,n[lo].c,w);
    return mk(T_CONCAT,w,hi,lo); }
  TID ite(TID c,TID a,TID b){ if(isC(c)) return n[c].c?a:b; if(a==b) return a; if(n[a].w==1&&isC(a)&&isC(b)) return n[a].c? c: lnot(c);
    return mk(T_ITE,n[a].w,a,b,c); }
  TID cmp(Op op,TID a,TID b){ unsigned w=n[a].w; if(isC(a)&&isC(b)){ uint64_t x=n[a].c,y=n[b].c; bool r=false; switch(op){case T_EQ:r=x==y;break;case T_ULT:r=x<y;break;case T_ULE:r=x<=y;break;case T_SLT:r=sx(x,w)<sx(y,w);break;case T_SLE:r=sx(x,w)<=sx(y,w);break;default:break;} return bconst(1,r);}    
    if(a==b) return bconst(1,op==T_EQ||op==T_ULE||op==T_SLE);
    if(op==T_EQ){ if(isC(a)) std::swap(a,b); if(w==1&&isC(b)) return n[b].c? a: lnot(a);
      if(isC(b)&&n[a].op==T_ZEXT){ unsigned iw=n[n[a].a].w; if(n[b].c>mask(iw)) return bconst(1,0); return cmp(T_EQ,n[a].a,bconst(iw,n[b].c)); } 
      if(isC(b)&&n[a].op==T_ITE&&isC(n[a].a)&&isC(n[a].b)){ bool t=n[n[a].a].c==n[b].c,f=n[n[a].b].c==n[b].c; if(t&&f) return bconst(1,1); if(!t&&!f) return bconst(1,0); return t? (TID)n[a].c : lnot((TID)n[a].c);} }
    return mk(op,1,a,b); }
  // reals
  TID rbin(Op op,TID a,TID b){ bool ca=isRC(a),cb=isRC(b);
    if(ca&&cb){ mpq_class x=rval(a),y=rval(b); switch(op){case T_RADD:return rconst(x+y);case T_RSUB:return rconst(x-y);case T_RMUL:return rconst(x*y);case T_RDIV:if(y!=0) return rconst(x/y);break;default:break;} }
    switch(op){
      case T_RADD: if(ca&&rval(a)==0) return b; if(cb&&rval(b)==0) return a; break;
      case T_RSUB: if(cb&&rval(b)==0) return a; if(ca&&rval(a)==0) return rneg(b); if(a==b) return rconst(0); break;
      case T_RMUL: if((ca&&rval(a)==0)||(cb&&rval(b)==0)) return rconst(0); if(ca&&rval(a)==1) return b; if(cb&&rval(b)==1) return a; if(ca&&rval(a)==-1) return rneg(b); if(cb&&rval(b)==-1) return rneg(a); break;
      case T_RDIV: if(cb&&rval(b)==1) return a; if(cb&&rval(b)==-1) return rneg(a); if(ca&&rval(a)==0&&!cb) return a; break;
      default: break; }
    if((op==T_RADD||op==T_RMUL)&&b<a) std::swap(a,b);
    return mk(op,0,a,b); }
  TID rneg(TID a){ if(isRC(a)) return rconst(-rval(a)); if(n[a].op==T_RNEG) return n[a].a; return mk(T_RNEG,0,a); }
  TID rcmp(Op op,TID a,TID b){ if(isRC(a)&&isRC(b)){ int c=cmp3(rval(a),rval(b)); return bconst(1, op==T_REQ?c==0: op==T_RLT?c<0:c<=0);} if(a==b) return bconst(1,op!=T_RLT); return mk(op,1,a,b); }
  static int cmp3(const mpq_class&a,const mpq_class&b){ return ::cmp(a,b); }
  std::string str(TID t,int depth=6) const;
};

// ---- polynomials (Laurent) over atoms --------------------------------------------------------
typedef std::vector<std::pair<uint32_t,int>> Mono; // sorted (atom, exp)
typedef std::map<Mono,mpq_class> Poly;

struct Polys {
  Terms& T;
  std::vector<std::string> atomName; std::unordered_map<std::string,uint32_t> atomIdx;
  std::vector<TID> atomTerm;     // RVAR/I2R/RUF atoms: term; 0 for inverse atoms
  std::map<uint32_t,Poly> invOf; // inverse atom -> polynomial it inverts
  std::unordered_map<TID,Poly> memo;
  size_t budget = 4000000;
  Polys(Terms& t):T(t){}
  uint32_t atom(const std::string& s,TID t){ auto it=atomIdx.find(s); if(it!=atomIdx.end()) return it->second; uint32_t i=atomName.size(); atomName.push_back(s); atomTerm.push_back(t); atomIdx[s]=i; return i; }
  static Mono mul(const Mono&a,const Mono&b){ Mono r; size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j>=b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i>=a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { int e=a[i].second+b[j].second; if(e) r.push_back({a[i].first,e}); i++; j++; } } return r; }
  static void addTo(Poly& p,const Poly& q,const mpq_class& k){ for(auto&m:q){ auto it=p.find(m.first); if(it==p.end()) p.emplace(m.first,k*m.second); else { it->second+=k*m.second; if(it->second==0) p.erase(it);} } }
  Poly mul(const Poly&a,const Poly&b){ Poly r; for(auto&x:a) for(auto&y:b){ Mono m=mul(x.first,y.first); auto it=r.find(m); mpq_class c=x.second*y.second; if(it==r.end()) r.emplace(std::move(m),c); else { it->second+=c; if(it->second==0) r.erase(it);} } return r; }
  std::string mstr(const Mono&m) const { std::string s; for(auto&f:m){ if(!s.empty()) s+="*"; s+=atomName[f.first]; if(f.second!=1) s+="^"+std::to_string(f.second);} return s.empty()?"1":s; }
  std::string str(const Poly&p) const { std::string s; for(auto&m:p){ if(!s.empty()) s+=" + "; s+=m.second.get_str()+"*"+mstr(m.first);} return s.empty()?"0":s; }
  Poly inverse(const Poly& p){
    if(p.size()==1){ Mono m=p.begin()->first; for(auto&f:m) f.second=-f.second; return Poly{{m,1/p.begin()->second}}; }
    // normalise leading coefficient
    mpq_class lc=p.begin()->second; Poly q; addTo(q,p,1/lc);
    std::string k="inv("+str(q)+")"; uint32_t a=atom(k,0); if(!invOf.count(a)) invOf[a]=q;
    return Poly{{Mono{{a,1}},1/lc}}; }
  const Poly& of(TID t);
};

// ---- z3 --------------------------------------------------------------------------------------
struct Z {
  Z3_context c; Z3_solver s; Terms& T; Polys& P;
  std::unordered_map<TID,Z3_ast> cache; std::unordered_map<std::string,Z3_ast> mvar;
  std::unordered_map<uint32_t,Z3_ast> avar; Z3_sort realS, boolS;
  uint64_t queries=0; double secs=0; unsigned rl=40000000;
  Z(Terms&t,Polys&p);
  Z3_ast tr(TID t);           // bv or bool(width1 -> bv1?)  comparisons return Bool
  Z3_ast trBool(TID t);
  Z3_ast atomVar(uint32_t a);   // no defining constraints
  void ensureDef(uint32_t a);   // asserts them (1/p, sqrt)
  std::set<uint32_t> defined;
  Z3_ast polyNL(const Poly&p);
  Z3_ast polyLin(const Poly&p);
  Z3_ast rnum(const mpq_class&q);
  int check(const std::vector<Z3_ast>& assumps);
  Z3_model cur=nullptr; uint64_t modelHits=0;   // a model of everything asserted so far, if one is known
  void setModel(Z3_model m){ if(m) Z3_model_inc_ref(c,m); if(cur) Z3_model_dec_ref(c,cur); cur=m; }
  int evalCur(Z3_ast a){ if(!cur) return 0; Z3_ast v; if(!Z3_model_eval(c,cur,a,true,&v)) return 0; Z3_inc_ref(c,v); Z3_lbool b=Z3_get_bool_value(c,v); Z3_dec_ref(c,v); return b==Z3_L_TRUE?1:b==Z3_L_FALSE?-1:0; }
  void add(Z3_ast a){ Z3_inc_ref(c,a); Z3_solver_assert(c,s,a); if(cur&&evalCur(a)<=0) setModel(nullptr); }
  Z3_ast keep(Z3_ast a){ Z3_inc_ref(c,a); return a; }
};
