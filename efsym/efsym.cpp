// efsym: symbolic executor for LLVM IR with native externals, path forking by fork(2), z3 decisions.
#include "core.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cxxabi.h>
#include <iostream>
#include <dlfcn.h>
#include <ffi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <csetjmp>
#include <chrono>
#include <sstream>
#include <fstream>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unordered_set>
#include <random>
#include <unistd.h>
using namespace llvm;

Shared* SH; Terms T; Polys P(T); Z* z;
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static int resFd=-1; static double deadline; static uint64_t maxInstr=2000000000ull, nInstr=0; static int maxFails=4;
static std::vector<std::string> harnessArgs; static int verbose=0;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct ExcRec { void* obj; const std::type_info* ti; void* adjusted; std::exception_ptr keep; };
struct IThrow { ExcRec* e; };

// ---------------------------------------------------------------- decoded code
struct Opnd { uint32_t slot; bool isC; Val v; };
struct TI { Kind k; uint8_t bits; uint8_t bytes; Type* ty; };
struct GepStep { uint32_t opIdx; int64_t stride; };
struct FnInfo;
struct Inst { unsigned opc; unsigned pred=0; uint32_t dst=0; TI ti, ti2; std::vector<Opnd> ops; Instruction* I; int64_t k=0; std::vector<GepStep> steps; uint32_t bb0=0,bb1=0; FnInfo* callee=nullptr; std::vector<uint32_t> idx; };
struct Block { uint32_t start; BasicBlock* bb; uint32_t nphi; };
typedef Val (*Builtin)(std::vector<Val>& a,Instruction* site);
struct FnInfo { Function* F=nullptr; std::string name; bool decoded=false; std::vector<Inst> code; std::vector<Block> blocks; DenseMap<BasicBlock*,uint32_t> bidx; uint32_t nslots=0; Builtin b=nullptr; bool bChecked=false; void* nat=nullptr; bool natChecked=false; uint64_t thunk=0; uint32_t id=0; };
static DenseMap<Function*,FnInfo*> fnOf; static std::vector<FnInfo*> fns; static std::unordered_map<uint64_t,FnInfo*> byAddr;
static DenseMap<const GlobalVariable*,uint64_t> gaddr;
static uint8_t* usedFns;
static std::vector<FnInfo*> callStack;
static std::map<std::string,Builtin> builtins;
static std::deque<std::vector<Val>> aggs{1};
static Val mkAgg(std::vector<Val> v){ Val r; r.agg=aggs.size(); aggs.push_back(std::move(v)); return r; }

// ---------------------------------------------------------------- results / path control
static std::string esc(const std::string&s){ std::string r; for(char ch:s){ if(ch=='"'||ch=='\\'){r+='\\';r+=ch;} else if(ch=='\n') r+="\\n"; else if((unsigned char)ch<32||(unsigned char)ch>126){ char b[8]; snprintf(b,8,"\\u%04x",(unsigned char)ch); r+=b; } else r+=ch; } return r; }
static void emit(const std::string& line){ std::string s=line+"\n"; if(write(resFd,s.data(),s.size())<0){} }
static std::vector<pid_t> kids; static bool ownToken=false; static double t0Path;
bool inRank=false; int rankId=0, rankCount=1;
struct Input { std::string name; TID t; Val v; bool real; int w; };
static std::vector<Input> inputs; static std::vector<std::pair<std::string,std::string>> notes;
static std::string trail(){ std::string s; int n=0; for(int i=(int)callStack.size()-1;i>=0&&n<6;i--){ std::string d=demangle(callStack[i]->name); if(d.size()>120) d=d.substr(0,120)+"..."; if(n++) s+=" < "; s+=d; } return s; }
static void reap(){ for(pid_t k:kids){ int st; while(waitpid(k,&st,0)<0&&errno==EINTR); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ SH->errors++; emit("{\"kind\":\"error\",\"msg\":\"path process died: status "+std::to_string(st)+"\"}"); } } kids.clear(); }
static void flushStats(){ SH->instrs+=nInstr; nInstr=0; SH->queries+=z->queries; z->queries=0; SH->secs_us+=(uint64_t)(z->secs*1e6); z->secs=0; }
[[noreturn]] static void quit(){ flushStats(); if(ownToken){ ownToken=false; sem_post(&SH->jobs);} reap(); fflush(nullptr); _exit(0); }
void clearKids(){ kids.clear(); ownToken=false; }
[[noreturn]] void quitPath(){ quit(); }
[[noreturn]] void endPath(){ if(inRank) rankEnd(E_ABORT); else SH->paths++; quit(); }
[[noreturn]] void engineError(const std::string& msg){ SH->errors++; emit("{\"kind\":\"error\",\"msg\":\""+esc(msg)+"\",\"where\":\""+esc(trail())+"\"}"); if(inRank) rankEnd(E_FAIL); else SH->paths++; quit(); }
static std::string modelJson(Z3_model m,std::map<uint32_t,mpq_class>* lin=nullptr){ std::string s="{"; bool first=true;
  for(auto&in:inputs){ std::string v; if(!in.t){ if(in.real){ double d; memcpy(&d,&in.v.c,8); char b[64]; snprintf(b,64,"%.17g",d); v=b; } else v=std::to_string(Terms::sx(in.v.c,in.w)); }
    else { Z3_ast e; if(in.real){ uint32_t a=P.atom(T.names[T.n[in.t].c],in.t); auto it=z->avar.find(a); if(it==z->avar.end()) continue; e=it->second; } else { auto it=z->cache.find(in.t); if(it==z->cache.end()) continue; e=it->second; }
      Z3_ast r=nullptr; if(!m||!Z3_model_eval(z->c,m,e,true,&r)||!r) continue; Z3_inc_ref(z->c,r);
      if(in.real){ if(Z3_is_algebraic_number(z->c,r)) { r=Z3_get_algebraic_number_lower(z->c,r,30); Z3_inc_ref(z->c,r);} mpq_class q; try{ q=mpq_class(Z3_get_numeral_string(z->c,r)); }catch(...){ continue; } char b[64]; snprintf(b,64,"%.17g",q.get_d()); v=b; }
      else { uint64_t u=0; Z3_get_numeral_uint64(z->c,r,&u); v=std::to_string(Terms::sx(u,in.w)); } }
    if(!first) s+=","; first=false; s+="\""+esc(in.name)+"\":\""+v+"\""; }
  return s+"}"; }
static void reportFail(const std::string& kind,const std::string& msg,const std::string& model){
  uint64_t k=SH->fails.fetch_add(1); if((int)k<maxFails){ std::string ns; for(auto&n:notes){ if(!ns.empty()) ns+="; "; ns+=n.first+"="+n.second; } emit("{\"kind\":\"fail\",\"what\":\""+kind+"\",\"msg\":\""+esc(msg)+"\",\"where\":\""+esc(trail())+"\",\"notes\":\""+esc(ns)+"\",\"rank\":"+std::to_string(inRank?rankId:-1)+",\"model\":"+model+"}"); }
  if((int)k+1>=maxFails) SH->stop=1; }
[[noreturn]] void fail(const char* kind,const std::string& msg){
  static bool busy=false; if(busy) quit(); busy=true;
  SH->obligations++;
  int r=z->check({}); if(r<0){ SH->infeasible++; endPath(); }
  Z3_model m=r>0?Z3_solver_get_model(z->c,z->s):nullptr; if(m) Z3_model_inc_ref(z->c,m);
  reportFail(kind,msg,modelJson(m)); if(inRank) rankEnd(E_FAIL); endPath(); }
static void poll(){ if(SH->stop||now()>deadline){ if(!SH->stop){ SH->stop=2; SH->errors++; emit("{\"kind\":\"error\",\"msg\":\"time limit\"}"); } if(inRank) rankEnd(E_FAIL); quit(); } }

// returns true in the child
static bool spawn(){
  if(inRank) engineError("symbolic decision inside a simulated rank: "+trail());
  poll(); SH->forks++;
  bool conc_=sem_trywait(&SH->jobs)==0;
  flushStats(); fflush(nullptr);
  pid_t p=fork(); if(p<0) { engineError("fork failed"); }
  if(p==0){ kids.clear(); ownToken=conc_; static int depth=0; if(++depth>2500) engineError("more than 2500 branches on one path"); return true; }
  if(conc_){ kids.push_back(p); 
    // opportunistic reaping
    for(size_t i=0;i<kids.size();){ int st; pid_t r=waitpid(kids[i],&st,WNOHANG); if(r==kids[i]){ if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) { SH->errors++; emit("{\"kind\":\"error\",\"msg\":\"path process died\"}"); } kids.erase(kids.begin()+i);} else i++; } }
  else { int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ SH->errors++; emit("{\"kind\":\"error\",\"msg\":\"path process died: status "+std::to_string(st)+"\"}"); } poll(); }
  return false; }
static std::unordered_map<TID,uint64_t> known; 
static std::set<uint32_t> pathAtoms; static std::unordered_set<TID> pathSeen; // real atoms constrained by branch conditions or assumptions
static void notePath(TID c){ if(!c||!pathSeen.insert(c).second) return; const Node x=T.n[c]; if(x.op==T_REQ||x.op==T_RLT||x.op==T_RLE){ for(TID s:{x.a,x.b}) for(auto&m:P.of(s)) for(auto&f:m.first) pathAtoms.insert(f.first); return; } if(T.isR(c)) return; notePath(x.a); notePath(x.b); if(x.op==T_ITE) notePath((TID)x.c); }
static void assertTerm(TID c){ notePath(c); z->add(z->trBool(c)); known[c]=1; if(T.n[c].op==T_NOT) known[T.n[c].a]=0; }
bool decide(TID c){
  if(T.isC(c)) return T.n[c].c;
  bool neg=T.n[c].op==T_NOT; TID base=neg?T.n[c].a:c;
  auto it=known.find(base); if(it!=known.end()) return neg?!it->second:it->second;
  notePath(base);
  Z3_ast a=z->trBool(base), na=z->keep(Z3_mk_not(z->c,a));
  int ev=z->evalCur(a); int rt,rf; Z3_model mt=nullptr,mf=nullptr; if(ev) z->modelHits++;
  auto q=[&](Z3_ast x,Z3_model& m){ int r=z->check({x}); if(r>0){ m=Z3_solver_get_model(z->c,z->s); if(m) Z3_model_inc_ref(z->c,m); } return r; };
  if(ev>0){ rt=1; mt=z->cur; Z3_model_inc_ref(z->c,mt); rf=q(na,mf); }
  else if(ev<0){ rf=1; mf=z->cur; Z3_model_inc_ref(z->c,mf); rt=q(a,mt); }
  else { rt=q(a,mt); rf=rt<0?1:q(na,mf); }
  bool v;
  if(rt>=0&&rf>=0){ if(inRank) rankAsk(base,false); bool ch=spawn(); v=!ch; }
  else if(rt<0&&rf<0){ SH->infeasible++; endPath(); }
  else v=rt>=0;
  z->setModel(v?mt:mf); if(mt) Z3_model_dec_ref(z->c,mt); if(mf) Z3_model_dec_ref(z->c,mf);
  z->add(v?a:na); known[base]=v;
  return neg?!v:v; }
uint64_t concretize(Val v){
  if(!v.t) return v.c;
  auto it=known.find(v.t); if(it!=known.end()) return it->second;
  if(T.isR(v.t)) engineError("concretisation of a symbolic double");
  unsigned w=T.n[v.t].w; if(w==1) { return decide(v.t); }
  Z3_ast e=z->tr(v.t);
  for(int iter=0;iter<5000;iter++){
    int r=z->check({}); if(r<0){ SH->infeasible++; endPath(); } if(r==0) engineError("solver unknown in concretisation");
    Z3_model m=Z3_solver_get_model(z->c,z->s); Z3_model_inc_ref(z->c,m); Z3_ast val; Z3_model_eval(z->c,m,e,true,&val); Z3_inc_ref(z->c,val); uint64_t u=0; Z3_get_numeral_uint64(z->c,val,&u); Z3_model_dec_ref(z->c,m);
    Z3_ast eq=z->keep(Z3_mk_eq(z->c,e,val)), ne=z->keep(Z3_mk_not(z->c,eq));
    int o=z->check({ne}); SH->concretized++;
    if(o<0){ known[v.t]=u; z->add(eq); return u; }
    if(inRank) rankAsk(v.t,true);
    if(spawn()){ z->add(ne); continue; }
    z->add(eq); known[v.t]=u; return u; }
  engineError("too many values in concretisation"); }
uint64_t conc(const Val&v){ return v.t?concretize(v):v.c; }
TID realTerm(const Val&v,bool f32){ if(v.t){ if(!T.isR(v.t)) engineError("bit-vector term used as double"); return v.t; }
  double d; if(f32){ float f; uint32_t u=v.c; memcpy(&f,&u,4); d=f; } else memcpy(&d,&v.c,8);
  if(!std::isfinite(d)) engineError("non-finite constant mixed with a symbolic double");
  return T.rconst(mpq_class(d)); }
static Val fromReal(TID t,bool f32){ if(T.isRC(t)){ double d=T.rval(t).get_d(); mpq_class back(d); if(back==T.rval(t)){ Val r; if(f32){ float f=d; uint32_t u; memcpy(&u,&f,4); r.c=u; } else memcpy(&r.c,&d,8); return r; } } return VT(t); }
std::string cstr(uint64_t p){ std::string s; for(;;p++){ if(inArena(p)) checkAccess(p,1,"string read"); if(getShadow(p)){ Val v=loadBytes(p,1,8,K_INT); char c=conc(v); if(!c) return s; s+=c; continue;} char c=*(char*)p; if(!c) return s; s+=c; } }

// ---------------------------------------------------------------- equality obligations
struct Eq { TID a,b; std::string msg; std::string where; };
static std::vector<Eq> eqs; static std::vector<std::pair<TID,TID>> assumedEqs;
static Z3_ast diffLin(TID a,TID b){ Z3_ast e=z->keep(Z3_mk_eq(z->c,z->polyLin(P.of(a)),z->polyLin(P.of(b)))); return z->keep(Z3_mk_not(z->c,e)); }
static void randomModelFail(const std::string&msg,Z3_model m){ std::string w=modelJson(m); reportFail("equality",msg,w); }
static std::vector<Poly> hyps; static size_t linAdded=0,assumedSeen=0; static std::set<uint32_t> hypAtoms; // valid polynomial equations p=0
static void collectDefs(const Poly&p){ for(auto&m:p) for(auto&f:m.first){ uint32_t a=f.first; if(!hypAtoms.insert(a).second) continue;
  auto iv=P.invOf.find(a); if(iv!=P.invOf.end()){ Poly q=P.mul(iv->second,Poly{{Mono{{a,1}},1}}); Polys::addTo(q,Poly{{Mono{},1}},-1); Poly den=iv->second; hyps.push_back(q); collectDefs(den); }
  TID t=P.atomTerm[a]; if(t&&T.n[t].op==T_RUF&&T.names[T.n[t].c]=="sqrt"){ Poly q{{Mono{{a,2}},1}}; Poly arg=P.of(T.n[t].a); Polys::addTo(q,arg,-1); hyps.push_back(q); collectDefs(arg); } } }
static std::vector<Z3_ast> hypLin(const std::vector<Mono>& mults){ std::vector<Z3_ast> r; for(auto&d:hyps) for(auto&m:mults){ Poly q=P.mul(d,Poly{{m,1}}); r.push_back(z->keep(Z3_mk_eq(z->c,z->polyLin(q),z->rnum(0)))); } return r; }
// ---- witness search: the harness inputs get small rational values, the contract equations (linear in the remaining unknowns then) are solved exactly, and z3 confirms the complete assignment
typedef std::map<uint32_t,mpq_class> Asg;
static bool evalAtom(uint32_t a,Asg& v,int& bad);
static mpq_class mpow(const mpq_class&x,int e){ mpq_class r=1; for(int i=0;i<std::abs(e);i++) r*=x; return e<0?mpq_class(1/r):r; }
// value of p over v; unknown atoms stay; bad set when undefined (division by zero, irrational root)
static Poly substP(const Poly&p,Asg& v,int& bad){ Poly r; for(auto&m:p){ mpq_class c=m.second; Mono k; for(auto&f:m.first){ if(evalAtom(f.first,v,bad)){ const mpq_class&q=v[f.first]; if(f.second<0&&q==0){ bad=1; return r; } if(q==0){ c=0; break; } c*=mpow(q,f.second); } else { if(bad) return r; k.push_back(f); } } if(c!=0) Polys::addTo(r,Poly{{k,c}},1); } return r; }
static bool evalAtom(uint32_t a,Asg& v,int& bad){ if(v.count(a)) return true; auto iv=P.invOf.find(a); if(iv!=P.invOf.end()){ Poly den=iv->second; Poly q=substP(den,v,bad); if(bad) return false; if(q.empty()){ bad=1; return false; } if(q.size()==1&&q.begin()->first.empty()){ v[a]=1/q.begin()->second; return true; } return false; }
  TID t=P.atomTerm[a]; if(t&&T.n[t].op==T_RUF&&T.names[T.n[t].c]=="sqrt"){ Poly q=substP(P.of(T.n[t].a),v,bad); if(bad) return false; mpq_class x; if(q.empty()) x=0; else if(q.size()==1&&q.begin()->first.empty()) x=q.begin()->second; else return false; if(x<0){ bad=1; return false; } mpz_class n=x.get_num(),d=x.get_den(); mpz_class rn=sqrt(n),rd=sqrt(d); if(rn*rn!=n||rd*rd!=d){ bad=2; return false; } v[a]=mpq_class(rn)/mpq_class(rd); return true; }
  return false; }
// rlimit does not bound every nonlinear step: a wall clock bound as well (a signal, not a z3 timer thread, because paths fork)
static void onAlarm(int){ Z3_interrupt(z->c); }
static Z3_lbool timedCheck(Z3_solver s,int secs){ struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onAlarm; sa.sa_flags=SA_RESTART|SA_ONSTACK; sigaction(SIGALRM,&sa,nullptr); alarm(secs); Z3_lbool r=Z3_solver_check(z->c,s); alarm(0); return r; }
static bool isFreshAtom(uint32_t a){ return P.atomName[a].size()&&P.atomName[a][0]=='$'; }
static void atomsOf(const Poly&p,std::set<uint32_t>& s){ for(auto&m:p) for(auto&f:m.first){ if(!s.insert(f.first).second) continue; auto iv=P.invOf.find(f.first); if(iv!=P.invOf.end()){ Poly d=iv->second; atomsOf(d,s); } TID t=P.atomTerm[f.first]; if(t&&T.n[t].op==T_RUF&&T.names[T.n[t].c]=="sqrt"){ Poly d=P.of(T.n[t].a); atomsOf(d,s); } } }
static bool derivedAtom(uint32_t a){ if(P.invOf.count(a)) return true; TID t=P.atomTerm[a]; return t&&T.n[t].op==T_RUF&&T.names[T.n[t].c]=="sqrt"; }
// 1 witness confirmed (m2), 0 none found; evaluated counts complete assignments on which the obligation held
static bool dbgW=getenv("EFSYM_DBG")!=nullptr;
static int tryWitness(const Poly&d,Z3_model m,Z3_model& m2,int attempts,int& heldAt){
  std::set<uint32_t> at; atomsOf(d,at); for(auto&q:hyps) atomsOf(q,at);
  { std::set<uint32_t> pa=pathAtoms; for(uint32_t a:pa){ at.insert(a); auto iv=P.invOf.find(a); if(iv!=P.invOf.end()){ Poly q=iv->second; atomsOf(q,at); } } }
  std::mt19937 rng(12345); double tw=now();
  for(int k=0;k<attempts&&now()-tw<60;k++){ if(SH->stop) return 0; Asg v; int bad=0; double ta=now();
    auto rnd=[&]{ int r; do r=(int)(rng()%(k<4?13:33))-(k<4?6:16); while(!r); mpq_class q(r,k%2?2:1); q.canonicalize(); return q; };
    std::set<uint32_t> pin; for(uint32_t a:pathAtoms){ Poly q{{Mono{{a,1}},1}}; std::set<uint32_t> s; atomsOf(q,s); for(uint32_t b:s) if(!derivedAtom(b)&&(!isFreshAtom(b)||hyps.empty())) pin.insert(b); }
    for(uint32_t a:at){ if(derivedAtom(a)||(isFreshAtom(a)&&!hyps.empty())) continue; TID t=P.atomTerm[a]; bool fromModel=pin.count(a)||(t&&(T.n[t].op==T_I2R||T.n[t].op==T_RITE));
      // the last attempts release the pinned ones too: random points often satisfy sign conditions
      if(fromModel&&k%3==2&&k>2&&!(t&&(T.n[t].op==T_I2R||T.n[t].op==T_RITE))) fromModel=false;
      if(fromModel){ Z3_ast r=nullptr,e=z->atomVar(a); if(Z3_model_eval(z->c,m,e,true,&r)&&r){ Z3_inc_ref(z->c,r); if(!Z3_is_algebraic_number(z->c,r)){ try{ v[a]=mpq_class(Z3_get_numeral_string(z->c,r)); v[a].canonicalize(); continue; }catch(...){} } } bad=1; break; }
      v[a]=rnd(); }
    if(bad) continue;
    std::vector<Poly> H=hyps; std::set<uint32_t> un; for(uint32_t a:at) if(!v.count(a)&&!derivedAtom(a)) un.insert(a);
    bool okA=true;
    while(okA){
      std::vector<Poly> nx; std::vector<Poly> lin; for(auto&q:H){ Poly r=substP(q,v,bad); if(bad==2){ bad=0; continue; } if(bad){ okA=false; break; } if(r.empty()) continue; if(r.size()==1&&r.begin()->first.empty()){ okA=false; break; }
        bool li=true; for(auto&mm:r) if(!(mm.first.empty()||(mm.first.size()==1&&mm.first[0].second==1&&un.count(mm.first[0].first)))) { li=false; break; }
        (li?lin:nx).push_back(std::move(r)); }
      if(!okA) break;
      for(auto it=un.begin();it!=un.end();) it=v.count(*it)?un.erase(it):std::next(it);
      if(lin.empty()){ H=nx; if(un.empty()) break; v[*un.begin()]=rnd(); un.erase(un.begin()); continue; }
      // Gauss-Jordan
      std::map<uint32_t,std::map<uint32_t,mpq_class>> rows; // pivot -> row (0xffffffff = constant), row: pivot + sum = 0
      const uint32_t K=0xffffffffu;
      for(auto&q:lin){ std::map<uint32_t,mpq_class> r; for(auto&mm:q) r[mm.first.empty()?K:mm.first[0].first]=mm.second;
        for(;;){ uint32_t hit=K; for(auto&x:r) if(x.first!=K&&rows.count(x.first)){ hit=x.first; break; } if(hit==K) break; mpq_class c=r[hit]; for(auto&y:rows[hit]){ auto& t=r[y.first]; t-=c*y.second; if(t==0) r.erase(y.first); } }
        if(r.empty()) continue; if(r.begin()->first==K){ okA=false; break; } uint32_t pv=r.begin()->first; mpq_class c=r[pv]; for(auto&y:r) y.second/=c;
        for(auto&o:rows){ auto it=o.second.find(pv); if(it==o.second.end()) continue; mpq_class c2=it->second; for(auto&y:r){ auto& t=o.second[y.first]; t-=c2*y.second; if(t==0) o.second.erase(y.first); } }
        rows[pv]=std::move(r); if(now()-ta>60){ okA=false; break; } }
      if(!okA) break;
      bool got=false; std::set<uint32_t> freeU; for(auto&r:rows){ bool det=true; for(auto&y:r.second) if(y.first!=r.first&&y.first!=K){ det=false; freeU.insert(y.first); } if(det){ auto it=r.second.find(K); v[r.first]=it==r.second.end()?mpq_class(0):mpq_class(-it->second); un.erase(r.first); got=true; } }
      if(!got){ uint32_t a=*freeU.begin(); v[a]=rnd(); un.erase(a); }
      H=lin; for(auto&q:nx) H.push_back(q); }
    if(dbgW) fprintf(stderr,"[witness] attempt %d ok %d bad %d unknown %zu %.2fs\n",k,okA,bad,un.size(),now()-ta);
    if(!okA||bad) continue;
    for(uint32_t a:un) v[a]=rnd();
    Poly val=substP(d,v,bad); if(bad==1) continue; if(bad==2) bad=0; /* an irrational root: left to z3 */ else { if(val.empty()){ heldAt++; continue; } if(!(val.size()==1&&val.begin()->first.empty())) continue; }
    // z3 confirms: branch conditions, contracts and the negated obligation under this assignment
    for(uint32_t a:at){ evalAtom(a,v,bad); if(bad==2) bad=0; } if(bad) continue;
    std::vector<Z3_ast> as; for(auto&q:assumedEqs){ Poly dd=P.of(q.first); Polys::addTo(dd,P.of(q.second),-1); as.push_back(z->keep(Z3_mk_eq(z->c,z->polyNL(dd),z->rnum(0)))); }
    Z3_ast g=z->keep(Z3_mk_not(z->c,z->keep(Z3_mk_eq(z->c,z->polyNL(d),z->rnum(0))))); as.push_back(g);
    for(auto&x:v) as.push_back(z->keep(Z3_mk_eq(z->c,z->atomVar(x.first),z->rnum(x.second))));
    Z3_solver s2=Z3_mk_solver(z->c); Z3_solver_inc_ref(z->c,s2); Z3_params pr=Z3_mk_params(z->c); Z3_params_inc_ref(z->c,pr); Z3_params_set_uint(z->c,pr,Z3_mk_string_symbol(z->c,"rlimit"),20000000); Z3_solver_set_params(z->c,s2,pr);
    Z3_ast_vector av=Z3_solver_get_assertions(z->c,z->s); Z3_ast_vector_inc_ref(z->c,av); for(unsigned i=0;i<Z3_ast_vector_size(z->c,av);i++) Z3_solver_assert(z->c,s2,Z3_ast_vector_get(z->c,av,i)); Z3_ast_vector_dec_ref(z->c,av);
    for(auto x:as) Z3_solver_assert(z->c,s2,x);
    double t0=now(); Z3_lbool rr=timedCheck(s2,60); z->secs+=now()-t0; z->queries++; if(dbgW) fprintf(stderr,"[witness] z3 says %d in %.2fs\n",rr,now()-t0);
    if(rr==Z3_L_TRUE){ m2=Z3_solver_get_model(z->c,s2); Z3_model_inc_ref(z->c,m2); Z3_solver_dec_ref(z->c,s2); return 1; }
    Z3_solver_dec_ref(z->c,s2); }
  return 0; }
static void flushEqs(){
  if(eqs.empty()) return;
  std::vector<Eq> work; work.swap(eqs);
  SH->eqs+=work.size(); SH->obligations+=work.size();
  // assumed equations enter linearised (each is an equation between polynomials; sound relaxation)
  std::vector<Mono> unit{Mono{}};
  for(;assumedSeen<assumedEqs.size();assumedSeen++){ Poly d=P.of(assumedEqs[assumedSeen].first); Polys::addTo(d,P.of(assumedEqs[assumedSeen].second),-1); hyps.push_back(d); collectDefs(d); }
  for(auto&w:work){ collectDefs(P.of(w.a)); collectDefs(P.of(w.b)); }
  for(;linAdded<hyps.size();linAdded++) z->add(z->keep(Z3_mk_eq(z->c,z->polyLin(hyps[linAdded]),z->rnum(0))));
  for(;;){
    std::vector<Z3_ast> ors; std::vector<size_t> idx;
    for(size_t i=0;i<work.size();i++){ ors.push_back(diffLin(work[i].a,work[i].b)); idx.push_back(i); SH->polymax=std::max<uint64_t>(SH->polymax,P.of(work[i].a).size()); }
    if(ors.empty()) return;
    Z3_ast any=ors.size()==1?ors[0]:z->keep(Z3_mk_or(z->c,ors.size(),ors.data()));
    Z3_ast lit=z->keep(Z3_mk_fresh_const(z->c,"ob",z->boolS)); z->add(Z3_mk_implies(z->c,lit,any));
    int r=z->check({lit});
    if(r<0) return;
    if(r==0) engineError("solver unknown on equality obligations");
    Z3_model m=Z3_solver_get_model(z->c,z->s); Z3_model_inc_ref(z->c,m);
    // which one
    size_t bad=SIZE_MAX; for(size_t i=0;i<ors.size();i++){ Z3_ast v; if(Z3_model_eval(z->c,m,ors[i],true,&v)&&Z3_get_bool_value(z->c,v)==Z3_L_TRUE){ bad=i; break; } }
    if(bad==SIZE_MAX) engineError("no failing obligation in model");
    Eq e=work[bad]; Poly d=P.of(e.a); Polys::addTo(d,P.of(e.b),-1);
    bool nonlin=false; for(auto&mm:d){ int deg=0; for(auto&f:mm.first) deg+=std::abs(f.second); if(deg>1||(mm.first.size()==1&&mm.first[0].second<0)) nonlin=true; for(auto&f:mm.first) if(P.invOf.count(f.first)) nonlin=true; }
    bool refuted=false; Z3_model m2=nullptr;
    if(nonlin||!hyps.empty()){
      // exact check: products interpreted; assumed equations exact
      SH->nlq++; int held=0;
      if(now()>deadline||SH->stop) poll();
      if(!tryWitness(d,m,m2,6,held)){
      // stage 1: multiply the assumed equations by quotient monomials (still linear)
      if(!hyps.empty()){
        std::set<Mono> ms; for(auto&q:hyps){ for(auto&x:q){ Mono inv=x.first; for(auto&f:inv) f.second=-f.second; for(auto&y:d){ Mono k=Polys::mul(y.first,inv); ms.insert(k); if(ms.size()>400) break; } if(ms.size()>400) break; } if(ms.size()>400) break; }
        std::vector<Mono> mv(ms.begin(),ms.end()); for(auto x:hypLin(mv)) z->add(x); if(z->check({ors[bad]})<0) refuted=true; }
      if(!refuted){
        Z3_solver s2=Z3_mk_solver(z->c); Z3_solver_inc_ref(z->c,s2); Z3_params pr=Z3_mk_params(z->c); Z3_params_inc_ref(z->c,pr); Z3_params_set_uint(z->c,pr,Z3_mk_string_symbol(z->c,"rlimit"),20000000); Z3_solver_set_params(z->c,s2,pr);
        Z3_solver old=z->s; 
        // translations add side conditions to z->s; translate first, then copy
        std::vector<Z3_ast> as; for(auto&q:assumedEqs){ Poly dd=P.of(q.first); Polys::addTo(dd,P.of(q.second),-1); as.push_back(z->keep(Z3_mk_eq(z->c,z->polyNL(dd),z->rnum(0)))); }
        Z3_ast g=z->keep(Z3_mk_not(z->c,z->keep(Z3_mk_eq(z->c,z->polyNL(d),z->rnum(0)))));
        Z3_ast_vector av=Z3_solver_get_assertions(z->c,old); Z3_ast_vector_inc_ref(z->c,av); for(unsigned i=0;i<Z3_ast_vector_size(z->c,av);i++) Z3_solver_assert(z->c,s2,Z3_ast_vector_get(z->c,av,i));
        for(auto x:as) Z3_solver_assert(z->c,s2,x); Z3_solver_assert(z->c,s2,g);
        double t0=now(); Z3_lbool rr=timedCheck(s2,60); z->secs+=now()-t0; z->queries++;
        if(rr==Z3_L_FALSE) refuted=true; else if(rr==Z3_L_TRUE){ m2=Z3_solver_get_model(z->c,s2); Z3_model_inc_ref(z->c,m2);} else if(!tryWitness(d,m,m2,40,held)) engineError("undecided equality obligation: "+e.msg+" (held at "+std::to_string(held)+" complete assignments)"); }
      }
    }
    if(!refuted){ std::string ds=P.str(d); if(ds.size()>600) ds=ds.substr(0,600)+"..."; std::string as=T.str(e.a,3),bs=T.str(e.b,3); if(as.size()>300) as=as.substr(0,300)+".."; if(bs.size()>300) bs=bs.substr(0,300)+"..";
      SH->obligations+=0; std::string sav=e.where; reportFail("equality",e.msg+" | got "+as+" | want "+bs+" | difference "+ds,modelJson(m2?m2:m)); if(SH->stop) { if(inRank) rankEnd(E_FAIL); quit(); } }
    work.erase(work.begin()+bad); }
}

#include "interp.inc"
#include "builtins.inc"
#include "main.inc"
