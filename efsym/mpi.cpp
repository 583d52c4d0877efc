// A small MPI model: one process per simulated rank, eager buffered point-to-point messages in shared
// memory, collectives built on them, payloads may carry symbolic terms.  Overrides libmpi's functions
// for the interpreted program and for native p4est/sc alike.
#include "core.hpp"
#include <mpi.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>
#include <algorithm>
#include <chrono>
struct MsgHdr { int src,dst,tag; uint32_t consumed; uint64_t ctx; uint64_t len,symLen; uint64_t next; };
struct Net { pthread_mutex_t mu; pthread_cond_t cv; int alive,waiting,P; uint64_t gen; int abortFlag,deadlock,failed,askKind; uint64_t askAt; uint64_t top,first,last; uint64_t cap; };
static Net* net=nullptr; constexpr uint64_t NETSZ=1ull<<30;
struct CommRec { uint64_t ctx; std::vector<int> ranks; int me; std::string name; uint64_t seq=0; bool freed=false; };
struct GroupRec { std::vector<int> ranks; };
static CommRec *world,*selfc; static std::set<void*> comms,groups; static std::map<std::string,int> created;
static std::map<void*,int> tsize; static bool inited=false, finalized=false;
static std::map<void*,int> attrs;
void rankEnd(int how){ static bool ended=false; if(ended) return; ended=true; if(net){ pthread_mutex_lock(&net->mu); net->alive--; if(how!=E_OK) net->abortFlag=1; if(how==E_FAIL) net->failed=1; if(how==E_OK&&!net->abortFlag&&net->waiting>=net->alive&&net->alive>0) net->deadlock=1; net->waiting=0; net->gen++; pthread_cond_broadcast(&net->cv); pthread_mutex_unlock(&net->mu); } }
static bool mpiStrict=false; void mpiStrictOn(){ mpiStrict=true; }
static CommRec* C(MPI_Comm c){ if(finalized) fail("mpi","MPI call after MPI_Finalize"); if(mpiStrict&&!inited) fail("mpi","MPI call before MPI_Init"); if(c==MPI_COMM_WORLD) return world; if(c==MPI_COMM_SELF) return selfc; if(!comms.count((void*)c)) fail("mpi","MPI call with an invalid or null communicator"); CommRec* r=(CommRec*)c; if(r->freed) fail("mpi","MPI call with a freed communicator"); return r; }
static int sz(MPI_Datatype t){ auto it=tsize.find((void*)t); if(it==tsize.end()) engineError("unknown MPI datatype"); return it->second; }
static std::string serialize(const std::vector<std::pair<uint64_t,uint32_t>>& sym); static std::vector<TID> readTerms(const char*& p);
[[noreturn]] void quitPath(); void clearKids(); 
int rankFork(int n){
  rankCount=n; if(n<=0) engineError("rank count");
  for(int again=0;;again++){ if(again>3000) engineError("too many decisions inside simulated ranks");
    net=(Net*)mmap(nullptr,NETSZ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma,PTHREAD_PROCESS_SHARED); pthread_mutex_init(&net->mu,&ma);
    pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca,PTHREAD_PROCESS_SHARED); pthread_cond_init(&net->cv,&ca);
    net->alive=net->P=n; net->top=(sizeof(Net)+63)&~63ull; net->cap=NETSZ; fflush(nullptr);
    std::vector<pid_t> ps;
    for(int r=0;r<n;r++){ pid_t p=fork(); if(p<0) engineError("fork"); if(p==0){ inRank=true; rankId=r; world->ranks.clear(); for(int i=0;i<n;i++) world->ranks.push_back(i); world->me=r; selfc->ranks={r}; selfc->me=0; selfc->ctx=1000000+r; clearKids(); return r; } ps.push_back(p); }
    for(auto p:ps){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ SH->errors++; net->failed=1; } }
    if(!net->askKind||net->failed) break;
    // a rank met a condition the choices made so far leave open: it is decided here, and the ranks start over on either side
    const char* p=(char*)net+net->askAt; TID t=readTerms(p).back(); bool value=net->askKind==2; munmap(net,NETSZ); net=nullptr; Val v; v.t=t; if(value) concretize(v); else decide(t); }
  munmap(net,NETSZ); SH->paths++; quitPath(); return -1; }
static void lock(){ pthread_mutex_lock(&net->mu); } static void unlock(){ pthread_mutex_unlock(&net->mu); }
// --- serialisation of symbolic payload
static std::string serialize(const std::vector<std::pair<uint64_t,uint32_t>>& sym){ // (offset, shadow)
  std::vector<TID> order; std::unordered_map<TID,uint32_t> idx; std::function<void(TID)> visit=[&](TID t){ if(!t||idx.count(t)) return; const Node x=T.n[t]; visit(x.a); visit(x.b); if(x.op==T_ITE||x.op==T_RITE) visit((TID)x.c); idx[t]=order.size()+1; order.push_back(t); };
  for(auto&s:sym) visit(s.second>>3);
  std::string o; auto put=[&](const void*p,size_t n){ o.append((const char*)p,n); }; auto u=[&](uint64_t v){ put(&v,8); };
  u(order.size()); for(TID t:order){ const Node&x=T.n[t]; u(x.op); u(x.w); u(x.a?idx[x.a]:0); u(x.b?idx[x.b]:0); std::string nm; uint64_t c=x.c; if(x.op==T_BVAR||x.op==T_RVAR||x.op==T_RUF) nm=T.names[x.c]; else if(x.op==T_RCONST) nm=T.rval(t).get_str(); else if(x.op==T_ITE||x.op==T_RITE) c=idx[(TID)x.c]; u(c); u(nm.size()); put(nm.data(),nm.size()); }
  u(sym.size()); for(auto&s:sym){ u(s.first); u((uint64_t)idx[s.second>>3]<<3|(s.second&7)); } return o; }
static std::vector<TID> readTerms(const char*& p){ auto u=[&]{ uint64_t v; memcpy(&v,p,8); p+=8; return v; };
  uint64_t n=u(); std::vector<TID> m(n+1); for(uint64_t i=1;i<=n;i++){ uint64_t op=u(),w=u(),a=u(),b=u(),c=u(),nl=u(); std::string nm(p,nl); p+=nl; if(op==T_BVAR||op==T_RVAR||op==T_RUF) c=T.name(nm); if(op==T_RCONST){ m[i]=T.rconst(mpq_class(nm)); continue; } if(op==T_ITE||op==T_RITE) c=m[c]; m[i]=T.mk((Op)op,w,m[a],m[b],c); } return m; }
static void deserialize(const char* p,uint64_t base,uint64_t maxn){ std::vector<TID> m=readTerms(p); auto u=[&]{ uint64_t v; memcpy(&v,p,8); p+=8; return v; };
  uint64_t k=u(); for(uint64_t i=0;i<k;i++){ uint64_t off=u(),s=u(); if(off<maxn) setShadow(base+off,(m[s>>3]<<3)|(s&7)); } }
void rankAsk(TID t,bool value){ std::string sy=serialize({{0,(uint32_t)t<<3}}); lock(); if(!net->askKind&&!net->abortFlag){ uint64_t a=net->top; if(a+sy.size()+64>net->cap){ unlock(); engineError("MPI model: message store exhausted"); } net->top=(a+sy.size()+63)&~63ull; memcpy((char*)net+a,sy.data(),sy.size()); net->askAt=a; net->askKind=value?2:1; } unlock(); rankEnd(E_ABORT); quitPath(); }
static MsgHdr* xsend(int dst,uint64_t ctx,int tag,uint64_t buf,uint64_t n){
  std::string sy; if(n&&anySym(buf,n)){ std::vector<std::pair<uint64_t,uint32_t>> v; for(uint64_t i=0;i<n;i++) if(uint32_t s=getShadow(buf+i)) v.push_back({i,s}); sy=serialize(v); }
  if(!net){ engineError("MPI send to self without simulated ranks"); }
  lock(); uint64_t a=net->top; uint64_t need=sizeof(MsgHdr)+n+sy.size(); net->top=(a+need+63)&~63ull; if(net->top>net->cap){ unlock(); engineError("MPI model: message store exhausted"); }
  MsgHdr* h=(MsgHdr*)((char*)net+a); h->src=rankId; h->dst=dst; h->tag=tag; h->consumed=0; h->ctx=ctx; h->len=n; h->symLen=sy.size(); h->next=0; if(n) memcpy((char*)(h+1),(void*)buf,n); memcpy((char*)(h+1)+n,sy.data(),sy.size());
  if(net->last) ((MsgHdr*)((char*)net+net->last))->next=a; else net->first=a; net->last=a; net->gen++; net->waiting=0; pthread_cond_broadcast(&net->cv); unlock(); return h; }
static MsgHdr* findMsg(int src,uint64_t ctx,int tag){ for(uint64_t a=net->first;a;){ MsgHdr*h=(MsgHdr*)((char*)net+a); if(!h->consumed&&h->dst==rankId&&h->ctx==ctx&&(src==MPI_ANY_SOURCE||h->src==src)&&(tag==MPI_ANY_TAG||h->tag==tag)) return h; a=h->next; } return nullptr; }
static MsgHdr* waitMsg(int src,uint64_t ctx,int tag){ // lock held on return
  if(!net) engineError("MPI receive without simulated ranks");
  lock(); for(;;){ if(net->abortFlag){ unlock(); rankEnd(E_ABORT); quitPath(); } if(MsgHdr*h=findMsg(src,ctx,tag)) return h; 
    net->waiting++; if(net->waiting>=net->alive) net->deadlock=1; if(net->deadlock){ pthread_cond_broadcast(&net->cv); net->abortFlag=1; unlock(); fail("mpi","deadlock: every simulated rank waits for a message that is never sent"); }
    uint64_t g=net->gen; while(net->gen==g&&!net->deadlock&&!net->abortFlag) pthread_cond_wait(&net->cv,&net->mu); if(net->deadlock){ net->abortFlag=1; unlock(); fail("mpi","deadlock: every simulated rank waits for a message that is never sent"); } } }
// synchronising mode: a standard send ends once its message is taken, and no rank leaves a collective before all have entered it (MPI allows both)
bool mpiSync=false;
static void waitConsumed(MsgHdr*h){ lock(); while(!h->consumed){ if(net->abortFlag){ unlock(); rankEnd(E_ABORT); quitPath(); }
    net->waiting++; if(net->waiting>=net->alive) net->deadlock=1; if(net->deadlock){ pthread_cond_broadcast(&net->cv); net->abortFlag=1; unlock(); fail("mpi","deadlock: every simulated rank waits"); }
    uint64_t g=net->gen; while(net->gen==g&&!net->deadlock&&!net->abortFlag) pthread_cond_wait(&net->cv,&net->mu); if(net->deadlock){ net->abortFlag=1; unlock(); fail("mpi","deadlock: every simulated rank waits"); } } unlock(); }
static uint64_t take(MsgHdr*h,uint64_t buf,uint64_t maxn,int* s,int* t){ uint64_t n=h->len; if(n>maxn){ unlock(); fail("mpi","message of "+std::to_string(n)+" bytes received into a buffer of "+std::to_string(maxn)+" bytes"); } if(n){ if(inArena(buf)) { unlock(); checkAccess(buf,n,"write (MPI receive)"); lock(); } memFill(buf,0,n); memcpy((void*)buf,h+1,n); if(h->symLen) deserialize((char*)(h+1)+n,buf,n); } if(s) *s=h->src; if(t) *t=h->tag; h->consumed=1; if(mpiSync){ net->gen++; net->waiting=0; pthread_cond_broadcast(&net->cv); } unlock(); return n; }
static uint64_t xrecv(int src,uint64_t ctx,int tag,uint64_t buf,uint64_t maxn,int* s=nullptr,int* t=nullptr){ MsgHdr*h=waitMsg(src,ctx,tag); return take(h,buf,maxn,s,t); }
static void rd(const void* p,uint64_t n){ if(n) checkAccess((uint64_t)p,n,"read (MPI send)"); } static void wr(void*p,uint64_t n){ if(n) checkAccess((uint64_t)p,n,"write (MPI receive)"); }
static int wrank(CommRec*c,int r){ if(r<0||r>=(int)c->ranks.size()) fail("mpi","rank "+std::to_string(r)+" out of range in communicator of size "+std::to_string(c->ranks.size())); return c->ranks[r]; }
static int lrank(CommRec*c,int w){ for(size_t i=0;i<c->ranks.size();i++) if(c->ranks[i]==w) return i; return -1; }
static uint64_t collCtx(CommRec*c,int kind){ return (c->ctx*1000003u+(c->seq++))*64+kind+7; }
static void exact(uint64_t got,uint64_t want,const char* what){ if(got!=want) fail("mpi",std::string(what)+": ranks disagree about the message size ("+std::to_string(got)+" vs "+std::to_string(want)+" bytes)"); }
static uint64_t h64(uint64_t h,uint64_t v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); return h*0xBF58476D1CE4E5B9ull; }
static MPI_Comm newComm(std::vector<int> ranks,uint64_t salt,const std::string& nm){ CommRec*r=new CommRec; uint64_t h=salt; for(int x:ranks) h=h64(h,x+1); std::string key=std::to_string(h); h=h64(h,++created[key]); r->ctx=h; r->ranks=ranks; r->me=lrank(r,world->ranks[world->me]); r->name=nm; comms.insert(r); return (MPI_Comm)r; }
struct ReqRec { bool recv; uint64_t buf,max; int src,tag; CommRec* c; bool done; MPI_Status st; };
static void setSt(MPI_Status* s,int src,int tag,uint64_t n){ if(s&&s!=MPI_STATUS_IGNORE){ s->MPI_SOURCE=src; s->MPI_TAG=tag; s->MPI_ERROR=0; s->_ucount=n; s->_cancelled=0; } }
void mpiInit(){ world=new CommRec; world->ctx=1; world->ranks={0}; world->me=0; world->name="MPI_COMM_WORLD"; selfc=new CommRec; selfc->ctx=2; selfc->ranks={0}; selfc->me=0; selfc->name="MPI_COMM_SELF";
#define TY(t,s) tsize[(void*)t]=s
  TY(MPI_CHAR,1);TY(MPI_BYTE,1);TY(MPI_SIGNED_CHAR,1);TY(MPI_UNSIGNED_CHAR,1);TY(MPI_SHORT,2);TY(MPI_UNSIGNED_SHORT,2);TY(MPI_INT,4);TY(MPI_UNSIGNED,4);TY(MPI_LONG,8);TY(MPI_UNSIGNED_LONG,8);TY(MPI_LONG_LONG_INT,8);TY(MPI_UNSIGNED_LONG_LONG,8);TY(MPI_FLOAT,4);TY(MPI_DOUBLE,8);TY(MPI_LONG_DOUBLE,16);TY(MPI_WCHAR,4);TY(MPI_CXX_BOOL,1);TY(MPI_C_BOOL,1);TY(MPI_INT8_T,1);TY(MPI_INT16_T,2);TY(MPI_INT32_T,4);TY(MPI_INT64_T,8);TY(MPI_UINT8_T,1);TY(MPI_UINT16_T,2);TY(MPI_UINT32_T,4);TY(MPI_UINT64_T,8); }
static bool isFloat(MPI_Datatype t){ return t==MPI_DOUBLE; }
static void reduceInto(uint64_t acc,uint64_t x,int n,MPI_Datatype t,MPI_Op op){ int s=sz(t); for(int i=0;i<n;i++){ uint64_t p=acc+(uint64_t)i*s,q=x+(uint64_t)i*s;
    if(t==MPI_DOUBLE){ Val u=loadBytes(p,8,64,K_F64),v=loadBytes(q,8,64,K_F64); if(u.t||v.t){ if(op!=MPI_SUM) engineError("MPI reduction of symbolic doubles other than MPI_SUM"); storeBytes(p,8,64,K_F64,VT(T.rbin(T_RADD,realTerm(u),realTerm(v)))); continue; } double a=*(double*)p,b=*(double*)q; double r=op==MPI_SUM?a+b:op==MPI_MAX?std::max(a,b):op==MPI_MIN?std::min(a,b):a*b; *(double*)p=r; continue; }
    if(t==MPI_FLOAT||t==MPI_LONG_DOUBLE) engineError("MPI reduction type");
    bool uns=t==MPI_UNSIGNED||t==MPI_UNSIGNED_LONG||t==MPI_UNSIGNED_LONG_LONG||t==MPI_UNSIGNED_CHAR||t==MPI_UNSIGNED_SHORT||t==MPI_BYTE||t==MPI_CXX_BOOL; Val va=loadBytes(p,s,s*8,K_INT),vb=loadBytes(q,s,s*8,K_INT);
    if((va.t||vb.t)&&(op==MPI_SUM||op==MPI_MAX||op==MPI_MIN)){ TID x=va.t?va.t:T.bconst(s*8,va.c),y=vb.t?vb.t:T.bconst(s*8,vb.c); TID lt=T.cmp(uns?T_ULT:T_SLT,x,y); TID r=op==MPI_SUM?T.bin(T_ADD,s*8,x,y):op==MPI_MAX?T.ite(lt,y,x):T.ite(lt,x,y); storeBytes(p,s,s*8,K_INT,T.isC(r)?VC(T.n[r].c):VT(r)); continue; }
    uint64_t a=concretize(va),b=concretize(vb); int64_t sa=Terms::sx(a,s*8),sb=Terms::sx(b,s*8); uint64_t r;
    if(op==MPI_SUM) r=a+b; else if(op==MPI_PROD) r=a*b; else if(op==MPI_MAX) r=uns?std::max(a,b):(uint64_t)std::max(sa,sb); else if(op==MPI_MIN) r=uns?std::min(a,b):(uint64_t)std::min(sa,sb); else if(op==MPI_LOR) r=a||b; else if(op==MPI_LAND) r=a&&b; else if(op==MPI_BOR) r=a|b; else if(op==MPI_BAND) r=a&b; else { engineError("MPI op"); } memFill(p,0,s); memcpy((void*)p,&r,s); } }
static void gatherAll(CommRec*c,int kind,const void* sb,uint64_t n,std::vector<std::pair<uint64_t,uint64_t>> slots,const char* nm){ // slots: (address, bytes) per rank
  uint64_t ctx=collCtx(c,kind); int P=c->ranks.size(); rd(sb,n);
  for(int r=0;r<P;r++) if(r!=c->me) xsend(c->ranks[r],ctx,0,(uint64_t)sb,n);
  for(int r=0;r<P;r++){ if(slots[r].second) checkAccess(slots[r].first,slots[r].second,"write (MPI gather)"); if(r==c->me){ exact(n,slots[r].second,nm); memCopy(slots[r].first,(uint64_t)sb,n); } else { uint64_t g=xrecv(c->ranks[r],ctx,0,slots[r].first,slots[r].second); exact(g,slots[r].second,nm); } } }
static void enterAll(CommRec*c,uint64_t ctx){ if(!mpiSync||c->ranks.size()<2) return; char x=0; for(size_t i=0;i<c->ranks.size();i++) if((int)i!=c->me) xsend(c->ranks[i],ctx,0,(uint64_t)&x,1); for(size_t i=0;i<c->ranks.size();i++) if((int)i!=c->me) xrecv(c->ranks[i],ctx,0,(uint64_t)&x,1); }
extern "C" {
int MPI_Init(int*,char***){ if(inited) fail("mpi","MPI_Init called twice"); inited=true; return 0; } int MPI_Init_thread(int*,char***,int,int*p){ inited=true; if(p)*p=0; return 0; } int MPI_Initialized(int*f){ *f=inited; return 0; } int MPI_Finalized(int*f){ *f=finalized; return 0; } int MPI_Finalize(){ if(finalized) fail("mpi","MPI_Finalize called twice"); if(mpiStrict&&!inited) fail("mpi","MPI_Finalize before MPI_Init"); finalized=true; return 0; }
int MPI_Abort(MPI_Comm,int code){ fail("mpi","MPI_Abort called"); }
double MPI_Wtime(){ static double t=0; return t+=0.001; }
int MPI_Comm_rank(MPI_Comm c,int*r){ *r=C(c)->me; if(inArena((uint64_t)r)) for(int i=0;i<4;i++) setShadow((uint64_t)r+i,0); return 0; } int MPI_Comm_size(MPI_Comm c,int*r){ *r=C(c)->ranks.size(); if(inArena((uint64_t)r)) for(int i=0;i<4;i++) setShadow((uint64_t)r+i,0); return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*o){ auto r=C(c); *o=newComm(r->ranks,h64(r->ctx,r->seq++),r->name); return 0; }
int MPI_Comm_free(MPI_Comm*c){ auto r=C(*c); if(r==world||r==selfc) fail("mpi","freeing a predefined communicator"); r->freed=true; *c=MPI_COMM_NULL; return 0; }
int MPI_Comm_set_name(MPI_Comm c,const char*n){ C(c)->name=n; return 0; }
int MPI_Comm_get_name(MPI_Comm c,char*n,int*l){ auto s=C(c)->name; if(s.size()>63) s.resize(63); checkAccess((uint64_t)n,s.size()+1,"write (name)"); strcpy(n,s.c_str()); *l=s.size(); return 0; }
int MPI_Comm_group(MPI_Comm c,MPI_Group*g){ auto r=new GroupRec{C(c)->ranks}; groups.insert(r); *g=(MPI_Group)r; return 0; }
static GroupRec* G(MPI_Group g){ if(!groups.count((void*)g)) fail("mpi","invalid group"); return (GroupRec*)g; }
int MPI_Group_free(MPI_Group*g){ groups.erase((void*)*g); *g=MPI_GROUP_NULL; return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int*r,MPI_Group*o){ auto s=new GroupRec; for(int i=0;i<n;i++) s->ranks.push_back(G(g)->ranks.at(r[i])); groups.insert(s); *o=(MPI_Group)s; return 0; }
int MPI_Group_range_incl(MPI_Group g,int n,int rg[][3],MPI_Group*o){ auto s=new GroupRec; for(int i=0;i<n;i++) for(int r=rg[i][0];rg[i][2]>0?r<=rg[i][1]:r>=rg[i][1];r+=rg[i][2]){ if(r<0||r>=(int)G(g)->ranks.size()) fail("mpi","group range names rank "+std::to_string(r)+" outside the communicator"); s->ranks.push_back(G(g)->ranks[r]); } groups.insert(s); *o=(MPI_Group)s; return 0; }
int MPI_Comm_create_group(MPI_Comm c,MPI_Group g,int tag,MPI_Comm*o){ auto r=C(c); auto gr=G(g); int w=world->ranks[world->me]; if(std::find(gr->ranks.begin(),gr->ranks.end(),w)==gr->ranks.end()){ *o=MPI_COMM_NULL; return 0; } *o=newComm(gr->ranks,h64(h64(r->ctx,77),tag),""); if(mpiSync) enterAll(C(*o),collCtx(C(*o),13)); return 0; }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*o){ auto r=C(c); int P=r->ranks.size(); std::vector<int> all(2*P); int mine[2]={color,key}; std::vector<std::pair<uint64_t,uint64_t>> sl; for(int i=0;i<P;i++) sl.push_back({(uint64_t)&all[2*i],8}); uint64_t s=r->seq; gatherAll(r,9,mine,8,sl,"MPI_Comm_split"); if(color==MPI_UNDEFINED){ *o=MPI_COMM_NULL; return 0; } std::vector<std::pair<int,int>> v; for(int i=0;i<P;i++) if(all[2*i]==color) v.push_back({all[2*i+1],i}); std::stable_sort(v.begin(),v.end()); std::vector<int> rk; for(auto&x:v) rk.push_back(r->ranks[x.second]); *o=newComm(rk,h64(h64(r->ctx,s),color),""); return 0; }
int MPI_Comm_split_type(MPI_Comm c,int type,int key,MPI_Info,MPI_Comm*o){ return MPI_Comm_split(c,type==MPI_UNDEFINED?MPI_UNDEFINED:MPI_Comm_c2f(MPI_COMM_SELF)*0+world->me,key,o); }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*,MPI_Comm_delete_attr_function*,int*k,void*){ static int n=1; *k=n++; return 0; } int MPI_Comm_set_attr(MPI_Comm,int,void*){ return 0; } int MPI_Comm_get_attr(MPI_Comm,int,void*,int*f){ *f=0; return 0; } int MPI_Comm_delete_attr(MPI_Comm,int){ return 0; }
int MPI_Barrier(MPI_Comm c){ auto r=C(c); if(r->ranks.size()==1) return 0; char x=0; std::vector<char> b(r->ranks.size()); std::vector<std::pair<uint64_t,uint64_t>> sl; for(auto&q:b) sl.push_back({(uint64_t)&q,1}); gatherAll(r,1,&x,1,sl,"MPI_Barrier"); return 0; }
static bool nowait=false;
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ auto r=C(c); if(n<0) fail("mpi","negative count"); if(d==MPI_PROC_NULL) return 0; uint64_t k=(uint64_t)n*sz(t); rd(b,k); MsgHdr*h=xsend(wrank(r,d),r->ctx*8+3,tag,(uint64_t)b,k); if(mpiSync&&!nowait) waitConsumed(h); return 0; }
int MPI_Issend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*q){ nowait=true; MPI_Send(b,n,t,d,tag,c); nowait=false; *q=(MPI_Request) new ReqRec{false,0,0,0,0,nullptr,true,{}}; return 0; }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*q){ return MPI_Issend(b,n,t,d,tag,c,q); }
int MPI_Recv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st){ auto r=C(c); if(n<0) fail("mpi","negative count"); uint64_t k=(uint64_t)n*sz(t); wr(b,k); int src,tg; uint64_t g=xrecv(s==MPI_ANY_SOURCE?s:wrank(r,s),r->ctx*8+3,tag,(uint64_t)b,k,&src,&tg); setSt(st,lrank(r,src),tg,g); return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*q){ auto r=C(c); *q=(MPI_Request) new ReqRec{true,(uint64_t)b,(uint64_t)n*sz(t),s==MPI_ANY_SOURCE?s:wrank(r,s),tag,r,false,{}}; return 0; }
int MPI_Wait(MPI_Request*q,MPI_Status*st){ if(*q==MPI_REQUEST_NULL) return 0; auto r=(ReqRec*)*q; if(r->recv&&!r->done){ int s,t; uint64_t n=xrecv(r->src,r->c->ctx*8+3,r->tag,r->buf,r->max,&s,&t); setSt(&r->st,lrank(r->c,s),t,n); } if(st&&st!=MPI_STATUS_IGNORE) *st=r->st; *q=MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*st){ for(int i=0;i<n;i++) MPI_Wait(&q[i],st==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:&st[i]); return 0; }
int MPI_Waitsome(int n,MPI_Request*q,int*oc,int*ix,MPI_Status*st){ *oc=0; for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL){ MPI_Wait(&q[i],st==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:&st[*oc]); ix[(*oc)++]=i; } if(!*oc) *oc=MPI_UNDEFINED; return 0; }
int MPI_Test(MPI_Request*q,int*f,MPI_Status*st){ MPI_Wait(q,st); *f=1; return 0; } int MPI_Testall(int n,MPI_Request*q,int*f,MPI_Status*st){ MPI_Waitall(n,q,st); *f=1; return 0; }
int MPI_Probe(int s,int tag,MPI_Comm c,MPI_Status*st){ auto r=C(c); MsgHdr*h=waitMsg(s==MPI_ANY_SOURCE?s:wrank(r,s),r->ctx*8+3,tag); setSt(st,lrank(r,h->src),h->tag,h->len); unlock(); return 0; }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ *n=s->_ucount/sz(t); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c){ auto r=C(c); if(n<0) fail("mpi","negative count"); uint64_t k=(uint64_t)n*sz(t); wrank(r,root); uint64_t ctx=collCtx(r,2); if(mpiSync) enterAll(r,collCtx(r,12)); if(r->me==root){ rd(b,k); for(size_t i=0;i<r->ranks.size();i++) if((int)i!=root) xsend(r->ranks[i],ctx,root,(uint64_t)b,k); } else { wr(b,k); uint64_t g=xrecv(r->ranks[root],ctx,root,(uint64_t)b,k); exact(g,k,"MPI_Bcast"); } return 0; }
int MPI_Allreduce(const void*s,void*d,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ auto r=C(c); uint64_t k=(uint64_t)n*sz(t); int P=r->ranks.size(); wr(d,k); if(s==MPI_IN_PLACE) s=d; rd(s,k); uint64_t tmp=heapAlloc(k*P+16,O_HEAP,"mpi"); std::vector<std::pair<uint64_t,uint64_t>> sl; for(int i=0;i<P;i++) sl.push_back({tmp+i*k,k}); gatherAll(r,3,s,k,sl,"MPI_Allreduce"); for(int i=1;i<P;i++) reduceInto(tmp,tmp+i*k,n,t,op); memCopy((uint64_t)d,tmp,k); return 0; }
int MPI_Exscan(const void*s,void*d,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ auto r=C(c); uint64_t k=(uint64_t)n*sz(t); int P=r->ranks.size(); uint64_t tmp=heapAlloc(k*P+16,O_HEAP,"mpi"); std::vector<std::pair<uint64_t,uint64_t>> sl; for(int i=0;i<P;i++) sl.push_back({tmp+i*k,k}); gatherAll(r,5,s,k,sl,"MPI_Exscan"); for(int i=1;i<r->me;i++) reduceInto(tmp,tmp+i*k,n,t,op); if(r->me>0) memCopy((uint64_t)d,tmp,k); return 0; }
int MPI_Scan(const void*s,void*d,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ auto r=C(c); uint64_t k=(uint64_t)n*sz(t); int P=r->ranks.size(); uint64_t tmp=heapAlloc(k*P+16,O_HEAP,"mpi"); std::vector<std::pair<uint64_t,uint64_t>> sl; for(int i=0;i<P;i++) sl.push_back({tmp+i*k,k}); gatherAll(r,6,s,k,sl,"MPI_Scan"); for(int i=1;i<=r->me;i++) reduceInto(tmp,tmp+i*k,n,t,op); memCopy((uint64_t)d,tmp,k); return 0; }
int MPI_Reduce(const void*s,void*d,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c){ auto r=C(c); uint64_t k=(uint64_t)n*sz(t); uint64_t tmp=heapAlloc(k+16,O_HEAP,"mpi"); if(s==MPI_IN_PLACE) s=d; MPI_Allreduce(s,(void*)tmp,n,t,op,c); if(r->me==root){ wr(d,k); memCopy((uint64_t)d,tmp,k); } return 0; }
int MPI_Reduce_scatter_block(const void*s,void*d,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ auto r=C(c); int P=r->ranks.size(); uint64_t k=(uint64_t)n*sz(t); uint64_t tmp=heapAlloc(k*P+16,O_HEAP,"mpi"); MPI_Allreduce(s,(void*)tmp,n*P,t,op,c); memCopy((uint64_t)d,tmp+k*r->me,k); return 0; }
int MPI_Allgather(const void*s,int sn,MPI_Datatype st,void*d,int rn,MPI_Datatype rt,MPI_Comm c){ auto r=C(c); uint64_t k=(uint64_t)rn*sz(rt); std::vector<std::pair<uint64_t,uint64_t>> sl; for(size_t i=0;i<r->ranks.size();i++) sl.push_back({(uint64_t)d+i*k,k}); uint64_t sk=(uint64_t)sn*sz(st); if(s==MPI_IN_PLACE){ s=(char*)d+r->me*k; sk=k; } gatherAll(r,4,s,sk,sl,"MPI_Allgather"); return 0; }
int MPI_Allgatherv(const void*s,int sn,MPI_Datatype st,void*d,const int*rn,const int*dp,MPI_Datatype rt,MPI_Comm c){ auto r=C(c); int u=sz(rt); std::vector<std::pair<uint64_t,uint64_t>> sl; rd(rn,4*r->ranks.size()); rd(dp,4*r->ranks.size()); for(size_t i=0;i<r->ranks.size();i++) sl.push_back({(uint64_t)((int64_t)(uint64_t)d+(int64_t)dp[i]*u),(uint64_t)rn[i]*u}); gatherAll(r,8,s,(uint64_t)sn*sz(st),sl,"MPI_Allgatherv"); return 0; }
int MPI_Gather(const void*s,int sn,MPI_Datatype st,void*d,int rn,MPI_Datatype rt,int root,MPI_Comm c){ auto r=C(c); uint64_t k=(uint64_t)sn*sz(st); uint64_t ctx=collCtx(r,10); if(mpiSync) enterAll(r,collCtx(r,12)); if(r->me!=root) { xsend(r->ranks[root],ctx,0,(uint64_t)s,k); return 0; } for(size_t i=0;i<r->ranks.size();i++){ if((int)i==root) memCopy((uint64_t)d+i*k,(uint64_t)s,k); else xrecv(r->ranks[i],ctx,0,(uint64_t)d+i*k,k); } return 0; }
int MPI_Alltoall(const void*s,int sn,MPI_Datatype st,void*d,int rn,MPI_Datatype rt,MPI_Comm c){ auto r=C(c); uint64_t k=(uint64_t)sn*sz(st); uint64_t ctx=collCtx(r,11); for(size_t i=0;i<r->ranks.size();i++) if((int)i!=r->me) xsend(r->ranks[i],ctx,0,(uint64_t)s+i*k,k); for(size_t i=0;i<r->ranks.size();i++){ if((int)i==r->me) memCopy((uint64_t)d+i*k,(uint64_t)s+i*k,k); else xrecv(r->ranks[i],ctx,0,(uint64_t)d+i*k,k); } return 0; }
int MPI_Type_contiguous(int n,MPI_Datatype t,MPI_Datatype*o){ void*p=malloc(8); tsize[p]=n*sz(t); *o=(MPI_Datatype)p; return 0; } int MPI_Type_commit(MPI_Datatype*){ return 0; } int MPI_Type_free(MPI_Datatype*t){ *t=MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t,int*n){ *n=sz(t); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler){ return 0; }
int MPI_Group_size(MPI_Group g,int*n){ *n=G(g)->ranks.size(); return 0; }
int MPI_Group_rank(MPI_Group g,int*n){ *n=MPI_UNDEFINED; auto&v=G(g)->ranks; for(size_t i=0;i<v.size();i++) if(v[i]==world->me) *n=i; return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ *r=C(a)==C(b)?MPI_IDENT:C(a)->ranks==C(b)->ranks?MPI_CONGRUENT:MPI_UNEQUAL; return 0; }
}
