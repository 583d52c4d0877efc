// @title Objects sent between ranks arrive equal to what was sent
// @bounds Two ranks for messages, three for broadcasts and gathers; every root; numbers, characters and matrix, vector and grid entries arbitrary; texts of 0..20 characters, vectors of 0..3 entries, matrices up to 2x3 (empty included), the receiver's earlier content empty, shorter or longer; tags 0..2, several objects in a row on one tag.
// @stubs MPI: simulated ranks with the standard's matching rules (sends complete without a receiver; no wildcards are used, so the outcome does not depend on the schedule).
// @outside More than three ranks; objects larger than the bounds; mixed machine representations.
// @entry s_scalar ranks=2 reach=done
// @entry s_text ranks=2 reach=done
// @entry s_vector ranks=2 reach=done
// @entry s_matrix ranks=2 reach=done
// @entry s_node ranks=2 reach=done
// @entry s_sequence ranks=2 reach=done
// @entry b_scalar ranks=3 reach=done
// @entry b_text ranks=3 reach=done
// @entry b_vector ranks=3 reach=done
// @entry b_matrix ranks=3 reach=done
// @entry b_grid ranks=3 reach=done
// @entry b_patch ranks=3 reach=done
// @entry b_node ranks=3 reach=done
// @entry b_sub ranks=3 reach=done
// @entry g_reduce ranks=3 reach=done
// @entry g_gather ranks=3 reach=done
// @entry g_gatherv ranks=3 reach=done
#include "tree.hpp"
#include <memory>
namespace M = EF::MPI; typedef EF::Vector<int> VI_; typedef std::vector<int> SI;
static inline void eqVr(Vec_ got,const RV& want,const char* m){ eqV(got,want,m); }
template<class T> static void p2p(T& v,int me,int from,int tag){ MPI_Status st; if(me==from) M::send(v,1-from,tag,MPI_COMM_WORLD); else M::receive(v,from,tag,MPI_COMM_WORLD,&st); }
static std::string txt(const char* nm,int len){ std::string s; for(int k=0;k<len;k++) s+=k<3?sym_char(N_(nm,k).c_str(),"0123 a"):(char)('a'+k); return s; }
static SI symIV(const char* nm,int n){ SI v(n); for(int k=0;k<n;k++) v[k]=sym_int(N_(nm,k).c_str(),-1000,1000); return v; }
struct Scal { double d; int i; bool b; char c; long l; unsigned u; float f; short h; unsigned long z; }; static Scal symScal(const char* t){ Scal s; s.d=sym_double(M_("%s d",t)); s.i=sym_int(M_("%s i",t),-1000000000,1000000000); s.b=sym_choose(M_("%s b",t),0,1); s.c=sym_char(M_("%s c",t),"ab0 "); s.l=(long)sym_int(M_("%s l",t),-5,5)*3000000000L; s.u=3000000000u+sym_int(M_("%s u",t),0,9); s.f=0.5f; s.h=(short)sym_int(M_("%s h",t),-3000,3000); s.z=(unsigned long)sym_int(M_("%s z",t),0,7)<<60; return s; }
static void eqScal(const Scal& a,const Scal& b,const char* m){ sym_check_eq(a.d,b.d,M_("%s: double",m)); sym_check(a.i==b.i,M_("%s: int",m)); sym_check(a.b==b.b,M_("%s: bool",m)); sym_check(a.c==b.c,M_("%s: char",m)); sym_check(a.l==b.l,M_("%s: long",m)); sym_check(a.u==b.u,M_("%s: unsigned",m)); sym_check(a.f==b.f,M_("%s: float",m)); sym_check(a.h==b.h,M_("%s: short",m)); sym_check(a.z==b.z,M_("%s: size",m)); }
template<class F> static void each(Scal& s,F f){ f(s.d); f(s.i); f(s.b); f(s.c); f(s.l); f(s.u); f(s.f); f(s.h); f(s.z); }
ENTRY s_scalar(){ int from=sym_choose("sender",0,1),tag=sym_choose("tag",0,2); Scal s=symScal("s"),o=symScal("o"); int me=sym_ranks(2); Scal x=me==from?s:o; each(x,[&](auto& v){ p2p(v,me,from,tag); }); eqScal(x,s,me==from?"sender":"receiver"); sym_reach("done"); }
ENTRY s_text(){ int from=sym_choose("sender",0,1); static const int Ls[]={0,1,3,15,16,20}; int n=Ls[sym_choose("length",0,5)],o=Ls[sym_choose("earlier",0,5)]; std::string s=txt("s",n),e=txt("e",o); int me=sym_ranks(2); std::string x=me==from?s:e; p2p(x,me,from,1); sym_check(x.size()==s.size(),"length of the text"); sym_check(x==s,"text"); sym_reach("done"); }
ENTRY s_vector(){ int from=sym_choose("sender",0,1),n=sym_choose("n",0,3),o=sym_choose("earlier",0,3),kind=sym_choose("kind",0,3); RV x=symRV("x",n),y=symRV("y",o); SI xi=symIV("xi",n),yi=symIV("yi",o); int me=sym_ranks(2); bool snd=me==from; const char* w=snd?"sender":"receiver";
  if(kind==0){ RV v=snd?x:y; p2p(v,me,from,2); eqVr(toV(v),x,w); } else if(kind==1){ Vec_ v=toV(snd?x:y); p2p(v,me,from,0); eqV(v,x,w); } else if(kind==2){ SI v=snd?xi:yi; p2p(v,me,from,0); sym_check(v.size()==xi.size(),M_("%s: length",w)); for(size_t k=0;k<v.size()&&k<xi.size();k++) sym_check(v[k]==xi[k],M_("%s: entry %d",w,(int)k)); } else { VI_ v(snd?xi:yi); p2p(v,me,from,0); sym_check(v.size()==xi.size()&&v.data().size()==xi.size(),M_("%s: length",w)); for(size_t k=0;k<v.data().size()&&k<xi.size();k++) sym_check(v.data()[k]==xi[k],M_("%s: entry %d",w,(int)k)); } sym_reach("done"); }
ENTRY s_matrix(){ int from=sym_choose("sender",0,1),r=sym_choose("rows",0,2),c=sym_choose("cols",0,3),o=sym_choose("earlier",0,2); RM A=symRM("A",r,c),B=symRM("B",o,o+1); int me=sym_ranks(2); Mat_ m=toM(me==from?A:B); p2p(m,me,from,1); eqM(m,A,me==from?"sender":"receiver"); sym_reach("done"); }
struct NodeC { std::string path; int level,pf,pl; bool leaf; }; static NodeC symNode(const char* t){ NodeC n; static const int Ls[]={1,2,15,18}; int L=Ls[sym_choose(M_("%s level",t),0,3)]; n.path="0"; for(int k=1;k<L;k++) n.path+=k<3?sym_char(M_("%s path %d",t,k),"0123"):(char)('0'+k%4); n.level=L-1; n.pf=sym_int(M_("%s pfirst",t),0,5); n.pl=sym_int(M_("%s plast",t),0,9); n.leaf=sym_choose(M_("%s leaf",t),0,1); return n; }
template<class N> static void setNode(N& n,const NodeC& c){ n.path=c.path; n.level=c.level; n.pfirst=c.pf; n.plast=c.pl; n.leaf=c.leaf; }
template<class N> static void eqNode(N& n,const NodeC& c,const char* m){ sym_check(n.path==c.path,M_("%s: path",m)); sym_check(n.level==c.level,M_("%s: level",m)); sym_check(n.pfirst==c.pf&&n.plast==c.pl,M_("%s: rank range",m)); sym_check((bool)n.leaf==c.leaf,M_("%s: leaf flag",m)); }
ENTRY s_node(){ int from=sym_choose("sender",0,1); NodeC s=symNode("s"),e=symNode("e"); RV x=symRV("x",2),y=symRV("y",3); int me=sym_ranks(2); EF::Node<Vec_> n(MPI_COMM_WORLD); setNode(n,me==from?s:e); n.data=toV(me==from?x:y); p2p(n,me,from,3); eqNode(n,s,me==from?"sender":"receiver"); eqV(n.data,x,me==from?"sender":"receiver"); sym_reach("done"); }
ENTRY s_sequence(){ // several objects of different sorts and sizes on one tag, in both directions
  int tag=sym_choose("tag",0,1); RV x=symRV("x",2),y=symRV("y",3); RM A=symRM("A",2,1),B=symRM("B",1,3); std::string s=txt("s",4); int k=sym_int("k",-9,9); int me=sym_ranks(2); Vec_ v=me?Vec_():toV(x); Mat_ m=me?Mat_():toM(A),m2=me?Mat_():toM(B); std::string t=me?"":s; int i=me?0:k; Vec_ v2=me?Vec_():toV(y); p2p(v,me,0,tag); p2p(m,me,0,tag); p2p(m2,me,0,tag); p2p(t,me,0,tag); p2p(i,me,0,tag); p2p(v2,me,0,tag); p2p(m2,me,1,tag); p2p(v,me,1,tag);
  eqV(v,x,"first vector"); eqM(m,A,"first matrix"); eqM(m2,B,"second matrix"); sym_check(t==s,"text"); sym_check(i==k,"number"); eqV(v2,y,"second vector"); sym_reach("done"); }
ENTRY b_scalar(){ int root=sym_choose("root",0,2); Scal s=symScal("s"),o=symScal("o"); int me=sym_ranks(3); Scal x=me==root?s:o; each(x,[&](auto& v){ M::broadcast(v,root,MPI_COMM_WORLD); }); eqScal(x,s,me==root?"root":"other rank"); sym_reach("done"); }
ENTRY b_text(){ int root=sym_choose("root",0,2); static const int Ls[]={0,1,15,16,20}; int n=Ls[sym_choose("length",0,4)],o=Ls[sym_choose("earlier",0,4)]; std::string s=txt("s",n),e=txt("e",o); int me=sym_ranks(3); std::string x=me==root?s:e; M::broadcast(x,root,MPI_COMM_WORLD); sym_check(x.size()==s.size(),"length of the text"); sym_check(x==s,"text"); sym_reach("done"); }
ENTRY b_vector(){ int root=sym_choose("root",0,2),n=sym_choose("n",0,3),o=sym_choose("earlier",0,3),kind=sym_choose("kind",0,3); RV x=symRV("x",n),y=symRV("y",o); SI xi=symIV("xi",n),yi=symIV("yi",o); int me=sym_ranks(3); bool r=me==root; const char* w=r?"root":"other rank";
  if(kind==0){ RV v=r?x:y; M::broadcast(v,root,MPI_COMM_WORLD); eqVr(toV(v),x,w); } else if(kind==1){ Vec_ v=toV(r?x:y); M::broadcast(v,root,MPI_COMM_WORLD); eqV(v,x,w); } else if(kind==2){ SI v=r?xi:yi; M::broadcast(v,root,MPI_COMM_WORLD); sym_check(v.size()==xi.size(),M_("%s: length",w)); for(size_t k=0;k<v.size()&&k<xi.size();k++) sym_check(v[k]==xi[k],M_("%s: entry %d",w,(int)k)); } else { VI_ v(r?xi:yi); M::broadcast(v,root,MPI_COMM_WORLD); sym_check(v.size()==xi.size()&&v.data().size()==xi.size(),M_("%s: length",w)); for(size_t k=0;k<v.data().size()&&k<xi.size();k++) sym_check(v.data()[k]==xi[k],M_("%s: entry %d",w,(int)k)); } sym_reach("done"); }
ENTRY b_matrix(){ int root=sym_choose("root",0,2),r=sym_choose("rows",0,2),c=sym_choose("cols",0,3),o=sym_choose("earlier",0,2); RM A=symRM("A",r,c),B=symRM("B",o,o+1); int me=sym_ranks(3); Mat_ m=toM(me==root?A:B); M::broadcast(m,root,MPI_COMM_WORLD); eqM(m,A,me==root?"root":"other rank"); sym_reach("done"); }
static Rect symR(const char* t){ Rect r; r.xl=sym_double(M_("%s xl",t)); r.xu=sym_double(M_("%s xu",t)); r.yl=sym_double(M_("%s yl",t)); r.yu=sym_double(M_("%s yu",t)); return r; }
static void eqGrid(EF::FiniteVolumeGrid& g,const Rect& r,int nx,int ny,const char* m){ eqRect(g,r,nx,ny,m); sym_check_eq(g(0,1)*(2*nx),r.xl*(2*nx)+3*(r.xu-r.xl),M_("%s: second column",m)); sym_check_eq(g(1,0)*(2*ny),r.yl*(2*ny)+(r.yu-r.yl),M_("%s: first row",m)); }
ENTRY b_grid(){ int root=sym_choose("root",0,2),nx=sym_choose("nx",1,4),ny=sym_choose("ny",1,4); Rect r=symR("r"),e=symR("e"); int me=sym_ranks(3); EF::FiniteVolumeGrid g=me==root?EF::FiniteVolumeGrid(MPI_COMM_WORLD,nx,r.xl,r.xu,ny,r.yl,r.yu):me==2?EF::FiniteVolumeGrid():EF::FiniteVolumeGrid(MPI_COMM_SELF,3,e.xl,e.xu,5,e.yl,e.yu); M::broadcast(g,root,MPI_COMM_WORLD); eqGrid(g,r,nx,ny,me==root?"root":"other rank"); sym_reach("done"); }
struct PCont { Rect r; int nx,ny,nc; RM A[4]; RV v[6]; }; // content of a patch
static PCont symPatch(const char* t,int var){ PCont p; p.r=symR(t); p.nx=2+2*var; p.ny=4-var; p.nc=sym_int(M_("%s coarsenings",t),0,5); for(int k=0;k<4;k++) p.A[k]=symRM(M_("%s M%d",t,k),var==2?0:1+(k+var)%2,var==2?0:1+k%3); for(int k=0;k<6;k++) p.v[k]=symRV(M_("%s v%d",t,k),var==2?0:(k+var)%4); return p; }
static void setPatch(Patch_& p,const PCont& c){ p.n_coarsens=c.nc; p.grid()=EF::FiniteVolumeGrid(MPI_COMM_WORLD,c.nx,c.r.xl,c.r.xu,c.ny,c.r.yl,c.r.yu); p.matrixX()=toM(c.A[0]); p.matrixH()=toM(c.A[1]); p.matrixS()=toM(c.A[2]); p.matrixT()=toM(c.A[3]); p.vectorU()=toV(c.v[0]); p.vectorG()=toV(c.v[1]); p.vectorV()=toV(c.v[2]); p.vectorF()=toV(c.v[3]); p.vectorH()=toV(c.v[4]); p.vectorW()=toV(c.v[5]); }
static void eqPatch(Patch_& p,const PCont& c,const char* m){ sym_check(p.n_coarsens==c.nc,M_("%s: coarsenings",m)); eqGrid(p.grid(),c.r,c.nx,c.ny,m); eqM(p.matrixX(),c.A[0],M_("%s: X",m)); eqM(p.matrixH(),c.A[1],M_("%s: H",m)); eqM(p.matrixS(),c.A[2],M_("%s: S",m)); eqM(p.matrixT(),c.A[3],M_("%s: T",m)); eqV(p.vectorU(),c.v[0],M_("%s: u",m)); eqV(p.vectorG(),c.v[1],M_("%s: g",m)); eqV(p.vectorV(),c.v[2],M_("%s: v",m)); eqV(p.vectorF(),c.v[3],M_("%s: f",m)); eqV(p.vectorH(),c.v[4],M_("%s: h",m)); eqV(p.vectorW(),c.v[5],M_("%s: w",m)); }
// what is communicated does not depend on the application's options
static void opt3(){ int k=sym_choose("homogeneous-rhs",0,2); auto& o=EF::EllipticForestApp::getInstance().options; if(k) o.setOption("homogeneous-rhs",k==2); if(k==2) o.setOption("cache-operators",true); }
ENTRY b_patch(){ opt3(); int root=sym_choose("root",0,2); PCont c=symPatch("p",sym_choose("content",0,2)),e=symPatch("e",sym_choose("earlier",0,2)); int me=sym_ranks(3); Patch_ p(MPI_COMM_WORLD); setPatch(p,me==root?c:e); M::broadcast(p,root,MPI_COMM_WORLD); eqPatch(p,c,me==root?"root":"other rank"); sym_reach("done"); }
ENTRY b_node(){ opt3(); int root=sym_choose("root",0,2); NodeC s=symNode("s"),e=symNode("e"); PCont c=symPatch("p",1),o=symPatch("o",0); bool fresh=sym_choose("fresh",0,1); int me=sym_ranks(3); Node_ n(MPI_COMM_WORLD); if(me==root){ setNode(n,s); setPatch(n.data,c); } else if(!fresh){ setNode(n,e); setPatch(n.data,o); } M::broadcast(n,root,MPI_COMM_WORLD); eqNode(n,s,me==root?"root":"other rank"); eqPatch(n.data,c,me==root?"root":"other rank"); sym_reach("done"); }
ENTRY b_sub(){ // on a communicator of a range of ranks, and two communicators at a time
  int first=sym_choose("first",0,2),last=sym_choose("last",first,2),root=sym_choose("root",0,last-first); RV x=symRV("x",2),y=symRV("y",1); int me=sym_ranks(3); MPI_Comm c=MPI_COMM_NULL; M::communicatorSubsetRange(MPI_COMM_WORLD,first,last,0,&c); bool in=first<=me&&me<=last; sym_check(in==(c!=MPI_COMM_NULL),"exactly the ranks of the range get the communicator"); Vec_ v=toV(me==first+root?x:y); if(in&&c!=MPI_COMM_NULL){ int sz,rk; MPI_Comm_size(c,&sz); MPI_Comm_rank(c,&rk); sym_check(sz==last-first+1&&rk==me-first,"size and rank in the range"); M::broadcast(v,root,c); eqV(v,x,"rank of the range"); M::communicatorSetName(c,"mine"); sym_check(M::communicatorGetName(c)=="mine","name of the communicator"); MPI_Comm_free(&c); } else eqV(v,y,"rank outside the range"); Vec_ w=toV(me==1?x:y); M::broadcast(w,1,MPI_COMM_WORLD); eqV(w,x,"broadcast to all afterwards"); sym_reach("done"); }
ENTRY g_reduce(){ RV x=symRV("x",3),y=symRV("y",3),z=symRV("z",3); SI k=symIV("k",3); int me=sym_ranks(3); double s=x[me],r=7; M::allreduce(s,r,MPI_SUM,MPI_COMM_WORLD); sym_check_eq(r,x[0]+x[1]+x[2],"sum"); sym_check_eq(s,x[me],"own value"); int a=k[me],b=0; M::allreduce(a,b,MPI_MAX,MPI_COMM_WORLD); sym_check((b>=k[0])&(b>=k[1])&(b>=k[2])&((b==k[0])|(b==k[1])|(b==k[2])),"maximum"); M::allreduce(a,b,MPI_MIN,MPI_COMM_WORLD); sym_check((b<=k[0])&(b<=k[1])&(b<=k[2])&((b==k[0])|(b==k[1])|(b==k[2])),"minimum"); RV v={x[me],y[me],z[me]},w(3,1.0); M::allreduce(v,w,MPI_SUM,MPI_COMM_WORLD); sym_check_eq(w[0],x[0]+x[1]+x[2],"first of the sums"); sym_check_eq(w[1],y[0]+y[1]+y[2],"second of the sums"); sym_check_eq(w[2],z[0]+z[1]+z[2],"third of the sums"); sym_reach("done"); }
ENTRY g_gather(){ int n=sym_choose("n",1,2); RV x=symRV("x",6); SI k=symIV("k",3); int me=sym_ranks(3); RV s(x.begin()+me*n,x.begin()+me*n+n),r(3*n,0.0); M::allgather(s,r,n,MPI_COMM_WORLD); eqVr(toV(r),RV(x.begin(),x.begin()+3*n),"gathered"); Vec_ vs=toV(s),vr=toV(RV(3*n,0.0)); M::allgather(vs,vr,n,MPI_COMM_WORLD); eqV(vr,RV(x.begin(),x.begin()+3*n),"gathered vector"); eqV(vs,s,"own part"); struct { int a[3]; } q; int one=k[me]; M::allgather(one,q.a[0],1,MPI_COMM_WORLD); for(int i=0;i<3;i++) sym_check(q.a[i]==k[i],"gathered numbers"); sym_reach("done"); }
ENTRY g_gatherv(){ SI cnt(3),dis(3); int at=0,rev=sym_choose("reversed",0,1),gap=sym_choose("gap",0,1); for(int r=0;r<3;r++) cnt[r]=sym_choose(N_("count",r).c_str(),rev?1:0,2); for(int q=0;q<3;q++){ int r=rev?2-q:q; dis[r]=at; at+=cnt[r]+gap; } RV x=symRV("x",6); SI k=symIV("k",3); RV want(at,0.5); for(int r=0;r<3;r++) for(int i=0;i<cnt[r];i++) want[dis[r]+i]=x[2*r+i]; int me=sym_ranks(3); RV s(x.begin()+2*me,x.begin()+2*me+cnt[me]),r(at,0.5); M::allgatherv(s,r,cnt,dis,MPI_COMM_WORLD); eqVr(toV(r),want,"gathered"); eqVr(toV(s),RV(x.begin()+2*me,x.begin()+2*me+cnt[me]),"own part"); Vec_ vs=toV(s),vr=toV(RV(at,0.5)); M::allgatherv(vs,vr,cnt,dis,MPI_COMM_WORLD); eqV(vr,want,"gathered vector");
  int one=k[me],a[6]={0,0,0,0,0,0}; SI c1={1,1,1},d1={rev?2:0,1,rev?0:2}; M::allgatherv(one,a[0],c1,d1,MPI_COMM_WORLD); for(int i=0;i<3;i++) sym_check(a[d1[i]]==k[i],"gathered numbers"); sym_reach("done"); }
