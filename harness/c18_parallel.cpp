// @title Parallel merge and split give the same result for every partition
// @bounds Every shape of up to two levels on two ranks with every contiguous partition that leaves no rank without leaves; one level, and two levels with one refined child, on three (thorough four) ranks likewise; merge, split and merge-then-split with every member of the patches carried; build, upward sweep and solve of 2x2-cell patches on two and three ranks with concrete geometry.
// @stubs p4est and MPI: models; sends end when their message is taken and collectives synchronise (the weakest progress MPI promises). FISHPACK: contract of hstcrt. BLAS, LAPACK, PETSc: contracts.
// @assume No rank is without leaves (see the known finding for ranks without leaves).
// @outside More ranks, deeper or bushier forests.
// @entry p_merge2 ranks=2 reach=done
// @entry p_split2 ranks=2 reach=done
// @entry p_merge3 ranks=3 reach=done
// @entry p_split3 ranks=3 reach=done
// @entry p_both ranks=3 reach=done
// @entry p_ends ranks=3 reach=done
// @entry p_gap ranks=3
// @entry p_hps2 ranks=2 reach=done
// @entry p_hps3 ranks=3 reach=done
// @entry p_four tier=thorough ranks=4 reach=done
#include "tree.hpp"
// what every node holds after the merge: a fold of its leaves' data
struct Val_ { Rect r; int nc; RV h,f; RM T,X; RV g; };
typedef std::map<std::string,Val_> Ref_;
static Val_ leafVal(const QInfo& q,int k){ Val_ v; v.r=q.r; v.nc=k%3; const char* p=q.path.c_str(); v.h=symRV(M_("h%s",p),1+(int)(k%2)); v.f=symRV(M_("f%s",p),k%3==1?0:1); v.T=symRM(M_("T%s",p),1,1+(k%2)); return v; }
static Val_ fold(const Rect& r,const Val_* c[4]){ Val_ v; v.r=r; v.nc=1; double t=0; for(int i=0;i<4;i++){ v.nc+=c[i]->nc*(i+1); for(double x:c[i]->h) v.h.push_back(x*(i+2)); t+=(i+1)*c[i]->T(0,0); if(c[i]->f.size()) v.f.push_back(c[i]->f[0]+i); } v.T=RM(1,1); v.T(0,0)=t; v.X=RM(2,1); v.X(0,0)=t; for(int i=0;i<4;i++) if(c[i]->X.r) v.X(1,0)+=c[i]->X(1,0)*(i+1); return v; }
static RV giveG(const Val_& parent,const Val_& child,int i){ RV g; for(double x:parent.g) g.push_back(x*(i+1)); g.push_back(child.h[0]); return g; }
static void put(Patch_& p,const Val_& v){ p.n_coarsens=v.nc; p.vectorH()=toV(v.h); p.vectorF()=toV(v.f); p.matrixT()=toM(v.T); if(v.X.r) p.matrixX()=toM(v.X); }
static Val_ get(Patch_& p){ Val_ v; v.nc=p.n_coarsens; v.h=getV(p.vectorH()); v.f=getV(p.vectorF()); v.T=RM(1,1); v.T(0,0)=p.matrixT()(0,0); if(p.matrixX().nRows()==2){ v.X=RM(2,1); v.X(0,0)=p.matrixX()(0,0); v.X(1,0)=p.matrixX()(1,0); } return v; }
static void eqVal(Patch_& p,const Val_& v,const char* m){ sym_check(p.n_coarsens==v.nc,M_("%s: coarsenings",m)); sym_check((int)p.grid().nx()==1&&(int)p.grid().ny()==2,M_("%s: cell counts",m)); sym_check_eq(p.grid().xLower(),v.r.xl,M_("%s: west edge",m)); sym_check_eq(p.grid().xUpper(),v.r.xu,M_("%s: east edge",m)); sym_check_eq(p.grid().yLower(),v.r.yl,M_("%s: south edge",m)); sym_check_eq(p.grid().yUpper(),v.r.yu,M_("%s: north edge",m)); eqV(p.vectorH(),v.h,M_("%s: particular fluxes",m)); eqV(p.vectorF(),v.f,M_("%s: right-hand side",m)); eqM(p.matrixT(),v.T,M_("%s: operator",m)); eqM(p.matrixX(),v.X,M_("%s: second operator",m)); eqV(p.vectorG(),v.g,M_("%s: boundary data",m)); }
static void eqNodeQ(Node_* n,const QInfo& q,const char* m){ sym_check(n->path==q.path,M_("%s: path",m)); sym_check(n->level==q.level,M_("%s: level",m)); sym_check(n->pfirst==q.pfirst&&n->plast==q.plast,M_("%s: rank range",m)); sym_check((n->leaf!=0)==q.leaf,M_("%s: leaf flag",m)); }
struct Case { Forest_ f; Shape s; Ref_ leaf,merged,full; RV g0; std::map<std::string,const QInfo*> at; };
static void prepare(Case& c){ int k=0; for(auto&q:c.f.q){ c.at[q.path]=&q; if(q.leaf) c.merged[q.path]=leafVal(q,k++); } for(int i=(int)c.f.q.size()-1;i>=0;i--){ auto&q=c.f.q[i]; if(q.leaf) continue; const Val_* ch[4]; for(int j=0;j<4;j++) ch[j]=&c.merged[q.path+(char)('0'+j)]; c.merged[q.path]=fold(q.r,ch); }
  c.g0=symRV("g",2); c.full=c.merged; c.full["0"].g=c.g0; for(auto&q:c.f.q) if(!q.leaf) for(int j=0;j<4;j++){ std::string p=q.path+(char)('0'+j); c.full[p].g=giveG(c.full[q.path],c.full[p],j); } }
static void all(Tree_& t,Case& c,Ref_& ref,const char* m){ int me; MPI_Comm_rank(MPI_COMM_WORLD,&me); for(auto&q:c.f.q) if(shared(q,me)){ Node_* n=t.map[q.path]; const char* w=M_("%s, rank %d, node %s",m,me,q.path.c_str()); sym_check(n!=nullptr,w); if(!n) continue; eqNodeQ(n,q,w); eqVal(n->data,ref[q.path],w); } }
static int localFamilies(Case& c,int me,bool leaves){ int n=0; for(auto&q:c.f.q) if(q.leaf==leaves&&shared(q,me)) n++; return n; }
static void doMerge(Tree_& t,Case& c){ int me; MPI_Comm_rank(MPI_COMM_WORLD,&me); int leaves=0,fams=0; t.merge([&](Node_* n){ leaves++; put(n->data,c.merged[n->path]); return 1; },[&](Node_* n,std::vector<Node_*> ch){ fams++; const char* w=M_("merge, rank %d, family %s",me,n->path.c_str()); sym_check(ch.size()==4,w); const Val_* v[4]; Val_ got[4]; for(int i=0;i<4;i++){ sym_check(ch[i]!=nullptr,w); auto&ref=c.merged[n->path+(char)('0'+i)]; const char* wc=M_("merge, rank %d, child %d of %s",me,i,n->path.c_str()); eqNodeQ(ch[i],*c.at[n->path+(char)('0'+i)],wc); eqVal(ch[i]->data,ref,wc); got[i]=get(ch[i]->data); v[i]=&got[i]; } Val_ p=fold(c.at[n->path]->r,v); put(n->data,p); return 1; });
  if(c.f.first[me]==c.f.first[me+1]) return; // such a rank has nothing to visit
  sym_check(leaves==localFamilies(c,me,true),M_("merge, rank %d: every leaf once",me)); sym_check(fams==localFamilies(c,me,false),M_("merge, rank %d: every family once",me)); all(t,c,c.merged,"after the merge"); }
static void doSplit(Tree_& t,Case& c,bool preset){ int me; MPI_Comm_rank(MPI_COMM_WORLD,&me); if(preset) for(auto&q:c.f.q) if(shared(q,me)) put(t.map[q.path]->data,c.merged[q.path]); if(shared(c.f.q[0],me)) t.map["0"]->data.vectorG()=toV(c.g0); int leaves=0,fams=0;
  t.split([&](Node_* n){ leaves++; eqVal(n->data,c.full[n->path],M_("split, rank %d, leaf %s",me,n->path.c_str())); return 1; },[&](Node_* n,std::vector<Node_*> ch){ fams++; const char* w=M_("split, rank %d, family %s",me,n->path.c_str()); eqVal(n->data,c.full[n->path],w); sym_check(ch.size()==4,w); Val_ pv; pv.g=getV(n->data.vectorG()); for(int i=0;i<4;i++){ sym_check(ch[i]!=nullptr,w); const char* wc=M_("split, rank %d, child %d of %s",me,i,n->path.c_str()); eqNodeQ(ch[i],*c.at[n->path+(char)('0'+i)],wc); eqVal(ch[i]->data,c.merged[n->path+(char)('0'+i)],wc); Val_ cv=get(ch[i]->data); ch[i]->data.vectorG()=toV(giveG(pv,cv,i)); } return 1; });
  sym_check(leaves==localFamilies(c,me,true),M_("split, rank %d: every leaf once",me)); sym_check(fams==localFamilies(c,me,false),M_("split, rank %d: every family once",me)); all(t,c,c.full,"after the split"); }
static Shape small(int P){ Shape s; s.maxl=2; s.split={"0"}; int k=sym_choose("refined child",-1,3); if(k>=0) s.split.push_back(std::string("0")+(char)('0'+k)); return s; }
// partitions with ranks without leaves: at the ends only (they share no quadrant), or between others (they share their ancestors)
static void pickGaps(Forest_& f,bool middle){ pickPartition(f,true); bool empty=false,gap=false; long n=f.leaves; for(int r=0;r<f.P;r++) if(f.first[r]==f.first[r+1]){ empty=true; if(f.first[r]>0&&f.first[r]<n) gap=true; } sym_assume(empty&&gap==middle); }
static void run(const Shape& s,int P,int what,int how=0){ Case c; c.s=s; c.f=plan(s,Rect{0,1,-1,1},P); if(how==0) pickPartition(c.f,false); else pickGaps(c.f,how==2); prepare(c); sym_ranks(P); grow(c.f,s); Patch_ root=rootPatch(Rect{0,1,-1,1},1,2); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); Tree_ t(MPI_COMM_WORLD,c.f.p,root,fac); if(what==0) doMerge(t,c); else if(what==1) doSplit(t,c,true); else { doMerge(t,c); doSplit(t,c,false); } fell(c.f); sym_reach("done"); }
ENTRY p_merge2(){ Shape s=pickShape(2); if(s.split.empty()) sym_assume(0); run(s,2,0); }
ENTRY p_split2(){ Shape s=pickShape(2); if(s.split.empty()) sym_assume(0); run(s,2,1); }
ENTRY p_merge3(){ run(small(3),3,0); }
ENTRY p_split3(){ run(small(3),3,1); }
ENTRY p_both(){ run(small(3),3,2); }
ENTRY p_ends(){ run(small(3),3,2,1); }
ENTRY p_gap(){ Shape s; s.maxl=1; s.split={"0"}; run(s,3,0,2); }
ENTRY p_four(){ run(small(4),4,2); }
// the whole method over ranks: every rank's leaves are broadcast and the assembled solution must satisfy the global discrete equations
static bool gatherRanks(World& w,int level,Global& o,int P,const char* m){ int n=w.n,N=n<<level,me; MPI_Comm_rank(MPI_COMM_WORLD,&me); o.g=Geo{N,w.r.xl,w.r.xu,w.r.yl,w.r.yu}; o.u.assign(N*N,0.0); o.f=o.u; o.G.assign(4*N,0.0); o.seen.assign(N*N,0); bool ok=true; auto L=leavesOf(w.mesh);
  for(int r=0;r<P;r++){ int cnt=L.size(); MPI_Bcast(&cnt,1,MPI_INT,r,MPI_COMM_WORLD); for(int l=0;l<cnt;l++){ int pos[2]={0,0}; RV u(n*n,0.0),gg(4*n,0.0),ff(n*n,0.0); if(me==r){ auto& p=*L[l].p; auto& gr=p.grid(); pos[0]=(int)floor((gr.xLower()-w.r.xl)/o.g.dx()+0.5); pos[1]=(int)floor((gr.yLower()-w.r.yl)/o.g.dy()+0.5); sym_check(p.vectorU().size()==(size_t)n*n&&p.vectorG().size()==(size_t)4*n&&p.vectorF().size()==(size_t)n*n,M_("%s: lengths of a leaf's vectors",m)); u=getV(p.vectorU()); gg=getV(p.vectorG()); ff=getV(p.vectorF()); u.resize(n*n); gg.resize(4*n); ff.resize(n*n); }
      MPI_Bcast(pos,2,MPI_INT,r,MPI_COMM_WORLD); MPI_Bcast(u.data(),n*n,MPI_DOUBLE,r,MPI_COMM_WORLD); MPI_Bcast(gg.data(),4*n,MPI_DOUBLE,r,MPI_COMM_WORLD); MPI_Bcast(ff.data(),n*n,MPI_DOUBLE,r,MPI_COMM_WORLD); int ox=pos[0],oy=pos[1]; if(ox<0||oy<0||ox+n>N||oy+n>N){ ok=false; continue; }
      for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int k=ix(o.g,ox+i,oy+j); if(o.seen[k]) ok=false; o.seen[k]=1; o.u[k]=u[j+i*n]; o.f[k]=ff[j+i*n]; } for(int k=0;k<n;k++){ if(ox==0) o.G[oy+k]=gg[k]; if(ox+n==N) o.G[N+oy+k]=gg[n+k]; if(oy==0) o.G[2*N+ox+k]=gg[2*n+k]; if(oy+n==N) o.G[3*N+ox+k]=gg[3*n+k]; } } }
  for(char c:o.seen) if(!c) ok=false; sym_check(ok,M_("%s: the leaves of all ranks carry one solution value per cell",m)); return ok; }
static void hps(int P,int level,int rc,int kind,bool hom){ int n=2; setOpts(hom,false); sym_ranks(P); World w(rectChoice(rc,n<<level),n); w.uniform(level); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); SymFn f; f.nm="f"; BC bc(kind); runBuild(H); if(!hom) runUp(H,f); runSolve(H,bc); Global o; if(gatherRanks(w,level,o,P,"distributed")){ checkGlobal(o,f,hom,"distributed"); checkBC(o,bc,"distributed"); } sym_reach("done"); }
ENTRY p_hps2(){ int k=sym_choose("case",0,2); hps(2,1,k,k==0?2:k==1?0:3,k==2); }
ENTRY p_hps3(){ hps(3,TH(1,2),1,2,false); }
