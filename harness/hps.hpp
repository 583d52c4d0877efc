// HPS helpers: families of patches with given operators, and what the merge, the upward sweep and the split must deliver.
#pragma once
#include "fv.hpp"
#include <Mesh.hpp>
#include <HPSAlgorithm.hpp>
typedef EF::FiniteVolumePatch Patch_; typedef EF::Mesh<Patch_> Mesh_; typedef EF::Node<Patch_> Node_;
typedef EF::HPSAlgorithm<EF::FiniteVolumeGrid,EF::FiniteVolumeSolver,EF::FiniteVolumePatch,double> HPS_;
static inline void setOpts(bool homogeneous,bool cache){ auto& o=EF::EllipticForestApp::getInstance().options; o.setOption("homogeneous-rhs",homogeneous); o.setOption("cache-operators",cache); }
struct Rect { double xl,xu,yl,yu; Rect child(int c) const { double xm=(xl+xu)/2,ym=(yl+yu)/2; return Rect{c%2?xm:xl,c%2?xu:xm,c/2?ym:yl,c/2?yu:ym}; } };
static inline EF::FiniteVolumeGrid gridR(int n,Rect r){ return EF::FiniteVolumeGrid(MPI_COMM_SELF,n,r.xl,r.xu,n,r.yl,r.yu); }
static inline Patch_ patchR(int n,Rect r){ return Patch_(MPI_COMM_SELF,gridR(n,r)); }
static inline RV seg(const RV& v,int s,int n){ return RV(v.begin()+s,v.begin()+s+n); } // side s of length n
// a family with children whose boundary has n nodes per side
struct Family { int n=0; Patch_ tau,c[4]; RM T[4]; RV h[4];
  Patch_& operator[](int i){ return c[i]; } };
static inline void checkInnerOuter(const RV* G,const RV& g,int n,const char* m){ // children data: outer sides from the parent's, inner sides shared
  for(int k=0;k<n;k++){
    sym_check_eq(G[0][k],g[k],M_("%s: lower-left west %d",m,k)); sym_check_eq(G[2][k],g[n+k],M_("%s: upper-left west %d",m,k)); sym_check_eq(G[1][n+k],g[2*n+k],M_("%s: lower-right east %d",m,k)); sym_check_eq(G[3][n+k],g[3*n+k],M_("%s: upper-right east %d",m,k));
    sym_check_eq(G[0][2*n+k],g[4*n+k],M_("%s: lower-left south %d",m,k)); sym_check_eq(G[1][2*n+k],g[5*n+k],M_("%s: lower-right south %d",m,k)); sym_check_eq(G[2][3*n+k],g[6*n+k],M_("%s: upper-left north %d",m,k)); sym_check_eq(G[3][3*n+k],g[7*n+k],M_("%s: upper-right north %d",m,k));
    sym_check_eq(G[0][n+k],G[1][k],M_("%s: value shared by lower-left and lower-right, %d",m,k)); sym_check_eq(G[2][n+k],G[3][k],M_("%s: value shared by upper-left and upper-right, %d",m,k)); sym_check_eq(G[0][3*n+k],G[2][2*n+k],M_("%s: value shared by lower-left and upper-left, %d",m,k)); sym_check_eq(G[1][3*n+k],G[3][2*n+k],M_("%s: value shared by lower-right and upper-right, %d",m,k)); } }
static inline void checkBalance(const RV* F,int n,const char* m){ // fluxes (positive in +x/+y) agree on the four interfaces
  for(int k=0;k<n;k++){ sym_check_eq(F[0][n+k],F[1][k],M_("%s: flux across lower-left | lower-right, %d",m,k)); sym_check_eq(F[2][n+k],F[3][k],M_("%s: flux across upper-left | upper-right, %d",m,k)); sym_check_eq(F[0][3*n+k],F[2][2*n+k],M_("%s: flux across lower-left | upper-left, %d",m,k)); sym_check_eq(F[1][3*n+k],F[3][2*n+k],M_("%s: flux across lower-right | upper-right, %d",m,k)); } }
static inline RV outer(const RV* F,int n){ RV o; int who[8]={0,2,1,3,0,1,2,3},side[8]={0,0,1,1,2,2,3,3}; for(int s=0;s<8;s++) for(int k=0;k<n;k++) o.push_back(F[who[s]][side[s]*n+k]); return o; } // west, east, south, north of the parent
static inline bool shapes(Patch_* c,int n,const char* m){ bool ok=true; for(int i=0;i<4;i++) if(c[i].vectorG().size()!=(size_t)4*n||c[i].vectorG().dataNoConst().size()!=(size_t)4*n) ok=false; sym_check(ok,M_("%s: boundary data of a child has the wrong length",m)); return ok; }
static inline void symFamily(Family& f,int n,Rect r,bool withH,const char* pre=""){ f.n=n; std::string P(pre); f.tau.grid()=gridR(n,r); for(int i=0;i<4;i++){ f.c[i].grid()=gridR(n,r.child(i)); f.T[i]=symRM((P+N_("T",i)).c_str(),4*n,4*n); f.c[i].matrixT()=toM(f.T[i]); f.h[i]=withH?symRV((P+N_("h",i)).c_str(),4*n):RV(4*n,0.0); if(withH) f.c[i].vectorH()=toV(f.h[i]); } }
static inline void mergeF(HPS_& H,Family& f){ H.merge4to1(f.tau,f.c[0],f.c[1],f.c[2],f.c[3]); }
static inline void upF(HPS_& H,Family& f){ H.upwards4to1(f.tau,f.c[0],f.c[1],f.c[2],f.c[3]); }
static inline bool splitF(HPS_& H,Family& f,const RV& g,RV* G,const char* m){ f.tau.vectorG()=toV(g); H.split1to4(f.tau,f.c[0],f.c[1],f.c[2],f.c[3]); if(!shapes(f.c,f.n,m)) return false; for(int i=0;i<4;i++) G[i]=getV(f.c[i].vectorG()); return true; }
// which rows of the solution operator belong to which interface (lower-left|upper-left, lower-right|upper-right, lower-left|lower-right, upper-left|upper-right)
static inline void iface(const RV* G,int n,RV* I){ I[0]=seg(G[0],3*n,n); I[1]=seg(G[1],3*n,n); I[2]=seg(G[0],n,n); I[3]=seg(G[2],n,n); } // lower-left|upper-left, lower-right|upper-right, lower-left|lower-right, upper-left|upper-right
static inline bool probe(HPS_& H,Family& f,int* where){ int n=f.n; f.tau.matrixS()=toM(RM(4*n,8*n)); RV w(4*n); for(int k=0;k<4*n;k++) w[k]=100+k; f.tau.vectorW()=toV(w); RV G[4],I[4]; if(!splitF(H,f,RV(4*f.tau.size(),0.0),G,"probe")) return false; iface(G,n,I); int seen=0;
  for(int b=0;b<4;b++){ int p=((int)I[b][0]-100)/n; sym_check(I[b][0]>=100&&p<4,"an interface takes its values from the solution operator's rows"); if(!(I[b][0]>=100&&p<4)) return false; where[b]=p; seen|=1<<p; for(int k=0;k<n;k++) sym_check_eq(I[b][k],100+p*n+k,"interface values keep their order"); } sym_check(seen==15,"the four interfaces take different rows"); return seen==15; }
// a mesh and solver run end to end
struct LeafRef { std::string path; Patch_* p; };
static inline std::vector<LeafRef> leavesOf(Mesh_& m){ std::vector<LeafRef> v; m.quadtree.traversePreOrder([&](Node_* nd){ if(nd->leaf) v.push_back({nd->path,&nd->data}); return 1; }); return v; }
static inline Rect rectChoice(int k,int n){ double s=n; switch(k){ case 0: return {0,0.5*s,0,0.5*s}; case 1: return {0.25,0.25+0.5*s,-1,-1+0.25*s}; default: return {-2,-2+0.25*s,3,3+s}; } }
struct World { Rect r; int n; Patch_ root; EF::FiniteVolumeNodeFactory fac; Mesh_ mesh; EF::FiniteVolumeSolver sol;
  World(Rect r,int n):r(r),n(n),root(MPI_COMM_WORLD,EF::FiniteVolumeGrid(MPI_COMM_WORLD,n,r.xl,r.xu,n,r.yl,r.yu)),fac(MPI_COMM_WORLD){ sol=solverOf(fixA,fixB,fixL); }
  void refine(std::function<bool(double,double)> fn,int lo,int hi){ mesh.refineByFunction(fn,1.0,lo,hi,root,fac); }
  void uniform(int level){ refine([](double,double){ return false; },level,level); } };
// global cell values and boundary data of a uniform mesh gathered from the leaves by position
struct Global { Geo g; RV u,G,f; std::vector<char> seen; };
static inline bool gather(World& w,int level,Global& o,const char* m){ int n=w.n,N=n<<level; o.g=Geo{N,w.r.xl,w.r.xu,w.r.yl,w.r.yu}; o.u.assign(N*N,0.0); o.f=o.u; o.G.assign(4*N,0.0); o.seen.assign(N*N,0); bool ok=true;
  for(auto& L:leavesOf(w.mesh)){ auto& gr=L.p->grid(); int ox=(int)floor((gr.xLower()-w.r.xl)/o.g.dx()+0.5),oy=(int)floor((gr.yLower()-w.r.yl)/o.g.dy()+0.5); Vec_&U=L.p->vectorU(),&G=L.p->vectorG(),&F=L.p->vectorF(); if(U.size()!=(size_t)n*n||G.size()!=(size_t)4*n||F.size()!=(size_t)n*n||ox<0||oy<0||ox+n>N||oy+n>N){ ok=false; continue; } RV u=getV(U),gg=getV(G),ff=getV(F);
    for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int k=ix(o.g,ox+i,oy+j); if(o.seen[k]) ok=false; o.seen[k]=1; o.u[k]=u[j+i*n]; o.f[k]=ff[j+i*n]; }
    for(int k=0;k<n;k++){ if(ox==0) o.G[oy+k]=gg[k]; if(ox+n==N) o.G[N+oy+k]=gg[n+k]; if(oy==0) o.G[2*N+ox+k]=gg[2*n+k]; if(oy+n==N) o.G[3*N+ox+k]=gg[3*n+k]; } }
  for(char c:o.seen) if(!c) ok=false; sym_check(ok,M_("%s: the leaves do not carry one solution value per cell of the domain",m)); return ok; }
static inline void checkGlobal(Global& o,SymFn& f,bool homogeneous,const char* m){ int N=o.g.n; RV rhs(N*N,0.0); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ if(!homogeneous) rhs[ix(o.g,i,j)]=f.at(o.g.x(i),o.g.y(j)); sym_check_eq(o.f[ix(o.g,i,j)],rhs[ix(o.g,i,j)],M_("%s: right-hand side kept at cell (%d,%d)",m,i,j)); }
  for(int i=0;i<N;i++) for(int j=0;j<N;j++) sym_check_eq(residual(o.g,i,j,o.u,o.G,rhs,fixA,fixB,fixL),0,M_("%s: five-point equation in cell (%d,%d)",m,i,j)); }
// boundary conditions: value functions per side with concrete coefficients
struct BC { SymFn r[4]; int kind; BC(int k,const char* nm="r"):kind(k){ for(int s=0;s<4;s++){ char b[32]; snprintf(b,32,"%s%d",nm,s); r[s].nm=b; } }
  void ab(int side,double x,double y,double* a,double* b){ switch(kind){ case 0: *a=1; *b=0; break; case 1: *a=2+0.25*x-0.125*y; *b=0; break; case 2: *a=1+0.5*side; *b=side%2?0.5+0.125*x:-0.25-0.125*y*y; break; default: *a=side==0?1:0; *b=side==0?0:1+0.25*side; } }
  double operator()(int side,double x,double y,double* a,double* b){ ab(side,x,y,a,b); return r[side].at(x,y); } };
static inline void checkBC(Global& o,BC& bc,const char* m){ int N=o.g.n; RV fl=fluxes(o.g,o.u,o.G); for(int s=0;s<4;s++) for(int k=0;k<N;k++){ double x=s==0?o.g.xl:s==1?o.g.xu:o.g.x(k),y=s==2?o.g.yl:s==3?o.g.yu:o.g.y(k),a,b; bc.ab(s,x,y,&a,&b); sym_check_eq(a*o.G[s*N+k]+b*fl[s*N+k],bc.r[s].at(x,y),M_("%s: boundary condition on side %d, node %d",m,s,k)); } }
static inline void runBuild(HPS_& H){ H.setupStage(); H.buildStage(); }
static inline void runUp(HPS_& H,SymFn& f){ H.upwardsStage(std::function<double(double,double)>([&](double x,double y){ return f.at(x,y); })); }
static inline void runSolve(HPS_& H,BC& bc){ H.solveStage(std::function<double(int,double,double,double*,double*)>([&](int s,double x,double y,double* a,double* b){ return bc(s,x,y,a,b); })); }
