// @title The solve stage imposes the requested boundary condition at the root
// @bounds Root patches that are a leaf or the parent of four leaves, 2 to 4 (thorough 8) boundary nodes per side; every entry of the root operator, the root's particular flux and every a, b and r at each boundary node an arbitrary real; three rectangles; repeated solves with new boundary conditions; homogeneous and inhomogeneous problems.
// @stubs dgesv: contract A X = B (boundary system solvable); p4est: model over the real data structures; PETSc KSP/Mat solve: exact rational solution (fixed coefficients); MPI: one rank.
// @outside Larger roots; rounding error; singular boundary systems; the sign convention of du/dn is the root operator's (positive in +x/+y).
// @entry r_symbolic reach=done
// @entry r_parent reach=done
// @entry r_dirichlet reach=done
// @entry r_repeat reach=done
// @entry r_homogeneous reach=done
// @entry r_callback reach=done
#include "hps.hpp"
struct SymBC { SymFn r[4],a[4],b[4]; int mode; std::vector<int> calls; SymBC(int mode,const char* sfx=""):mode(mode),calls(4,0){ for(int s=0;s<4;s++){ char t[64]; snprintf(t,64,"r%d%s",s,sfx); r[s].nm=t; snprintf(t,64,"a%d%s",s,sfx); a[s].nm=t; snprintf(t,64,"b%d%s",s,sfx); b[s].nm=t; } }
  double A(int s,double x,double y){ return a[s].at(x,y); } double B(int s,double x,double y){ return mode==1?0.0:b[s].at(x,y); }
  double operator()(int s,double x,double y,double* pa,double* pb){ sym_check(s>=0&&s<4,"side index"); calls[s&3]++; *pa=A(s,x,y); *pb=B(s,x,y); return r[s].at(x,y); } };
static void solveW(HPS_& H,SymBC& bc){ H.solveStage(std::function<double(int,double,double,double*,double*)>([&](int s,double x,double y,double* a,double* b){ return bc(s,x,y,a,b); })); }
static void node(const Rect& r,int N,int s,int k,double& x,double& y){ double dx=(r.xu-r.xl)/N,dy=(r.yu-r.yl)/N; x=s==0?r.xl:s==1?r.xu:r.xl+(k+0.5)*dx; y=s==2?r.yl:s==3?r.yu:r.yl+(k+0.5)*dy; }
static void holds(World& w,int N,SymBC& bc,const RM& T,const RV& h,const char* m,bool coarse){ Vec_& gv=w.mesh.quadtree.root().vectorG(); sym_check(gv.size()==(size_t)4*N,M_("%s: root data length",m)); if(gv.size()!=(size_t)4*N) return; RV g=getV(gv),fl=mul(T,g); (void)coarse;
  for(int s=0;s<4;s++) for(int k=0;k<N;k++){ double x,y; node(w.r,N,s,k,x,y); size_t before=bc.r[s].xs.size(); double r=bc.r[s].at(x,y); sym_check(bc.r[s].xs.size()==before,M_("%s: side %d node %d was not evaluated at its position",m,s,k)); sym_check_eq(bc.A(s,x,y)*g[s*N+k]+bc.B(s,x,y)*(fl[s*N+k]+h[s*N+k]),r,M_("%s: boundary condition on side %d, node %d",m,s,k)); }
  for(int s=0;s<4;s++) sym_check((int)bc.r[s].xs.size()==N,M_("%s: side %d is evaluated at its own nodes only",m,s)); }
static void rootSym(World& w,int N,RM& T,RV& h,bool withH){ Patch_& p=w.mesh.quadtree.root(); T=symRM("T",4*N,4*N); p.matrixT()=toM(T); h=withH?symRV("h",4*N):RV(4*N,0.0); if(withH) p.vectorH()=toV(h); }
ENTRY r_symbolic(){ int n=sym_choose("n",2,TH(3,5)); setOpts(false,false); World w(rectChoice(sym_choose("rect",0,2),n),n); w.uniform(0); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); H.setupStage(); H.buildStage(); SymFn f; f.nm="f"; runUp(H,f); RM T; RV h; rootSym(w,n,T,h,true); SymBC bc(0); solveW(H,bc); holds(w,n,bc,T,h,"leaf root",false); eqM(w.mesh.quadtree.root().matrixT(),T,"root operator after the solve"); eqV(w.mesh.quadtree.root().vectorH(),h,"root particular flux after the solve"); sym_reach("done"); }
ENTRY r_parent(){ int n=2,N=4; setOpts(false,false); World w(rectChoice(sym_choose("rect",0,1),N),n); w.uniform(1); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); H.setupStage(); H.buildStage(); SymFn f; f.nm="f"; runUp(H,f); RM T; RV h; rootSym(w,N,T,h,true); SymBC bc(0); solveW(H,bc); holds(w,N,bc,T,h,"parent root",false); sym_reach("done"); }
ENTRY r_dirichlet(){ int n=sym_choose("n",2,TH(3,4)),level=sym_choose("level",0,1),N=n<<level; setOpts(false,false); World w(rectChoice(sym_choose("rect",0,2),N),n); w.uniform(level); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); H.setupStage(); H.buildStage(); SymFn f; f.nm="f"; runUp(H,f); SymBC bc(1); solveW(H,bc); RV g=getV(w.mesh.quadtree.root().vectorG()); sym_check((int)g.size()==4*N,"root data length"); if((int)g.size()!=4*N) return;
  for(int s=0;s<4;s++) for(int k=0;k<N;k++){ double x,y; node(w.r,N,s,k,x,y); sym_check_eq(bc.A(s,x,y)*g[s*N+k],bc.r[s].at(x,y),M_("Dirichlet data on side %d, node %d",s,k)); sym_check((int)bc.r[s].xs.size()==N,M_("side %d is evaluated at its own nodes only",s)); } sym_reach("done"); }
ENTRY r_repeat(){ int n=2; setOpts(false,false); World w(rectChoice(1,n),n); w.uniform(0); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); H.setupStage(); H.buildStage(); SymFn f; f.nm="f"; runUp(H,f); RM T; RV h; rootSym(w,n,T,h,true); SymBC b1(0),b2(0,"'"),b3(1,"''"); solveW(H,b1); holds(w,n,b1,T,h,"first solve",false); solveW(H,b2); holds(w,n,b2,T,h,"second solve",false); solveW(H,b3); holds(w,n,b3,T,h,"third solve",false); sym_reach("done"); }
ENTRY r_homogeneous(){ int n=2,level=sym_choose("level",0,1),N=n<<level; setOpts(true,false); World w(rectChoice(1,N),n); w.uniform(level); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); H.setupStage(); H.buildStage(); RM T; RV h; rootSym(w,N,T,h,false); SymBC bc(0); solveW(H,bc); holds(w,N,bc,T,h,"homogeneous",false); sym_reach("done"); }
ENTRY r_callback(){ int n=2,level=sym_choose("level",0,1),N=n<<level; setOpts(false,false); World w(rectChoice(0,N),n); w.uniform(level); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); H.setupStage(); H.buildStage(); SymFn f; f.nm="f"; runUp(H,f); RV g=symRV("g",4*N); int calls=0; H.solveStage(std::function<void(Patch_&)>([&](Patch_& p){ calls++; sym_check(&p==&w.mesh.quadtree.root(),"the callback receives the root patch"); sym_check((int)p.size()==N,"root size"); p.vectorG()=toV(g); })); sym_check(calls==1,"the callback is called once"); eqV(w.mesh.quadtree.root().vectorG(),g,"root data set by the callback"); sym_reach("done"); }
