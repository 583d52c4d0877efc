// @title A complete solve satisfies every discrete equation of the composite mesh
// @bounds Uniform meshes of 1, 4 (thorough 16) patches with 2 to 3 (thorough 4) cells per side on three rectangles; right-hand side in every cell and boundary value at every node arbitrary reals; fixed variable (asymmetric) coefficients; Dirichlet, scaled Dirichlet, Robin and mixed Dirichlet/Neumann boundary conditions with fixed coefficients; homogeneous and inhomogeneous problems; operator caching off.
// @stubs p4est: model over the real data structures; PETSc KSP/Mat solve and dgesv: exact rational solution (coefficients are constants); MPI: one rank.
// @outside Adaptive meshes (C04, C24); arbitrary coefficients are decided piecewise by C01, C02, C03, C05, C06 and C07; rounding error.
// @entry f_inhomogeneous reach=done
// @entry f_homogeneous reach=done
// @entry f_homogeneous_bc reach=done
// @entry f_patch_callbacks reach=done
// @entry f_deep reach=done tier=thorough time=800
#include "hps.hpp"
static void full(int n,int level,int rc,int kind,bool hom,bool callbacks){ setOpts(hom,false); World w(rectChoice(rc,n<<level),n); w.uniform(level); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); SymFn f; f.nm="f"; BC bc(kind); runBuild(H);
  if(!callbacks){ if(!hom) runUp(H,f); runSolve(H,bc); }
  else { if(!hom) H.upwardsStage(std::function<void(Patch_&)>([&](Patch_& p){ auto& g=p.grid(); p.vectorF()=Vec_(g.nx()*g.ny()); for(size_t i=0;i<g.nx();i++) for(size_t j=0;j<g.ny();j++) p.vectorF()[j+i*g.ny()]=f.at(g(0,i),g(1,j)); }));
    H.solveStage(std::function<void(Patch_&)>([&](Patch_& p){ auto& g=p.grid(); int N=g.nx(); sym_check(N==n<<level,"root patch spans the domain at leaf resolution"); if(N!=n<<level) return; p.vectorG()=Vec_(4*N); for(int k=0;k<N;k++){ p.vectorG()[k]=bc.r[0].at(g.xLower(),g(1,k)); p.vectorG()[N+k]=bc.r[1].at(g.xUpper(),g(1,k)); p.vectorG()[2*N+k]=bc.r[2].at(g(0,k),g.yLower()); p.vectorG()[3*N+k]=bc.r[3].at(g(0,k),g.yUpper()); } })); }
  Global o; if(!gather(w,level,o,"solve")) return; checkGlobal(o,f,hom,"solve"); checkBC(o,bc,"solve"); sym_reach("done"); }
ENTRY f_inhomogeneous(){ int level=sym_choose("level",0,1); full(sym_choose("n",2,TH(3,4)),level,sym_choose("rect",0,2),sym_choose("bc",0,3),false,false); }
ENTRY f_homogeneous(){ int level=sym_choose("level",0,1); full(sym_choose("n",2,TH(3,4)),level,1,0,true,true); }
ENTRY f_homogeneous_bc(){ int level=sym_choose("level",0,1); full(2,level,1,sym_choose("bc",0,3),true,false); }
ENTRY f_patch_callbacks(){ int level=sym_choose("level",0,1); full(sym_choose("n",2,3),level,2,0,false,true); }
ENTRY f_deep(){ full(2,2,sym_choose("rect",1,2),sym_choose("bc",0,2),false,false); }
