// @title Stages can be repeated and still give the result of a fresh run
// @bounds Uniform meshes of 1 or 4 patches (2 to 3 cells per side, thorough also 16 patches) and adaptive meshes of 7 (thorough also 10 and 13) leaves with 3 cells per side; new arbitrary real right-hand sides and boundary values in every round; rounds: sweep+solve again, solve again, build+sweep+solve again (twice), build again then solve without a new sweep, homogeneous after inhomogeneous and back.
// @stubs p4est: model over the real data structures; PETSc KSP/Mat solve and dgesv: exact rational solution (coefficients are constants); MPI: one rank.
// @outside Larger meshes; changing the mesh or the solver's coefficients between rounds; rounding error.
// @entry x_uniform reach=done
// @entry x_adaptive reach=done
// @entry x_deeper reach=done tier=thorough time=800
#include "hps.hpp"
static void rhs(HPS_& H,const char* nm){ static SymFn f; f=SymFn(); f.nm=nm; runUp(H,f); }
struct Round { char what; }; // pattern letters: b build, u new sweep, s new solve, h/i switch to homogeneous/inhomogeneous
static const char* patterns[]={"busus","buss","busbus","busubus","busbusbus","busbs","bushbsibus","bbus","buus"};
static bool refineWhere(int shape,Rect r,double x,double y){ double xm=(r.xl+r.xu)/2,ym=(r.yl+r.yu)/2; bool L=x<xm,B=y<ym; switch(shape){ case 0: return L&&B; case 1: return !L&&!B; case 2: return !L&&B; case 3: return L&&!B; case 4: return L; default: return L||B; } }
static void mk(World& w,int shape){ if(shape<0) w.uniform(-shape-1); else w.refine([&](double x,double y){ return refineWhere(shape,w.r,x,y); },1,2); }
static void compare(World& a,World& b,const char* m){ auto A=leavesOf(a.mesh),B=leavesOf(b.mesh); sym_check(A.size()==B.size(),"same mesh"); if(A.size()!=B.size()) return; for(size_t i=0;i<A.size();i++){ sym_check(A[i].path==B[i].path,"same leaves"); RV u=getV(B[i].p->vectorU()),g=getV(B[i].p->vectorG()); eqV(A[i].p->vectorU(),u,M_("%s: solution on leaf %s",m,A[i].path.c_str())); eqV(A[i].p->vectorG(),g,M_("%s: boundary data on leaf %s",m,A[i].path.c_str())); } }
static void run(int n,int shape,int rc,const char* pat,bool everyRound){ int lv=shape<0?-shape-1:2; Rect r=rectChoice(rc,n<<lv); setOpts(false,false); World w(r,n); mk(w,shape); HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol); SymFn f; BC bc(0); bool hom=false; int round=0;
  for(const char* p=pat;*p;p++){ switch(*p){ case 'b': runBuild(H); break; case 'h': hom=true; setOpts(true,false); break; case 'i': hom=false; setOpts(false,false); break;
    case 'u': f=SymFn(); f.nm=N_("f",round); runUp(H,f); break;
    case 's': { BC nb(round==1?2:round%2,N_("r",round).c_str()); bc=nb; runSolve(H,bc); round++; if(everyRound||!p[1]){ World z(r,n); mk(z,shape); HPS_ F(MPI_COMM_WORLD,z.mesh,z.sol); runBuild(F); if(!hom) runUp(F,f); runSolve(F,bc); compare(w,z,M_("after %.*s of %s",(int)(p-pat+1),pat,pat)); 
        if(shape<0){ Global o; if(gather(w,lv,o,"repeated")){ checkGlobal(o,f,hom,"repeated"); checkBC(o,bc,"repeated"); } } } } } } 
  setOpts(false,false); sym_reach("done"); }
ENTRY x_uniform(){ int level=sym_choose("level",0,1); run(sym_choose("n",2,TH(2,3)),-level-1,1,patterns[sym_choose("pattern",0,8)],true); }
ENTRY x_adaptive(){ run(3,sym_choose("shape",0,TH(1,3)),1,patterns[sym_choose("pattern",0,8)],false); }
ENTRY x_deeper(){ int k=sym_choose("which",0,2); if(k==0) run(2,-3,1,"busbus",false); else run(3,3+k,2,patterns[sym_choose("pattern",2,6)],false); }
