// @title The direct (FISHPACK) path passes the same problem and returns the same layout
// @bounds Square patches of 3x3 and 4x4 cells (thorough 5x5); three rectangles with different dx and dy; every right-hand side, boundary value and constant lambda arbitrary reals.
// @stubs hstcrt_: documented contract of FISHPACK90 HSTCRT with both boundary types 1 (values given), over its raw arguments, with its argument checks.
// @outside Patches with fewer than 3 cells per side (rejected by FISHPACK); variable coefficients (not supported by this path).
// @entry f_solve reach=done
// @entry f_fluxes reach=done
#include "fv.hpp"
static double one(double,double){ return 1.0; }
ENTRY f_solve(){
  int n=sym_choose("n",3,TH(4,5)); Geo g=geoChoice(sym_choose("rect",0,2),n); auto grid=gridOf(g); double lam=sym_double("lambda"); sym_assume(lam<=0); Fn L=[&](double,double){ return lam; }; auto s=solverOf(one,one,L); s.solver_type=EF::FiniteVolumeSolverType::FISHPACK90; RV G=symRV("g",4*n),f=symRV("f",n*n); Vec_ vg=toV(G),vf=toV(f); Vec_ u=s.solve(grid,vg,vf); RV U=getV(u); sym_check((int)U.size()==n*n,"solution length"); if((int)U.size()!=n*n) return;
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) sym_check_eq(residual(g,i,j,U,G,f,one,one,L),0,M_("equation of cell (%d,%d) of %d",i,j,n)); eqV(vg,G,"boundary data after solve"); eqV(vf,f,"right-hand side after solve"); sym_reach("done"); }
ENTRY f_fluxes(){ // same fluxes as the general solver's definition
  int n=3; Geo g=geoChoice(sym_choose("rect",0,2),n); auto grid=gridOf(g); Fn L=[](double,double){ return -0.5; }; auto s=solverOf(one,one,L); s.solver_type=EF::FiniteVolumeSolverType::FISHPACK90; RV G=symRV("g",4*n),f=symRV("f",n*n); Vec_ vg=toV(G),vf=toV(f); Vec_ h=s.mapD2N(grid,vg,vf); RV u=refSolve(g,G,f,one,one,L); eqV(h,fluxes(g,u,G),"mapD2N"); sym_reach("done"); }
