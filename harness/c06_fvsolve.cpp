// @title The patch solver solves the five-point finite-volume system
// @bounds Square patches of 2x2, 3x3 and 4x4 cells (thorough also 5x5); three rectangles with different dx and dy; every coefficient value at every evaluation point, all right-hand sides and all boundary values arbitrary reals.
// @stubs PETSc Mat/Vec/LU: sequential models; MatSolve: contract A x = f over the assembled matrix.
// @outside Patches with one cell per side or unequal counts; coefficients for which the system is singular; rounding error.
// @entry s_residual reach=done
// @entry s_uniform reach=done
// @entry s_repeat reach=done
#include "fv.hpp"
static void check(const Geo& g,Vec_& u,const RV& G,const RV& f,Fn A,Fn B,Fn Lm,const char* m){ RV U=getV(u); sym_check((int)U.size()==g.n*g.n,"solution has the wrong length"); if((int)U.size()!=g.n*g.n) return; for(int i=0;i<g.n;i++) for(int j=0;j<g.n;j++) sym_check_eq(residual(g,i,j,U,G,f,A,B,Lm),0,M_("%s: equation of cell (%d,%d) of %d",m,i,j,g.n)); }
ENTRY s_residual(){
  int live=sym_petsc_live(); int n=sym_choose("n",2,TH(4,5)); Geo g=geoChoice(sym_choose("rect",0,2),n); auto grid=gridOf(g); SymFn a{"alpha"},b{"beta"},l{"lambda"}; Fn A=[&](double x,double y){ return a.at(x,y); },B=[&](double x,double y){ return b.at(x,y); },Lm=[&](double x,double y){ return l.at(x,y); };
  RV G=symRV("g",4*n),f=symRV("f",n*n); auto s=solverOf(A,B,Lm); Vec_ vg=toV(G),vf=toV(f); Vec_ u=s.solve(grid,vg,vf); check(g,u,G,f,A,B,Lm,"variable coefficients"); eqV(vg,G,"boundary data after solve"); eqV(vf,f,"right-hand side after solve"); sym_check(sym_petsc_live()==live,"every PETSc object of the solve is released"); sym_reach("done"); }
ENTRY s_uniform(){ // constant coefficients: the Laplacian with a shift
  int n=sym_choose("n",2,TH(4,6)); Geo g=geoChoice(sym_choose("rect",0,2),n); auto grid=gridOf(g); double lam=sym_double("lambda"); Fn A=[](double,double){ return 1.0; },B=A,Lm=[&](double,double){ return lam; }; RV G=symRV("g",4*n),f=symRV("f",n*n); auto s=solverOf(A,B,Lm); Vec_ vg=toV(G),vf=toV(f); Vec_ u=s.solve(grid,vg,vf); check(g,u,G,f,A,B,Lm,"constant coefficients"); sym_reach("done"); }
ENTRY s_repeat(){ // the same solver object on two different grids and data sets
  int live=sym_petsc_live(); Geo g1=geoChoice(1,3),g2=geoChoice(2,2); auto q1=gridOf(g1),q2=gridOf(g2); auto s=solverOf(fixA,fixB,fixL); for(int k=0;k<3;k++){ const Geo& g=k==1?g2:g1; RV G=symRV(M_("g%d",k),4*g.n),f=symRV(M_("f%d",k),g.n*g.n); Vec_ vg=toV(G),vf=toV(f); Vec_ u=s.solve(k==1?q2:q1,vg,vf); check(g,u,G,f,fixA,fixB,fixL,"repeated solve"); } sym_check(sym_petsc_live()==live,"every PETSc object of repeated solves is released"); sym_reach("done"); }
