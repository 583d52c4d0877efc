// @title Patch boundary fluxes, operator matrix and particular fluxes are consistent
// @bounds 2x2 patches with every coefficient value arbitrary; 3x3 and 4x4 (thorough 5x5) patches with fixed asymmetric variable coefficients; three rectangles; all Dirichlet and right-hand-side values arbitrary reals.
// @stubs PETSc Mat/Vec/LU models with contract A x = f; the reference solution uses the dgesv contract on an independently assembled system.
// @outside Unequal cell counts per side; singular systems; rounding error.
// @entry d_map_any_coeff reach=done
// @entry d_map reach=done
// @entry d_build reach=done
// @entry d_build_any_coeff reach=done
// @entry d_particular reach=done
#include "fv.hpp"
// n=2: every cell touches the boundary, so the fluxes determine the cell values
static void checkFluxes2(const Geo& g,const RV& h,const RV& G,const RV& f,Fn A,Fn B,Fn Lm,const char* m){
  double dx=g.dx(),dy=g.dy(); RV u(4); for(int j=0;j<2;j++){ u[ix(g,0,j)]=G[j]+h[j]*(dx/2); u[ix(g,1,j)]=G[2+j]-h[2+j]*(dx/2); }
  for(int i=0;i<2;i++){ sym_check_eq(G[4+i]+h[4+i]*(dy/2),u[ix(g,i,0)],M_("%s: south and side flux disagree at %d",m,i)); sym_check_eq(G[6+i]-h[6+i]*(dy/2),u[ix(g,i,1)],M_("%s: north and side flux disagree at %d",m,i)); }
  for(int i=0;i<2;i++) for(int j=0;j<2;j++) sym_check_eq(residual(g,i,j,u,G,f,A,B,Lm),0,M_("%s: fluxes imply a solution violating cell (%d,%d)",m,i,j)); }
ENTRY d_map_any_coeff(){
  Geo g=geoChoice(sym_choose("rect",0,2),2); auto grid=gridOf(g); SymFn a{"alpha"},b{"beta"},l{"lambda"}; Fn A=[&](double x,double y){ return a.at(x,y); },B=[&](double x,double y){ return b.at(x,y); },Lm=[&](double x,double y){ return l.at(x,y); }; RV G=symRV("g",8),f=symRV("f",4); auto s=solverOf(A,B,Lm); Vec_ vg=toV(G),vf=toV(f); Vec_ h=s.mapD2N(grid,vg,vf); RV H=getV(h); sym_check(H.size()==8,"mapD2N length"); if(H.size()!=8) return; checkFluxes2(g,H,G,f,A,B,Lm,"mapD2N"); eqV(vg,G,"boundary data after mapD2N"); eqV(vf,f,"right-hand side after mapD2N"); sym_reach("done"); }
ENTRY d_map(){
  int n=sym_choose("n",3,TH(4,5)); Geo g=geoChoice(sym_choose("rect",0,2),n); auto grid=gridOf(g); RV G=symRV("g",4*n),f=symRV("f",n*n); auto s=solverOf(fixA,fixB,fixL); Vec_ vg=toV(G),vf=toV(f); Vec_ h=s.mapD2N(grid,vg,vf); RV u=refSolve(g,G,f,fixA,fixB,fixL); eqV(h,fluxes(g,u,G),"mapD2N"); sym_reach("done"); }
ENTRY d_build(){
  int n=sym_choose("n",2,TH(3,4)); Geo g=geoChoice(sym_choose("rect",0,2),n); auto grid=gridOf(g); auto s=solverOf(fixA,fixB,fixL); Mat_ T=s.buildD2N(grid); RM M=getM(T); sym_check(M.r==4*n&&M.c==4*n,"buildD2N shape"); if(M.r!=4*n||M.c!=4*n) return; RV f(n*n,0.0); for(int c=0;c<4*n;c++){ RV e(4*n,0.0); e[c]=1; RV u=refSolve(g,e,f,fixA,fixB,fixL),h=fluxes(g,u,e); for(int r=0;r<4*n;r++) sym_check_eq(M(r,c),h[r],M_("operator entry (%d,%d)",r,c)); } sym_reach("done"); }
ENTRY d_build_any_coeff(){
  Geo g=geoChoice(sym_choose("rect",0,2),2); auto grid=gridOf(g); SymFn a{"alpha"},b{"beta"},l{"lambda"}; Fn A=[&](double x,double y){ return a.at(x,y); },B=[&](double x,double y){ return b.at(x,y); },Lm=[&](double x,double y){ return l.at(x,y); }; auto s=solverOf(A,B,Lm); Mat_ T=s.buildD2N(grid); RM M=getM(T); sym_check(M.r==8&&M.c==8,"buildD2N shape"); if(M.r!=8||M.c!=8) return; RV f(4,0.0); for(int c=0;c<8;c++){ RV e(8,0.0),h(8); e[c]=1; for(int r=0;r<8;r++) h[r]=M(r,c); checkFluxes2(g,h,e,f,A,B,Lm,M_("column %d of the operator",c)); } sym_reach("done"); }
ENTRY d_particular(){
  int n=sym_choose("n",2,TH(4,5)); Geo g=geoChoice(sym_choose("rect",0,2),n); auto grid=gridOf(g); RV G(4*n,0.0),f=symRV("f",n*n); auto s=solverOf(fixA,fixB,fixL); Vec_ vf=toV(f); Vec_ h=s.particularNeumannData(grid,vf); RV u=refSolve(g,G,f,fixA,fixB,fixL); eqV(h,fluxes(g,u,G),"particularNeumannData"); eqV(vf,f,"right-hand side after particularNeumannData"); sym_reach("done"); }
