// Finite-volume patch helpers: symbolic coefficient functions and an independent statement of the discrete equations.
#pragma once
#include "common.hpp"
#include <Patches/FiniteVolume/FiniteVolume.hpp>
#include <cmath>
extern "C" void dgesv_(int*,int*,double*,int*,int*,double*,int*,int*);
struct Geo { int n; double xl,xu,yl,yu; double dx() const { return (xu-xl)/n; } double dy() const { return (yu-yl)/n; } double x(int i) const { return xl+(i+0.5)*dx(); } double y(int j) const { return yl+(j+0.5)*dy(); } };
// dyadic rectangles, so cell centres are exact doubles: square, wide and shifted, tall and negative
static inline Geo geoChoice(int k,int n){ double s=n; switch(k){ case 0: return {n,0,0.5*s,0,0.5*s}; case 1: return {n,0.25,0.25+0.5*s,-1,-1+0.125*s}; default: return {n,-2,-2+0.25*s,3,3+2*s}; } }
static inline EF::FiniteVolumeGrid gridOf(const Geo& g){ return EF::FiniteVolumeGrid(MPI_COMM_SELF,g.n,g.xl,g.xu,g.n,g.yl,g.yu); }
// arbitrary function of position: one symbol per evaluation point
struct SymFn { std::string nm; std::vector<double> xs,ys,vs; 
  double at(double x,double y){ for(size_t k=0;k<xs.size();k++) if(fabs(xs[k]-x)<1e-9&&fabs(ys[k]-y)<1e-9) return vs[k]; char b[96]; snprintf(b,96,"%s(%.6g,%.6g)",nm.c_str(),x,y); xs.push_back(x); ys.push_back(y); vs.push_back(sym_double(b)); return vs.back(); } };
// fixed variable functions (no symmetry), exact in the dyadic grid points
static inline double fixA(double x,double y){ return 1.5+0.25*x-0.125*y; }
static inline double fixB(double x,double y){ return 4.0+0.5*x+0.25*y+0.125*x*y; }
static inline double fixL(double x,double y){ return -1.0-0.25*x*x-0.5*y*y; }
typedef std::function<double(double,double)> Fn;
static inline int ix(const Geo& g,int i,int j){ return j+i*g.n; }
// residual of cell (i,j): alpha*div(beta grad u)+lambda*u-f with half-cell boundary gradients; G = [west(j),east(j),south(i),north(i)]
static inline double residual(const Geo& g,int i,int j,const RV& u,const RV& G,const RV& f,Fn A,Fn B,Fn Lm){
  int n=g.n; double dx=g.dx(),dy=g.dy(),x=g.x(i),y=g.y(j),uc=u[ix(g,i,j)];
  double fe=i<n-1?(u[ix(g,i+1,j)]-uc)*(1/dx):(G[n+j]-uc)*(2/dx), fw=i>0?(uc-u[ix(g,i-1,j)])*(1/dx):(uc-G[j])*(2/dx);
  double fn=j<n-1?(u[ix(g,i,j+1)]-uc)*(1/dy):(G[3*n+i]-uc)*(2/dy), fs=j>0?(uc-u[ix(g,i,j-1)])*(1/dy):(uc-G[2*n+i])*(2/dy);
  return A(x,y)*((B(x+dx/2,y)*fe-B(x-dx/2,y)*fw)*(1/dx)+(B(x,y+dy/2)*fn-B(x,y-dy/2)*fs)*(1/dy))+Lm(x,y)*uc-f[ix(g,i,j)]; }
static inline RV refSolve(const Geo& g,const RV& G,const RV& f,Fn A,Fn B,Fn Lm){ // concrete coefficients: assemble from the residual's own definition
  int N=g.n*g.n,one=1,info=0; std::vector<double> M((size_t)N*N),b(N); std::vector<int> p(N); RV z(N,0.0),zG(4*g.n,0.0),zf(N,0.0);
  for(int c=0;c<N;c++){ RV e=z; e[c]=1; for(int i=0;i<g.n;i++) for(int j=0;j<g.n;j++) M[ix(g,i,j)+(size_t)c*N]=residual(g,i,j,e,zG,zf,A,B,Lm); }
  for(int i=0;i<g.n;i++) for(int j=0;j<g.n;j++) b[ix(g,i,j)]=-residual(g,i,j,z,G,f,A,B,Lm);
  dgesv_(&N,&one,M.data(),&N,p.data(),b.data(),&N,&info); sym_check(info==0,"reference system is singular"); return b; }
static inline RV fluxes(const Geo& g,const RV& u,const RV& G){ int n=g.n; RV h(4*n); for(int k=0;k<n;k++){ h[k]=(u[ix(g,0,k)]-G[k])*(2/g.dx()); h[n+k]=(G[n+k]-u[ix(g,n-1,k)])*(2/g.dx()); h[2*n+k]=(u[ix(g,k,0)]-G[2*n+k])*(2/g.dy()); h[3*n+k]=(G[3*n+k]-u[ix(g,k,n-1)])*(2/g.dy()); } return h; }
static inline EF::FiniteVolumeSolver solverOf(Fn A,Fn B,Fn Lm,Fn F=Fn()){ EF::FiniteVolumeSolver s; s.alpha_function=A; s.beta_function=B; s.lambda_function=Lm; s.rhs_function=F; return s; }
