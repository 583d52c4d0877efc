// @title Interpolation returns the interpolant at every point regardless of call history
// @bounds 2 to 5 (thorough 7) sample points, strictly increasing or decreasing, all abscissae, ordinates and queries arbitrary reals; every sequence of three (thorough four) queries through both call operators.
// @outside Queries outside the range of the samples; repeated abscissae; rounding error.
// @entry scalar_calls reach=done
// @entry vector_call reach=done
// @entry at_samples reach=done
// @entry sizes reach=done
#include "common.hpp"
#include <Interpolation.hpp>
static void samples(int n,bool up,RV& x,RV& y){ x=symRV("x",n); y=symRV("y",n); for(int i=0;i+1<n;i++) sym_assume(up?x[i]<x[i+1]:x[i]>x[i+1]); }
static void in(double q,const RV& x,bool up){ int n=x.size(); sym_assume(up?q>=x[0]:q<=x[0]); sym_assume(up?q<=x[n-1]:q>=x[n-1]); }
static void verify(double q,double r,const RV& x,const RV& y,bool up,const char* m){ int n=x.size(); int k=n-2; for(int i=0;i+1<n;i++) if(up?q<=x[i+1]:q>=x[i+1]){ k=i; break; }
  sym_check_eq((r-y[k])*(x[k+1]-x[k]),(q-x[k])*(y[k+1]-y[k]),m); }
ENTRY scalar_calls(){ int n=sym_choose("n",2,TH(5,7)); bool up=sym_choose("up",0,1); RV x,y; samples(n,up,x,y); Vec_ vx=toV(x),vy=toV(y); EF::LinearInterpolant L(vx,vy);
  int K=TH(n<=4?3:2,n<=5?4:3); for(int k=0;k<K;k++){ double q=symd("q",k); in(q,x,up); double r=L(q); verify(q,r,x,y,up,M_("query %d",k)); } eqV(vx,x,"abscissae"); eqV(vy,y,"ordinates"); sym_reach("done"); }
ENTRY vector_call(){ int n=sym_choose("n",2,TH(4,6)); bool up=sym_choose("up",0,1); RV x,y; samples(n,up,x,y); Vec_ vx=toV(x),vy=toV(y); EF::LinearInterpolant L(vx,vy);
  int K=2; RV q=symRV("q",K); for(int k=0;k<K;k++) in(q[k],x,up); Vec_ vq=toV(q); Vec_ r=L(vq); RV rr=getV(r); sym_check((int)rr.size()==K,"one result per query"); if((int)rr.size()!=K) return; for(int k=0;k<K;k++) verify(q[k],rr[k],x,y,up,M_("vector query %d",k)); eqV(vq,q,"queries"); sym_reach("done"); }
ENTRY at_samples(){ int n=sym_choose("n",2,TH(6,8)); bool up=sym_choose("up",0,1); RV x,y; samples(n,up,x,y); Vec_ vx=toV(x),vy=toV(y); EF::LinearInterpolant L(vx,vy);
  for(int k=0;k<3;k++){ int i=sym_choose(N_("i",k).c_str(),0,n-1); double r=L(x[i]); sym_check_eq(r,y[i],M_("sample %d on query %d",i,k)); } sym_reach("done"); }
ENTRY sizes(){ int n=sym_choose("n",0,1); Vec_ vx(n),vy(n); if(n){ vx[0]=sym_double("x"); vy[0]=sym_double("y"); } EF::LinearInterpolant L(vx,vy); bool threw=false; try{ L(0.5); }catch(std::exception&){ threw=true; } sym_check(threw,"too few samples are rejected"); sym_reach("done"); }
