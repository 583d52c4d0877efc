// @title Fine/coarse interface operators conserve averages and reproduce polynomials
// @bounds Fine-to-coarse for 0..12 (thorough 40) coarse cells; coarse-to-fine for every fine size 2..24 (thorough 64); all samples arbitrary reals.
// @outside Sizes above the bounds; rounding error.
// @entry f2c reach=done
// @entry c2f reach=done,rejected
// @entry roundtrip reach=done
#include "common.hpp"
ENTRY f2c(){ int n=sym_choose("ncoarse",0,TH(12,40)); EF::InterpolationMatrixFine2Coarse<double> L(n); RM M=getM(L); sym_check(M.r==n&&M.c==2*n,"fine-to-coarse shape"); if(M.r!=n||M.c!=2*n) return;
  RV f=symRV("f",2*n); RV c=mul(M,f); for(int i=0;i<n;i++) sym_check_eq(2*c[i],f[2*i]+f[2*i+1],M_("coarse value %d is the mean of its two fine values",i));
  if(n){ Vec_ vf=toV(f); Mat_& Lb=L; Vec_ got=Lb*vf; eqV(got,c,"operator applied to a vector"); } sym_reach("done"); }
ENTRY c2f(){ int n=sym_choose("nfine",2,TH(24,64)); bool ok=n%2==0&&n>=6, threw=false;
  try { EF::InterpolationMatrixCoarse2Fine<double> L(n); RM M=getM(L); if(ok){ int m=n/2; sym_check(M.r==n&&M.c==m,"coarse-to-fine shape"); if(M.r!=n||M.c!=m) return;
      double a=sym_double("a"),b=sym_double("b"),q=sym_double("q"); RV lin(m),quad(m); for(int j=0;j<m;j++){ double x=j+0.5; lin[j]=a+b*x; quad[j]=a+b*x+q*x*x; } RV y=mul(M,lin),z=mul(M,quad);
      for(int i=0;i<n;i++){ double x=(i+0.5)/2; sym_check_eq(y[i],a+b*x,M_("linear function at fine cell %d of %d",i,n)); double rs=0; for(int j=0;j<m;j++) rs+=M(i,j); sym_check_eq(rs,1,M_("row %d of %d sums to one",i,n)); }
      for(int i=0;i<n;i+=n-1){ double x=(i+0.5)/2; sym_check_eq(z[i],a+b*x+q*x*x,M_("quadratic at boundary cell %d of %d",i,n)); }
      // each fine value depends only on neighbouring coarse values
      for(int i=0;i<n;i++) for(int j=0;j<m;j++){ int d=j-i/2; if(i>0&&i<n-1&&(d>1||d<-1)) sym_check_eq(M(i,j),0,M_("row %d of %d touches distant cell %d",i,n,j)); }
      sym_reach("done"); } }
  catch(std::exception&){ threw=true; }
  sym_check(threw==!ok,M_("size %d %s",n,ok?"is defined but was rejected":"is not defined but was accepted")); if(threw) sym_reach("rejected"); }
ENTRY roundtrip(){ int n=2*sym_choose("ncoarse",3,TH(10,24)),m=n/2; EF::InterpolationMatrixFine2Coarse<double> A(m); EF::InterpolationMatrixCoarse2Fine<double> B(n); RM a=getM(A),b=getM(B); sym_check(a.r==m&&a.c==n&&b.r==n&&b.c==m,"shapes compose"); if(!(a.r==m&&a.c==n&&b.r==n&&b.c==m)) return;
  double c0=sym_double("c0"),c1=sym_double("c1"); RV v(m); for(int j=0;j<m;j++) v[j]=c0+c1*(j+0.5); RV w=mul(a,mul(b,v)); for(int j=0;j<m;j++) sym_check_eq(w[j],v[j],M_("linear data survives refinement and averaging at %d",j)); sym_reach("done"); }
