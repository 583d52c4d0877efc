// @title Matrix algebra and linear solves obey their mathematical definitions
// @bounds Elementwise operations and products up to 3x3 (thorough 4x4) of every rectangular shape; linear solves n<=3 (thorough 4) with up to 3 right-hand sides; all entries arbitrary reals.
// @stubs dgemm_, dgemv_: reference BLAS semantics over the raw (column-major) arguments, with argument legality asserted. dgesv_: contract A X = B over its raw arguments (A nonsingular).
// @outside Rounding error; larger shapes; singular systems; empty matrices.
// @entry a_elementwise reach=done
// @entry a_scalar reach=done
// @entry a_matvec reach=done
// @entry a_matmat reach=done
// @entry a_solve_vec reach=done
// @entry a_solve_mat reach=done
// @entry a_chain reach=done
// @entry a_norm reach=done
// @entry a_resolve reach=done
// @entry a_self reach=done
#include "common.hpp"
static const int D=TH(3,4);
ENTRY a_elementwise(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM A=symRM("A",r,c),B=symRM("B",r,c); Mat_ a=toM(A),b=toM(B); RM S(r,c),M(r,c),N(r,c); for(size_t k=0;k<A.a.size();k++){ S.a[k]=A.a[k]+B.a[k]; M.a[k]=A.a[k]-B.a[k]; N.a[k]=-A.a[k]; }
  Mat_ s=a+b; eqM(s,S,"A+B"); Mat_ m=a-b; eqM(m,M,"A-B"); Mat_ n=-a; eqM(n,N,"-A"); eqM(a,A,"A after A+B, A-B, -A"); eqM(b,B,"B after A+B, A-B");
  Mat_ p=a; Mat_& rp=(p+=b); eqM(p,S,"A+=B"); sym_check(&rp==&p,"+= returns its target"); Mat_ q=a; Mat_& rq=(q-=b); eqM(q,M,"A-=B"); sym_check(&rq==&q,"-= returns its target"); eqM(b,B,"B after A+=B, A-=B");
  Mat_ t=a; t+=t; RM T2(r,c); for(size_t k=0;k<A.a.size();k++) T2.a[k]=A.a[k]+A.a[k]; eqM(t,T2,"A+=A"); t=a; t-=t; for(auto&x:T2.a) x=0; eqM(t,T2,"A-=A"); sym_reach("done"); }
ENTRY a_scalar(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM A=symRM("A",r,c); double v=sym_double("v"); Mat_ a=toM(A); RM P(r,c),M(r,c),X(r,c); for(size_t k=0;k<A.a.size();k++){ P.a[k]=A.a[k]+v; M.a[k]=A.a[k]-v; X.a[k]=v*A.a[k]; }
  Mat_ b=a; b+=v; eqM(b,P,"A+=v"); b=a; b-=v; eqM(b,M,"A-=v"); b=a; Mat_& rb=(b*=v); eqM(b,X,"A*=v"); sym_check(&rb==&b,"*= returns its target"); Mat_ e=v*a; eqM(e,X,"v*A"); eqM(a,A,"A after v*A"); sym_reach("done"); }
ENTRY a_matvec(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM A=symRM("A",r,c); RV x=symRV("x",c); Mat_ a=toM(A); Vec_ vx=toV(x); Vec_ y=a*vx; eqV(y,mul(A,x),"A*x"); eqM(a,A,"A after A*x"); eqV(vx,x,"x after A*x"); sym_reach("done"); }
ENTRY a_matmat(){
  int r=sym_choose("r",1,D),k=sym_choose("k",1,D),c=sym_choose("c",1,D); RM A=symRM("A",r,k),B=symRM("B",k,c); Mat_ a=toM(A),b=toM(B); Mat_ p=a*b; eqM(p,mul(A,B),"A*B"); eqM(a,A,"A after A*B"); eqM(b,B,"B after A*B");
  if(r==k&&k==c){ Mat_ q=a*a; eqM(q,mul(A,A),"A*A"); } sym_reach("done"); }
static void det(const RM& A){ // invertibility of the concrete part is LAPACK's precondition
  (void)A; }
ENTRY a_solve_vec(){
  int n=sym_choose("n",1,D); RM A=symRM("A",n,n); RV b=symRV("b",n); Mat_ a=toM(A); Vec_ vb=toV(b); Vec_ x=EF::solve(a,vb); RV X=getV(x); sym_check((int)X.size()==n,"solve(A,b): wrong length"); if((int)X.size()!=n) return;
  RV ax=mul(A,X); for(int i=0;i<n;i++) sym_check_eq(ax[i],b[i],M_("A*solve(A,b)=b, row %d",i)); eqM(a,A,"A after solve(A,b)"); eqV(vb,b,"b after solve(A,b)"); sym_reach("done"); }
ENTRY a_solve_mat(){
  int n=sym_choose("n",1,D),m=sym_choose("m",1,3); RM A=symRM("A",n,n),B=symRM("B",n,m); Mat_ a=toM(A),b=toM(B); Mat_ x=EF::solve(a,b); sym_check((int)x.nrows()==n&&(int)x.ncols()==m,"solve(A,B): wrong shape"); if((int)x.nrows()!=n||(int)x.ncols()!=m) return;
  RM X=getM(x); RM AX=mul(A,X); for(int i=0;i<n;i++) for(int j=0;j<m;j++) sym_check_eq(AX(i,j),B(i,j),M_("A*solve(A,B)=B, entry (%d,%d)",i,j)); eqM(a,A,"A after solve(A,B)"); eqM(b,B,"B after solve(A,B)"); sym_reach("done"); }
ENTRY a_chain(){ // S = solve(A,B); S*x is the solution for B*x
  int n=2; RM A=symRM("A",n,n),B=symRM("B",n,3); RV x=symRV("x",3); Mat_ a=toM(A),b=toM(B); Mat_ s=EF::solve(a,b); Vec_ vx=toV(x); Vec_ y=s*vx; RV Y=getV(y); RV l=mul(A,Y),r=mul(B,x); for(int i=0;i<n;i++) sym_check_eq(l[i],r[i],M_("A*(solve(A,B)*x)=B*x, row %d",i)); sym_reach("done"); }
ENTRY a_norm(){
  int r=sym_choose("r",1,2),c=sym_choose("c",1,TH(2,3)); RM A=symRM("A",r,c),B=symRM("B",r,c); Mat_ a=toM(A),b=toM(B); double g=EF::matrixInfNorm(a,b); int hit=0; double mx=0; for(size_t k=0;k<A.a.size();k++){ double d=A.a[k]-B.a[k]; if(d<0) d=-d; sym_check(g>=d,"matrixInfNorm is below an entry difference"); if(d>mx) mx=d; } (void)hit; sym_check_eq(g,mx,"matrixInfNorm is the largest entry difference"); sym_reach("done"); }
ENTRY a_resolve(){ // solving twice with the same objects gives the same answer (no state, inputs not destroyed)
  RM A=symRM("A",2,2); RV b=symRV("b",2); Mat_ a=toM(A); Vec_ vb=toV(b); Vec_ x1=EF::solve(a,vb); Vec_ x2=EF::solve(a,vb); RV X=getV(x2); RV ax=mul(A,X); for(int i=0;i<2;i++) sym_check_eq(ax[i],b[i],M_("second solve, row %d",i)); (void)x1; sym_reach("done"); }
ENTRY a_self(){ // an operand that is the matrix itself, one of its entries, or the target of the assignment
  int n=sym_choose("n",1,D),op=sym_choose("op",0,7),r=sym_choose("r",0,n-1),c=sym_choose("c",0,n-1); RM A=symRM("A",n,n),W(n,n); RV x=symRV("x",n); double e=A(r,c); Mat_ a=toM(A); Vec_ v=toV(x);
  if(op==0){ a*=a(r,c); for(size_t k=0;k<A.a.size();k++) W.a[k]=A.a[k]*e; eqM(a,W,"A*=A(r,c)"); } else if(op==1){ a+=a(r,c); for(size_t k=0;k<A.a.size();k++) W.a[k]=A.a[k]+e; eqM(a,W,"A+=A(r,c)"); } else if(op==2){ a-=a(r,c); for(size_t k=0;k<A.a.size();k++) W.a[k]=A.a[k]-e; eqM(a,W,"A-=A(r,c)"); } else if(op==3){ a=a(r,c)*a; for(size_t k=0;k<A.a.size();k++) W.a[k]=A.a[k]*e; eqM(a,W,"A=A(r,c)*A"); }
  else if(op==4){ a=a*a; eqM(a,mul(A,A),"A=A*A"); } else if(op==5){ v=a*v; eqV(v,mul(A,x),"x=A*x"); } else if(op==6){ a=-a; for(size_t k=0;k<A.a.size();k++) W.a[k]=-A.a[k]; eqM(a,W,"A=-A"); } else { a=a+a; for(size_t k=0;k<A.a.size();k++) W.a[k]=2*A.a[k]; eqM(a,W,"A=A+A"); } sym_reach("done"); }
