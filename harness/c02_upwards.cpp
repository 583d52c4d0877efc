// @title Upward sweep carries inhomogeneous data into parent interface values and fluxes
// @bounds Children with 1 to 4 (thorough 6) boundary nodes per side; every entry of the four children's operators and particular fluxes an arbitrary real; repeated upward sweeps with new data after one merge; several families swept in turn; zero, unit and dense parent boundary data.
// @stubs dgesv: contract A X = B (interface system solvable); dgemm/dgemv: reference semantics.
// @outside Larger patches; rounding error; singular interface systems; siblings of different refinement (C04).
// @entry u_zero reach=done
// @entry u_with_data reach=done
// @entry u_repeat reach=done
// @entry u_two_families reach=done
// @entry u_same_size reach=done
// @entry u_homogeneous reach=done
#include "hps.hpp"
static const Rect R2{0.25,4.25,-1,0};
static void setH(Family& f,const char* nm){ for(int i=0;i<4;i++){ f.h[i]=symRV(N_(nm,i).c_str(),4*f.n); f.c[i].vectorH()=toV(f.h[i]); } }
// parent boundary data g: interface balance including the particular fluxes; parent flux = T g + h
static void particular(HPS_& H,Family& f,const RV& g,const char* m){ int n=f.n; Vec_& hv=f.tau.vectorH(); sym_check(hv.size()==(size_t)8*n,M_("%s: parent particular flux length",m)); if(hv.size()!=(size_t)8*n) return; RV h=getV(hv); RM T=getM(f.tau.matrixT()); sym_check(T.r==8*n&&T.c==8*n,"parent operator shape"); if(T.r!=8*n||T.c!=8*n) return;
  RV G[4],F[4]; if(!splitF(H,f,g,G,m)) return; checkInnerOuter(G,g,n,m); for(int i=0;i<4;i++){ F[i]=mul(f.T[i],G[i]); for(int k=0;k<4*n;k++) F[i][k]+=f.h[i][k]; } checkBalance(F,n,m); RV o=outer(F,n),t=mul(T,g); for(int k=0;k<8*n;k++) sym_check_eq(h[k]+t[k],o[k],M_("%s: parent flux %d",m,k)); for(int i=0;i<4;i++) eqV(f.c[i].vectorH(),f.h[i],"child particular flux after the sweep"); }
#define BEGIN Mesh_ mesh; EF::FiniteVolumeSolver sol; HPS_ H(MPI_COMM_WORLD,mesh,sol); setOpts(false,false);
ENTRY u_zero(){ int n=sym_choose("n",1,TH(4,6)); BEGIN Family f; symFamily(f,n,R2,true); mergeF(H,f); upF(H,f); particular(H,f,RV(8*n,0.0),"zero data"); sym_reach("done"); }
ENTRY u_with_data(){ int n=sym_choose("n",1,TH(4,6)); BEGIN Family f; symFamily(f,n,R2,true); mergeF(H,f); upF(H,f); RV g(8*n); for(int k=0;k<8*n;k++) g[k]=1+k*k-0.5*k; particular(H,f,g,"dense data"); for(int c=0;c<8*n;c++){ RV e(8*n,0.0); e[c]=-2; particular(H,f,e,"unit data"); } sym_reach("done"); }
ENTRY u_repeat(){ int n=sym_choose("n",1,2); BEGIN Family f; symFamily(f,n,R2,true); mergeF(H,f); RV g(8*n); for(int k=0;k<8*n;k++) g[k]=k-3; for(int r=0;r<TH(2,3);r++){ if(r) setH(f,r==1?"second":"third"); upF(H,f); particular(H,f,RV(8*n,0.0),M_("sweep %d, zero data",r)); particular(H,f,g,M_("sweep %d",r)); } sym_reach("done"); }
ENTRY u_two_families(){ BEGIN Family a,b; symFamily(a,2,R2,true); symFamily(b,1,Rect{0,2,0,2},true,"B"); mergeF(H,a); mergeF(H,b); upF(H,a); upF(H,b); particular(H,a,RV(16,0.0),"first family"); RV g(8); for(int k=0;k<8;k++) g[k]=2*k+1; particular(H,b,g,"second family"); upF(H,a); particular(H,a,RV(16,1.0),"first family again"); sym_reach("done"); }
ENTRY u_same_size(){ // families of one size swept in turn, as the stages do
  BEGIN Family a,b; symFamily(a,1,R2,true,"A"); symFamily(b,1,Rect{0,2,0,2},true,"B"); mergeF(H,a); mergeF(H,b); upF(H,a); upF(H,b); RV g(8); for(int k=0;k<8;k++) g[k]=2*k+1; particular(H,a,g,"first"); particular(H,b,g,"second"); upF(H,b); upF(H,a); particular(H,b,g,"second again"); particular(H,a,g,"first again"); sym_reach("done"); }
ENTRY u_homogeneous(){ // homogeneous problems: no particular data takes part in the split
  BEGIN setOpts(true,false); Family f; symFamily(f,1,R2,false); mergeF(H,f); upF(H,f); RV g(8); for(int k=0;k<8;k++) g[k]=k*k-3; RV G[4],F[4]; if(!splitF(H,f,g,G,"homogeneous")) return; for(int i=0;i<4;i++) F[i]=mul(f.T[i],G[i]); checkInnerOuter(G,g,1,"homogeneous"); checkBalance(F,1,"homogeneous"); sym_reach("done"); }
