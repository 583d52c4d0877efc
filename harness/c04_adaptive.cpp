// @title Merging siblings of different refinement is a consistent coarsening
// @bounds The coarsest sibling has 3 boundary nodes per side (thorough also 4 when the factors are 1 and 2), the others 1, 2 or 4 times as many; every combination of the factors 1 and 2 and a selection (thorough all) of those with 4; every operator entry, particular flux and boundary value an arbitrary real. Coarsened parents split to children with 3 to 4 (thorough 6) nodes per side after one or two coarsenings. One two-level family with fixed operators and arbitrary data.
// @stubs dgesv: contract A X = B (interface system solvable; exact rational arithmetic where A is constant); dgemm/dgemv: reference semantics.
// @assume The averaging and interpolation operators used as the reference are the library's own (what they do is decided by C13).
// @outside Larger patches and level differences; rounding error; sizes for which the interpolation operator is not defined.
// @entry a_merge reach=done
// @entry b_upwards reach=done
// @entry c_split reach=done
// @entry d_chain reach=done
#include "hps.hpp"
static const Rect R2{0.25,4.25,-1,0};
static RM f2c(int nc){ EF::InterpolationMatrixFine2Coarse<double> L(nc); return getM(L); }
static RM c2f(int nf){ EF::InterpolationMatrixCoarse2Fine<double> L(nf); return getM(L); }
static RV apply4(const RM& L,const RV& v){ RV r; int n=v.size()/4; for(int s=0;s<4;s++){ RV q=mul(L,seg(v,s*n,n)); r.insert(r.end(),q.begin(),q.end()); } return r; }
static RM coarse1(const RM& T){ int nf=T.r/4,nc=nf/2; RM A=f2c(nc),B=c2f(nf),M(4*nc,4*nf),O(4*nc,4*nc); 
  for(int s=0;s<4;s++) for(int i=0;i<nc;i++) for(int j=0;j<4*nf;j++){ double v=0; for(int k=0;k<nf;k++) if(A(i,k)!=0) v+=A(i,k)*T(s*nf+k,j); M(s*nc+i,j)=v; }
  for(int i=0;i<4*nc;i++) for(int t=0;t<4;t++) for(int j=0;j<nc;j++){ double v=0; for(int k=0;k<nf;k++) if(B(k,j)!=0) v+=M(i,t*nf+k)*B(k,j); O(i,t*nc+j)=v; } return O; }
static RV avg(RV h,int times){ for(int k=0;k<times;k++) h=apply4(f2c(h.size()/8),h); return h; }
static RV refine(RV g,int times){ for(int k=0;k<times;k++) g=apply4(c2f(g.size()/2),g); return g; }
static int combo(int*lv){ // refinement factors of the four siblings
  int v=sym_choose("levels",0,TH(19,80)); int e[5]={2,2*3+1,2*9+3,2*27+9+1,27+2*3+2}; int code; 
#ifdef SYM_THOROUGH
  code=v;
#else
  code=v<15? (v&1)+(v>>1&1)*3+(v>>2&1)*9+(v>>3&1)*27 : e[v-15];
#endif
  for(int i=0;i<4;i++){ lv[i]=code%3; code/=3; } return lv[0]&&lv[1]&&lv[2]&&lv[3]; }
static void fam(Family& f,int n,const int*lv,bool withH){ f.n=n; f.tau.grid()=gridR(n,R2); for(int i=0;i<4;i++){ int N=n<<lv[i]; f.c[i].grid()=gridR(N,R2.child(i)); f.T[i]=symRM(N_("T",i).c_str(),4*N,4*N); f.c[i].matrixT()=toM(f.T[i]); f.h[i]=withH?symRV(N_("h",i).c_str(),4*N):RV(4*N,0.0); if(withH) f.c[i].vectorH()=toV(f.h[i]); } }
static void recorded(Family& f,const int*lv){ int n=f.n; for(int i=0;i<4;i++){ sym_check(f.c[i].n_coarsens==lv[i],M_("child %d: recorded coarsenings",i)); sym_check(f.c[i].size()==n,M_("child %d: size after the merge",i)); Mat_& T=f.c[i].matrixT(); sym_check(T.nrows()==(size_t)4*n&&T.ncols()==(size_t)4*n,M_("child %d: operator size after the merge",i)); sym_check(f.c[i].grid().nx()==(size_t)(n<<lv[i])&&f.c[i].grid().ny()==(size_t)(n<<lv[i]),M_("child %d: grid is kept",i)); }
  sym_check(f.tau.n_coarsens==0,"parent: recorded coarsenings"); sym_check(f.tau.size()==2*n,"parent: size"); sym_check(f.tau.grid().nx()==(size_t)2*n&&f.tau.grid().ny()==(size_t)2*n,"parent: grid counts"); sym_check_eq(f.tau.grid().xLower(),R2.xl,"parent x lower"); sym_check_eq(f.tau.grid().xUpper(),R2.xu,"parent x upper"); sym_check_eq(f.tau.grid().yLower(),R2.yl,"parent y lower"); sym_check_eq(f.tau.grid().yUpper(),R2.yu,"parent y upper"); }
#define BEGIN Mesh_ mesh; EF::FiniteVolumeSolver sol; HPS_ H(MPI_COMM_WORLD,mesh,sol); setOpts(false,false);
static void common(Family& f,const int*lv,RM* Tc,HPS_& H){ for(int i=0;i<4;i++){ Tc[i]=f.T[i]; for(int k=0;k<lv[i];k++) Tc[i]=coarse1(Tc[i]); } mergeF(H,f); recorded(f,lv); for(int i=0;i<4;i++) eqM(f.c[i].matrixT(),Tc[i],"child operator at the common resolution"); }
ENTRY a_merge(){ int lv[4]; if(combo(lv)) return; int n=3+(lv[0]<2&&lv[1]<2&&lv[2]<2&&lv[3]<2?sym_choose("n",0,TH(0,1)):0); BEGIN setOpts(true,false); Family f; fam(f,n,lv,false); RM Tc[4]; common(f,lv,Tc,H); Mat_& Tt=f.tau.matrixT(); sym_check(Tt.nrows()==(size_t)8*n&&Tt.ncols()==(size_t)8*n,"parent operator size"); if(Tt.nrows()!=(size_t)8*n||Tt.ncols()!=(size_t)8*n) return; RM T=getM(Tt);
  for(int c=0;c<8*n;c+=TH(5,3)){ RV g(8*n,0.0),G[4],F[4]; g[c]=1; if(!splitF(H,f,g,G,"family")) return; checkInnerOuter(G,g,n,"family"); for(int i=0;i<4;i++) F[i]=mul(Tc[i],G[i]); checkBalance(F,n,"family"); RV o=outer(F,n); for(int k=0;k<8*n;k++) sym_check_eq(T(k,c),o[k],M_("parent operator entry (%d,%d)",k,c)); } sym_reach("done"); }
ENTRY b_upwards(){ int lv[4]; if(combo(lv)) return; int n=3; BEGIN Family f; fam(f,n,lv,true); RM Tc[4]; common(f,lv,Tc,H); upF(H,f); sym_check(f.tau.vectorH().size()==(size_t)8*n,"parent particular flux size"); if(f.tau.vectorH().size()!=(size_t)8*n) return; RV h=getV(f.tau.vectorH()),g(8*n,0.0),G[4],F[4]; if(!splitF(H,f,g,G,"sweep")) return; checkInnerOuter(G,g,n,"sweep");
  for(int i=0;i<4;i++){ F[i]=mul(Tc[i],G[i]); RV a=avg(f.h[i],lv[i]); for(int k=0;k<4*n;k++) F[i][k]+=a[k]; } checkBalance(F,n,"sweep"); RV o=outer(F,n); for(int k=0;k<8*n;k++) sym_check_eq(h[k],o[k],M_("parent particular flux %d",k)); sym_reach("done"); }
ENTRY c_split(){ int k=sym_choose("coarsenings",1,2),N=sym_choose("n",3,TH(4,6)); if(k==2&&(N%2||N<6)) N=6; BEGIN Family f; f.n=N; f.tau.grid()=gridR(2*N,R2); f.tau.n_coarsens=k; for(int i=0;i<4;i++){ f.c[i].grid()=gridR(N,R2.child(i)); f.c[i].matrixT()=toM(RM(4*N,4*N)); }
  int w[4]; if(!probe(H,f,w)) return; int m=2*N>>k; RV g=symRV("g",4*m),W=symRV("w",4*N); RM S(4*N,8*N); for(int i=0;i<4*N;i++) for(int j=0;j<8*N;j++) S(i,j)=((i*7+j*3+i*j)%5)-2; f.tau.matrixS()=toM(S); f.tau.vectorW()=toV(W); RV G[4]; if(!splitF(H,f,g,G,"coarsened parent")) return; RV fine=refine(g,k); checkInnerOuter(G,fine,N,"coarsened parent"); RV u=mul(S,fine); for(int i=0;i<4*N;i++) u[i]+=W[i];
  RV I[4]; iface(G,N,I); for(int b=0;b<4;b++) for(int j=0;j<N;j++) sym_check_eq(I[b][j],u[w[b]*N+j],M_("coarsened parent: interface %d value %d",b,j)); sym_check(f.tau.n_coarsens==k,"coarsenings after the split"); sym_reach("done"); }
// lower-left child is itself a parent of four leaves; the other three children are leaves
static RM fixT(int n,int s){ RM T(4*n,4*n); for(int i=0;i<4*n;i++) for(int j=0;j<4*n;j++) T(i,j)=(i==j?(s%2?9.0:-8.0)+s:0)+(((i*5+j*3+s*7+i*j)%7)-3)*0.125; return T; }
ENTRY d_chain(){ int n=3,which=sym_choose("refined",0,3); BEGIN Family lo,hi; lo.n=n; hi.n=n; Rect q=R2.child(which); lo.tau.grid()=gridR(n,q); hi.tau.grid()=gridR(n,R2);
  for(int i=0;i<4;i++){ lo.c[i].grid()=gridR(n,q.child(i)); lo.T[i]=fixT(n,i); lo.c[i].matrixT()=toM(lo.T[i]); lo.h[i]=symRV(N_("hl",i).c_str(),4*n); lo.c[i].vectorH()=toV(lo.h[i]); if(i!=which){ hi.c[i].grid()=gridR(n,R2.child(i)); hi.T[i]=fixT(n,4+i); hi.c[i].matrixT()=toM(hi.T[i]); hi.h[i]=symRV(N_("hh",i).c_str(),4*n); hi.c[i].vectorH()=toV(hi.h[i]); } }
  Patch_* p[4]; for(int i=0;i<4;i++) p[i]=i==which?&lo.tau:&hi.c[i];
  mergeF(H,lo); RM Tp=getM(lo.tau.matrixT()); H.merge4to1(hi.tau,*p[0],*p[1],*p[2],*p[3]); upF(H,lo); RV hp=getV(lo.tau.vectorH()); H.upwards4to1(hi.tau,*p[0],*p[1],*p[2],*p[3]);
  sym_check(lo.tau.n_coarsens==1&&lo.tau.size()==n,"refined sibling is coarsened once"); for(int i=0;i<4;i++) if(i!=which) sym_check(p[i]->n_coarsens==0,"coarse siblings stay"); sym_check(Tp.r==8*n,"refined sibling's operator"); if(Tp.r!=8*n) return;
  RV g=symRV("g",8*n); hi.tau.vectorG()=toV(g); H.split1to4(hi.tau,*p[0],*p[1],*p[2],*p[3]); RV G[4],F[4]; for(int i=0;i<4;i++){ sym_check(p[i]->vectorG().size()==(size_t)4*n,"children's data at the common resolution"); if(p[i]->vectorG().size()!=(size_t)4*n) return; G[i]=getV(p[i]->vectorG()); RM T=i==which?coarse1(Tp):hi.T[i]; RV h=i==which?avg(hp,1):hi.h[i]; F[i]=mul(T,G[i]); for(int k=0;k<4*n;k++) F[i][k]+=h[k]; }
  checkInnerOuter(G,g,n,"coarse family"); checkBalance(F,n,"coarse family"); RV o=outer(F,n),t=mul(getM(hi.tau.matrixT()),g),hh=getV(hi.tau.vectorH()); for(int k=0;k<8*n;k++) sym_check_eq(t[k]+hh[k],o[k],M_("coarse family: parent flux %d",k));
  RV fine=refine(G[which],1),L[4],E[4]; H.split1to4(lo.tau,lo.c[0],lo.c[1],lo.c[2],lo.c[3]); if(!shapes(lo.c,n,"fine family")) return; for(int i=0;i<4;i++){ L[i]=getV(lo.c[i].vectorG()); E[i]=mul(lo.T[i],L[i]); for(int k=0;k<4*n;k++) E[i][k]+=lo.h[i][k]; } checkInnerOuter(L,fine,n,"fine family"); checkBalance(E,n,"fine family"); RV fo=outer(E,n),ft=mul(Tp,fine); for(int k=0;k<8*n;k++) sym_check_eq(ft[k]+hp[k],fo[k],M_("fine family: parent flux %d",k)); sym_reach("done"); }
