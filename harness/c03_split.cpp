// @title Splitting a parent hands each child exactly its Dirichlet data
// @bounds Parents with 1 to 4 (thorough 8) boundary nodes per child side; arbitrary real boundary data, solution operator and particular interface vector; repeated splits; homogeneous splits with and without particular values held from before; parents of which one, two or three children carry a boundary coarsened once or twice; and families merged from arbitrary operators (1 to 3, thorough 4, nodes per side), where the interface values must balance the fluxes.
// @stubs dgesv: contract A X = B (interface system solvable); dgemm/dgemv: reference semantics.
// @assume With an arbitrary solution operator the order in which the operator lists the four interfaces is taken from a probe of the split itself; that this order agrees with the merge is decided by the merged entries.
// @outside Larger patches; rounding error; a parent that was coarsened (C04).
// @entry p_any reach=done
// @entry p_homogeneous reach=done
// @entry p_merged reach=done
// @entry p_again reach=done
// @entry p_coarsened reach=done
#include "hps.hpp"
static const Rect R2{0.25,4.25,-1,0};
static void bare(Family& f,int n){ f.n=n; f.tau.grid()=gridR(2*n,R2); for(int i=0;i<4;i++){ f.c[i].grid()=gridR(n,R2.child(i)); f.c[i].vectorG()=toV(RV(3,7.0)); f.c[i].matrixT()=toM(RM(4*n,4*n)); } }
static void expectSplit(HPS_& H,Family& f,const int* where,const RM& S,const RV& W,const RV& g,const char* m){ int n=f.n; RV G[4],I[4]; if(!splitF(H,f,g,G,m)) return; checkInnerOuter(G,g,n,m); iface(G,n,I); RV u=mul(S,g); for(int b=0;b<4;b++) for(int k=0;k<n;k++) sym_check_eq(I[b][k],u[where[b]*n+k]+W[where[b]*n+k],M_("%s: interface %d value %d",m,b,k)); eqV(f.tau.vectorG(),g,"parent data after the split"); }
#define BEGIN Mesh_ mesh; EF::FiniteVolumeSolver sol; HPS_ H(MPI_COMM_WORLD,mesh,sol); setOpts(false,false);
ENTRY p_any(){ int n=sym_choose("n",1,TH(4,8)); BEGIN Family f; bare(f,n); int w[4]; if(!probe(H,f,w)) return; RM S=symRM("S",4*n,8*n); RV W=symRV("w",4*n),g=symRV("g",8*n); f.tau.matrixS()=toM(S); f.tau.vectorW()=toV(W); expectSplit(H,f,w,S,W,g,"split"); eqM(f.tau.matrixS(),S,"solution operator after the split"); eqV(f.tau.vectorW(),W,"particular values after the split"); sym_reach("done"); }
ENTRY p_homogeneous(){ int n=sym_choose("n",1,3); BEGIN Family f; bare(f,n); int w[4]; if(!probe(H,f,w)) return; setOpts(true,false); RM S=symRM("S",4*n,8*n); RV g=symRV("g",8*n); f.tau.matrixS()=toM(S); if(sym_choose("held",0,1)) f.tau.vectorW()=toV(symRV("held",4*n)); else f.tau.vectorW()=Vec_(); expectSplit(H,f,w,S,RV(4*n,0.0),g,"homogeneous split"); sym_reach("done"); }
ENTRY p_merged(){ int n=sym_choose("n",1,TH(3,4)); BEGIN Family f; symFamily(f,n,R2,true); mergeF(H,f); upF(H,f); for(int c=-1;c<8*n;c++){ RV g(8*n,0.0),G[4],F[4]; if(c>=0) g[c]=1; else for(int k=0;k<8*n;k++) g[k]=k*k-2; if(!splitF(H,f,g,G,"merged family")) return; checkInnerOuter(G,g,n,"merged family"); for(int i=0;i<4;i++){ F[i]=mul(f.T[i],G[i]); for(int k=0;k<4*n;k++) F[i][k]+=f.h[i][k]; } checkBalance(F,n,"merged family"); } sym_reach("done"); }
ENTRY p_again(){ int n=2; BEGIN Family f; bare(f,n); int w[4]; if(!probe(H,f,w)) return; RM S=symRM("S",4*n,8*n); RV W=symRV("w",4*n); f.tau.matrixS()=toM(S); f.tau.vectorW()=toV(W); expectSplit(H,f,w,S,W,symRV("g1",8*n),"first split"); expectSplit(H,f,w,S,W,symRV("g2",8*n),"second split"); RV W2=symRV("w2",4*n); f.tau.vectorW()=toV(W2); expectSplit(H,f,w,S,W2,symRV("g3",8*n),"third split"); sym_reach("done"); }

ENTRY p_coarsened(){ int n=sym_choose("n",1,2),mask=sym_choose("coarsened children",1,14),k=sym_choose("times",1,2); BEGIN Family f; bare(f,n); for(int i=0;i<4;i++) if(mask>>i&1){ f.c[i].grid()=gridR(n<<k,R2.child(i)); f.c[i].n_coarsens=k; } int w[4]; if(!probe(H,f,w)) return; RM S=symRM("S",4*n,8*n); RV W=symRV("w",4*n),g=symRV("g",8*n); f.tau.matrixS()=toM(S); f.tau.vectorW()=toV(W); expectSplit(H,f,w,S,W,g,"split"); sym_reach("done"); }
