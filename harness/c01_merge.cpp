// @title Merging four patches enforces flux continuity and yields the parent operator
// @bounds Children with 1 to 4 (thorough 6) boundary nodes per side; every entry of the four children's operators an arbitrary real; every unit vector of parent boundary data (the operators are linear), plus a dense vector; three rectangles; parents merged twice in a row with different operators.
// @stubs dgesv: contract A X = B (interface system solvable); dgemm/dgemv: reference semantics.
// @outside Larger patches; rounding error; singular interface systems; siblings of different refinement (C04).
// @entry m_unit reach=done
// @entry m_dense reach=done
// @entry m_again reach=done
#include "hps.hpp"
static const Rect R3[3]={{0,2,0,2},{0.25,4.25,-1,0},{-2,-1,3,11}};
static bool famShape(Family& f,Rect r,const char* m){ int n=f.n; Mat_& T=f.tau.matrixT(); bool ok=T.nrows()==(size_t)8*n&&T.ncols()==(size_t)8*n; sym_check(ok,M_("%s: parent operator shape",m)); 
  auto& g=f.tau.grid(); sym_check(g.nx()==(size_t)2*n&&g.ny()==(size_t)2*n,M_("%s: parent grid counts",m)); sym_check(f.tau.size()==2*n,M_("%s: parent size",m)); sym_check_eq(g.xLower(),r.xl,"parent x lower"); sym_check_eq(g.xUpper(),r.xu,"parent x upper"); sym_check_eq(g.yLower(),r.yl,"parent y lower"); sym_check_eq(g.yUpper(),r.yu,"parent y upper");
  sym_check_eq(g.dx(),(r.xu-r.xl)/(2*n),"parent dx"); sym_check_eq(g(0,0),r.xl+(r.xu-r.xl)/(4*n),"parent first centre"); for(int i=0;i<4;i++){ sym_check(f.c[i].n_coarsens==0,"no coarsening among equals"); eqM(f.c[i].matrixT(),f.T[i],"child operator after the merge"); } return ok; }
static void family(HPS_& H,Family& f,Rect r,const char* m){ int n=f.n; if(!famShape(f,r,m)) return; RM T=getM(f.tau.matrixT());
  for(int c=0;c<8*n;c++){ RV g(8*n,0.0),G[4],F[4]; g[c]=1; if(!splitF(H,f,g,G,m)) return; checkInnerOuter(G,g,n,m); for(int i=0;i<4;i++) F[i]=mul(f.T[i],G[i]); checkBalance(F,n,m); RV o=outer(F,n); for(int k=0;k<8*n;k++) sym_check_eq(T(k,c),o[k],M_("%s: parent operator entry (%d,%d)",m,k,c)); } }
ENTRY m_unit(){ int n=sym_choose("n",1,TH(4,6)); Rect r=R3[sym_choose("rect",0,2)]; setOpts(true,false); Mesh_ mesh; EF::FiniteVolumeSolver sol; HPS_ H(MPI_COMM_WORLD,mesh,sol); Family f; symFamily(f,n,r,false); mergeF(H,f); family(H,f,r,"merge"); sym_reach("done"); }
ENTRY m_dense(){ int n=sym_choose("n",1,TH(4,6)); Rect r=R3[0]; setOpts(true,false); Mesh_ mesh; EF::FiniteVolumeSolver sol; HPS_ H(MPI_COMM_WORLD,mesh,sol); Family f; symFamily(f,n,r,false); mergeF(H,f); RM T=getM(f.tau.matrixT()); RV g(8*n),G[4],F[4]; for(int k=0;k<8*n;k++) g[k]=1+k*k-0.5*k; if(!splitF(H,f,g,G,"dense data")) return; checkInnerOuter(G,g,n,"dense data"); for(int i=0;i<4;i++) F[i]=mul(f.T[i],G[i]); checkBalance(F,n,"dense data"); RV o=outer(F,n),t=mul(T,g); for(int k=0;k<8*n;k++) sym_check_eq(t[k],o[k],M_("parent flux %d for dense boundary data",k)); sym_reach("done"); }
ENTRY m_again(){ // the same algorithm object merges families of different sizes; the same parent is merged again with new operators
  Rect r=R3[1]; setOpts(true,false); Mesh_ mesh; EF::FiniteVolumeSolver sol; HPS_ H(MPI_COMM_WORLD,mesh,sol); Family a,b; symFamily(a,2,R3[2],false,"A"); mergeF(H,a); symFamily(b,1,r,false); mergeF(H,b); family(H,b,r,"second family");
  for(int i=0;i<4;i++){ b.T[i]=symRM(N_("T2",i).c_str(),4,4); b.c[i].matrixT()=toM(b.T[i]); } mergeF(H,b); family(H,b,r,"merged again"); family(H,a,R3[2],"first family"); sym_reach("done"); }
