// @title Out-of-range access and mismatched dimensions throw and never touch memory outside the container
// @bounds Containers up to 2x3 / length 3; each index an arbitrary integer in [-2, size+2], ranges whose end comes before their start (plus huge values near 2^64 for segment and block starts); every operand shape up to 3.
// @stubs BLAS/LAPACK models assert the legality of the dimensions they are given.
// @outside Larger containers.
// @entry b_matrix_construct reach=in,out
// @entry b_matrix_index reach=in,out
// @entry b_matrix_range reach=in,out
// @entry b_matrix_reversed reach=out
// @entry b_vector_reversed reach=out
// @entry b_matrix_rowcol reach=in,out
// @entry b_matrix_setrowcol reach=in,out
// @entry b_matrix_indexset reach=in,out
// @entry b_matrix_block reach=in,out
// @entry b_matrix_shapes reach=in,out
// @entry b_matrix_permute reach=in,out
// @entry b_vector_index reach=in,out
// @entry b_vector_segment reach=in,out
// @entry b_vector_indexset reach=in,out
// @entry b_vector_shapes reach=in,out
// @entry b_vector_permute reach=in,out
#include "common.hpp"
#include <stdexcept>
template<class F> static int tryit(F f){ try{ f(); return 0; }catch(const std::exception& e){ return 1; } }
static void expect(bool ok,int threw,const char* what){ if(ok){ sym_check(!threw,M_("%s: throws for valid arguments",what)); sym_reach("in"); } else { sym_check(threw,M_("%s: does not throw for invalid arguments",what)); sym_reach("out"); } }
ENTRY b_matrix_construct(){ // data of any length for any shape
  int r=sym_choose("r",0,2),c=sym_choose("c",0,3),n=sym_choose("n",0,7),k=sym_choose("how",0,1); RV x=symRV("x",n); Mat_ A(1,1,9.0); int t=0; if(k==0) t=tryit([&]{ A=Mat_(r,c,x); }); else { if(n>3) return; t=tryit([&]{ switch(n){ case 0: A=Mat_(r,c,std::initializer_list<double>{}); break; case 1: A=Mat_(r,c,{x[0]}); break; case 2: A=Mat_(r,c,{x[0],x[1]}); break; default: A=Mat_(r,c,{x[0],x[1],x[2]}); } }); }
  expect(n==r*c,t,"construction from data"); if(!t&&n==r*c){ RM R(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) R(i,j)=x[j+i*c]; eqM(A,R,"matrix from data"); } }
ENTRY b_matrix_index(){
  int r=sym_choose("r",1,2),c=sym_choose("c",1,3); RM R=symRM("A",r,c); Mat_ A=toM(R); int i=sym_int("i",-2,r+2),j=sym_int("j",-2,c+2); bool ok=i>=0&&i<r&&j>=0&&j<c; int k=sym_choose("op",0,2); double g=0,v=sym_double("v"); int t=0;
  if(k==0){ t=tryit([&]{ g=A(i,j); }); expect(ok,t,"A(i,j)"); } else if(k==1){ t=tryit([&]{ g=A.getEntry(i,j); }); expect(ok,t,"getEntry(i,j)"); } else { t=tryit([&]{ A(i,j)=v; }); expect(ok,t,"A(i,j)=v"); if(ok&&!t) R(i,j)=v; g=v; } if(ok&&!t) sym_check_eq(g,R(i,j),"entry"); eqM(A,R,"matrix after an access"); }
ENTRY b_matrix_range(){
  int r=2,c=sym_choose("c",1,3); RM R=symRM("A",r,c); Mat_ A=toM(R); int a=sym_choose("a",0,r+1),b=sym_choose("b",a,r+1),d=sym_choose("c0",0,c+1),e=sym_choose("d",d,c+1); bool ok=b<r&&e<c; int t=tryit([&]{ Mat_ B=A(a,b,d,e); }); expect(ok,t,"A(a,b,c,d)"); }
ENTRY b_matrix_reversed(){ // ends before starts: the extents wrap around
  int c=sym_choose("c",2,4); RM R=symRM("A",3,c); Mat_ A=toM(R); int a=sym_choose("a",0,3),b=sym_choose("b",0,3),d=sym_choose("c0",0,4),e=sym_choose("d",0,4); sym_assume(a>b+1||d>e+1); sym_assume(a!=b+1&&d!=e+1); expect(false,tryit([&]{ Mat_ B=A(a,b,d,e); }),"A(a,b,c,d) with the end before the start"); eqM(A,R,"matrix after a reversed range"); }
ENTRY b_vector_reversed(){
  int n=sym_choose("n",3,5); RV x=symRV("v",n); Vec_ v=toV(x); int a=sym_choose("a",2,6),b=sym_choose("b",0,4); sym_assume(a>b+1); int k=sym_choose("op",0,1); expect(false,tryit([&]{ if(k) Vec_ w=v(a,b); else Vec_ w=v.getRange(a,b); }),"range with the end before the start"); eqV(v,x,"vector after a reversed range"); }
ENTRY b_matrix_rowcol(){
  int r=sym_choose("r",1,2),c=sym_choose("c",1,3); RM R=symRM("A",r,c); Mat_ A=toM(R); int k=sym_choose("op",0,1); int i=sym_choose("i",-2,4); if(k==0) expect(i>=0&&i<r,tryit([&]{ Vec_ v=A.getRow(i); }),"getRow"); else expect(i>=0&&i<c,tryit([&]{ Vec_ v=A.getCol(i); }),"getCol"); }
ENTRY b_matrix_setrowcol(){
  int r=sym_choose("r",1,2),c=sym_choose("c",1,3); RM R=symRM("A",r,c); Mat_ A=toM(R); int k=sym_choose("op",0,1); int i=sym_choose("i",-2,4),n=sym_choose("n",0,4); RV v=symRV("v",n); Vec_ V=toV(v); bool ok=k==0?(i>=0&&i<r&&n==c):(i>=0&&i<c&&n==r); int t=k==0?tryit([&]{ A.setRow(i,V); }):tryit([&]{ A.setColumn(i,V); }); expect(ok,t,k==0?"setRow":"setColumn"); if(ok&&!t) for(int q=0;q<n;q++) (k==0?R(i,q):R(q,i))=v[q]; eqM(A,R,"matrix after setRow/setColumn"); }
ENTRY b_matrix_indexset(){
  int r=2,c=2; RM R=symRM("A",r,c); Mat_ A=toM(R); int m=sym_choose("m",1,2); IVec_ I(m),J(m); bool ok=true; int side=sym_choose("side",0,1); for(int k=0;k<m;k++){ int x=sym_choose(N_("x",k).c_str(),-2,3); I[k]=side?0:x; J[k]=side?x:1; ok=ok&&x>=0&&x<2; } int t=sym_choose("op",0,1)?tryit([&]{ Mat_ B=A(I,J); }):tryit([&]{ Mat_ B=A.getFromIndexSet(I,J); }); expect(ok,t,"A(I,J)"); }
ENTRY b_matrix_block(){
  int r=2,c=2; RM R=symRM("A",r,c); Mat_ A=toM(R); int k=sym_choose("op",0,1); std::size_t v[4]; const char* nm[4]={"i","j","h","w"}; for(int q=0;q<4;q++){ int x=sym_choose(nm[q],q<2?-2:0,3); v[q]=(std::size_t)(long)x; } bool ok=v[0]<=2&&v[1]<=2&&v[2]<=2-v[0]&&v[3]<=2-v[1];
  if(k==0){ int t=tryit([&]{ Mat_ B=A.getBlock(v[0],v[1],v[2],v[3]); sym_check(B.data().size()==B.nrows()*B.ncols(),"getBlock returns a matrix whose storage does not match its shape"); }); expect(ok,t,"getBlock"); }
  else { Mat_ B((std::size_t)v[2],(std::size_t)v[3],1.5); int t=tryit([&]{ A.setBlock(v[0],v[1],B); }); expect(ok,t,"setBlock"); if(ok&&!t) for(size_t p=0;p<v[2];p++) for(size_t q=0;q<v[3];q++) R(v[0]+p,v[1]+q)=1.5; eqM(A,R,"matrix after setBlock"); } }
ENTRY b_matrix_shapes(){
  int r=sym_choose("r",1,2),c=sym_choose("c",1,2),p=sym_choose("p",1,2),q=sym_choose("q",1,2),k=sym_choose("op",0,8); RM A=symRM("A",r,c),B=symRM("B",p,q); Mat_ a=toM(A),b=toM(B); RV x=symRV("x",p); Vec_ v=toV(x); bool same=r==p&&c==q; int t=0; bool ok=same; const char* w="";
  switch(k){ case 0: w="A+=B"; t=tryit([&]{ a+=b; }); break; case 1: w="A-=B"; t=tryit([&]{ a-=b; }); break; case 2: w="A+B"; t=tryit([&]{ Mat_ z=a+b; }); break; case 3: w="A-B"; t=tryit([&]{ Mat_ z=a-b; }); break;
    case 4: w="A*B"; ok=c==p; t=tryit([&]{ Mat_ z=a*b; }); break; case 5: w="A*x"; ok=c==p; t=tryit([&]{ Vec_ z=a*v; }); break; case 6: w="solve(A,b)"; ok=r==c&&r==p; t=tryit([&]{ Vec_ z=EF::solve(a,v); }); break; case 7: w="solve(A,B)"; ok=r==c&&r==p; t=tryit([&]{ Mat_ z=EF::solve(a,b); }); break; case 8: w="matrixInfNorm"; t=tryit([&]{ EF::matrixInfNorm(a,b); }); break; }
  expect(ok,t,w); if(t) { eqM(a,A,"left operand after a rejected operation"); eqM(b,B,"right operand after a rejected operation"); } }
ENTRY b_matrix_permute(){
  RM R=symRM("A",2,2); Mat_ A=toM(R); int side=sym_choose("side",0,1),n=sym_choose("n",1,2); std::vector<int> sz,p; int tot=0; bool ok=true; for(int k=0;k<n;k++){ sz.push_back(sym_choose(N_("s",k).c_str(),0,3)); tot+=sz.back(); } bool sizes_ok=tot==2; for(int k=0;k<n;k++){ p.push_back(sym_choose(N_("p",k).c_str(),0,n)); if(p.back()>=n) ok=false; }
  if(n==2&&p[0]==p[1]) { sym_assume(0); } IVec_ I(p),S(sz),I1(1,0),S1(1,2); int t=side?tryit([&]{ Mat_ B=A.blockPermute(I1,I,S1,S); }):tryit([&]{ Mat_ B=A.blockPermute(I,I1,S,S1); }); expect(ok&&sizes_ok,t,"blockPermute"); eqM(A,R,"matrix after blockPermute"); }
ENTRY b_vector_index(){
  int n=sym_choose("n",0,3); RV x=symRV("x",n); Vec_ a=toV(x); const Vec_& ca=a; int i=sym_int("i",-2,n+2); bool ok=i>=0&&i<n; int k=sym_choose("op",0,4); double g=0,v=sym_double("v"); int t=0;
  switch(k){ case 0: t=tryit([&]{ g=a[i]; }); break; case 1: t=tryit([&]{ g=a(i); }); break; case 2: t=tryit([&]{ g=ca[i]; }); break; case 3: t=tryit([&]{ g=a.getEntry(i); }); break; case 4: t=tryit([&]{ a[i]=v; }); if(ok&&!t) x[i]=v; g=v; break; }
  expect(ok,t,M_("vector element access %d",k)); if(ok&&!t) sym_check_eq(g,x[i],"entry"); eqV(a,x,"vector after an access"); }
ENTRY b_vector_segment(){
  int n=sym_choose("n",0,3); RV x=symRV("x",n); Vec_ a=toV(x); int k=sym_choose("op",0,2); std::size_t s=(std::size_t)(long)sym_choose("s",-2,4),l=sym_choose("l",0,4); bool ok=s<=(size_t)n&&l<=n-s;
  if(k==0) expect(ok,tryit([&]{ Vec_ g=a.getSegment(s,l); }),"getSegment"); else if(k==1){ Vec_ b(l,2.5); int t=tryit([&]{ a.setSegment(s,b); }); expect(ok,t,"setSegment"); if(ok&&!t) for(size_t q=0;q<l;q++) x[s+q]=2.5; eqV(a,x,"vector after setSegment"); }
  else { std::size_t e=s+l; bool okr=s<(size_t)n&&e<(size_t)n; sym_assume(e>=s); expect(okr,tryit([&]{ Vec_ g=a.getRange(s,e); Vec_ h=a(s,e); }),"getRange"); } }
ENTRY b_vector_indexset(){
  int n=sym_choose("n",1,3); RV x=symRV("x",n); Vec_ a=toV(x); int m=sym_choose("m",1,n<2?n:2); IVec_ I(m); bool ok=true; for(int k=0;k<m;k++){ int v=sym_choose(N_("I",k).c_str(),-2,n+2); I[k]=v; ok=ok&&v>=0&&v<n; } int t=sym_choose("op",0,1)?tryit([&]{ Vec_ g=a(I); }):tryit([&]{ Vec_ g=a.getFromIndexSet(I); }); expect(ok,t,"index set"); }
ENTRY b_vector_shapes(){
  int n=sym_choose("n",0,2),m=sym_choose("m",0,3),k=sym_choose("op",0,8); RV x=symRV("x",n),y(m,1.0); Vec_ a=toV(x),b=toV(y); int t=0; switch(k){ case 0: t=tryit([&]{ a+=b; }); break; case 1: t=tryit([&]{ a-=b; }); break; case 2: t=tryit([&]{ Vec_ z=a+b; }); break; case 3: t=tryit([&]{ Vec_ z=a-b; }); break; case 4: t=tryit([&]{ (void)(a*b); }); break; case 5: t=tryit([&]{ Vec_ z=EF::operator*(a,b); }); break; case 6: t=tryit([&]{ Vec_ z=a/b; }); break; case 7: t=tryit([&]{ EF::vectorInfNorm(a,b); }); break; case 8: t=tryit([&]{ EF::vectorL2Norm(a,b); }); break; }
  expect(n==m,t,M_("vector binary operation %d",k)); if(t) eqV(a,x,"operand after a rejected operation"); }
ENTRY b_vector_permute(){
  RV x=symRV("x",3); Vec_ a=toV(x); int n=sym_choose("n",1,2); std::vector<int> sz,p; int tot=0; bool ok=true; for(int k=0;k<n;k++){ sz.push_back(sym_choose(N_("s",k).c_str(),0,3)); tot+=sz.back(); } for(int k=0;k<n;k++){ p.push_back(sym_choose(N_("p",k).c_str(),0,n)); if(p.back()>=n) ok=false; } if(n==2&&p[0]==p[1]) sym_assume(0); IVec_ I(p),S(sz); int t=tryit([&]{ Vec_ g=a.blockPermute(I,S); }); expect(ok&&tot==3,t,"blockPermute"); eqV(a,x,"vector after blockPermute"); }
