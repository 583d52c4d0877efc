// @title Matrix sub-structure access moves exactly the addressed entries
// @bounds Matrices up to 3x3 (thorough 4x4), up to 3 diagonal blocks of up to 2x2 (thorough 3x3), block partitions with up to 4 blocks of 0..2 rows; all entries arbitrary reals; every in-range index combination within those shapes.
// @outside Larger shapes; element types other than double; NaN entries.
// @entry m_ctor reach=done
// @entry m_access reach=done
// @entry m_range reach=done
// @entry m_rowcol reach=done
// @entry m_setrowcol reach=done
// @entry m_block reach=done
// @entry m_setblock reach=done
// @entry m_transpose reach=done
// @entry m_indexset reach=done
// @entry m_permute reach=done
// @entry m_blockdiag reach=done
// @entry m_special reach=done
// @entry m_self reach=done
#include "common.hpp"
static const int D=TH(3,4);
ENTRY m_ctor(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM R=symRM("A",r,c);
  Mat_ A(r,c,R.a); eqM(A,R,"Matrix(rows, cols, row-major data)");
  double v=sym_double("v"); Mat_ B(r,c,v); RM V(r,c); for(auto&x:V.a) x=v; eqM(B,V,"Matrix(rows, cols, value)");
  Mat_ C(A); eqM(C,R,"copy constructor"); if(r&&c){ C(0,0)=v; } eqM(A,R,"source of a copy after the copy was written");
  Mat_ E; E=A; eqM(E,R,"copy assignment"); E=E; eqM(E,R,"self assignment"); E(r-1,c-1)=v; eqM(A,R,"source of an assignment after the target was written");
  B=A; eqM(B,R,"assignment over an existing matrix"); Mat_ Z; sym_check(Z.nrows()==0&&Z.ncols()==0&&Z.data().empty(),"default matrix is not empty");
  sym_check(A.nRows()==(size_t)r&&A.nCols()==(size_t)c,"nRows/nCols"); Mat_ I2(1,3,std::initializer_list<double>{1.0,2.0,v}); sym_check_eq(I2(0,2),v,"initializer list entry"); 
  IdentityLike: Mat_ S(r,c); sym_check(S.nrows()==(size_t)r&&S.ncols()==(size_t)c&&S.dataNoConst().size()==(size_t)r*c,"sized constructor shape"); sym_reach("done"); }
ENTRY m_access(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM R=symRM("A",r,c); Mat_ A=toM(R);
  for(int i=0;i<r;i++) for(int j=0;j<c;j++){ sym_check_eq(A(i,j),R(i,j),"operator()(i,j)"); sym_check_eq(A.getEntry(i,j),R(i,j),"getEntry(i,j)"); }
  int i=sym_int("i",0,r-1),j=sym_int("j",0,c-1); double v=sym_double("v"); A(i,j)=v; R(i,j)=v; eqM(A,R,"write through operator()(i,j)"); 
  std::vector<double> d=A.data(); for(size_t k=0;k<d.size();k++) sym_check_eq(d[k],R.a[k],"data()"); sym_check(A.dataPointer()==A.dataNoConst().data(),"dataPointer"); sym_reach("done"); }
ENTRY m_range(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM R=symRM("A",r,c); Mat_ A=toM(R); int a=sym_choose("a",0,r-1),b=sym_choose("b",a,r-1),e=sym_choose("c0",0,c-1),d=sym_choose("d",e,c-1);
  Mat_ B=A(a,b,e,d); RM W(b-a+1,d-e+1); for(int i=0;i<W.r;i++) for(int j=0;j<W.c;j++) W(i,j)=R(a+i,e+j); eqM(B,W,"A(a,b,c,d)"); eqM(A,R,"matrix after A(a,b,c,d)"); sym_reach("done"); }
ENTRY m_rowcol(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM R=symRM("A",r,c); Mat_ A=toM(R);
  for(int i=0;i<r;i++){ Vec_ v=A.getRow(i); RV w(c); for(int j=0;j<c;j++) w[j]=R(i,j); eqV(v,w,M_("getRow(%d) of %dx%d",i,r,c)); }
  for(int j=0;j<c;j++){ Vec_ v=A.getCol(j); RV w(r); for(int i=0;i<r;i++) w[i]=R(i,j); eqV(v,w,M_("getCol(%d) of %dx%d",j,r,c)); } sym_reach("done"); }
ENTRY m_setrowcol(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM R=symRM("A",r,c); { Mat_ A=toM(R); RM W=R; int i=sym_choose("i",0,r-1); RV v=symRV("v",c); Vec_ V=toV(v); A.setRow(i,V); for(int j=0;j<c;j++) W(i,j)=v[j]; eqM(A,W,"setRow"); eqV(V,v,"setRow argument"); }
  { Mat_ A=toM(R); RM W=R; int j=sym_choose("j",0,c-1); RV v=symRV("u",r); Vec_ V=toV(v); A.setColumn(j,V); for(int i=0;i<r;i++) W(i,j)=v[i]; eqM(A,W,"setColumn"); } sym_reach("done"); }
ENTRY m_block(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM R=symRM("A",r,c); Mat_ A=toM(R); int i=sym_choose("i",0,r),j=sym_choose("j",0,c),h=sym_choose("h",0,r-i),w=sym_choose("w",0,c-j);
  Mat_ B=A.getBlock(i,j,h,w); RM W(h,w); for(int p=0;p<h;p++) for(int q=0;q<w;q++) W(p,q)=R(i+p,j+q); eqM(B,W,"getBlock"); eqM(A,R,"matrix after getBlock"); sym_reach("done"); }
ENTRY m_setblock(){
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D); RM R=symRM("A",r,c); Mat_ A=toM(R); int h=sym_choose("h",1,r),w=sym_choose("w",1,c),i=sym_choose("i",0,r-h),j=sym_choose("j",0,c-w);
  RM S=symRM("B",h,w); Mat_ B=toM(S); A.setBlock(i,j,B); RM W=R; for(int p=0;p<h;p++) for(int q=0;q<w;q++) W(i+p,j+q)=S(p,q); eqM(A,W,"setBlock"); eqM(B,S,"setBlock argument");
  Mat_ C=A.getBlock(i,j,h,w); eqM(C,S,"getBlock after setBlock"); sym_reach("done"); }
ENTRY m_transpose(){
  int r=sym_choose("r",1,D+1),c=sym_choose("c",1,D+1); RM R=symRM("A",r,c); Mat_ A=toM(R); Mat_ B=A.T(); RM W(c,r); for(int i=0;i<r;i++) for(int j=0;j<c;j++) W(j,i)=R(i,j); eqM(B,W,"transpose"); Mat_ C=B.T(); eqM(C,R,"double transpose"); eqM(A,R,"matrix after transpose"); sym_reach("done"); }
ENTRY m_indexset(){
  int r=sym_choose("r",1,3),c=sym_choose("c",1,3); RM R=symRM("A",r,c); Mat_ A=toM(R); int m=sym_choose("m",1,r),n=sym_choose("n",1,c); IVec_ I(m),J(n); std::vector<int> ii(m),jj(n);
  for(int k=0;k<m;k++) I[k]=ii[k]=sym_choose(N_("I",k).c_str(),0,r-1); for(int k=0;k<n;k++) J[k]=jj[k]=sym_choose(N_("J",k).c_str(),0,c-1);
  RM W(m,n); for(int i=0;i<m;i++) for(int j=0;j<n;j++) W(i,j)=R(ii[i],jj[j]); Mat_ B=A(I,J); eqM(B,W,"A(I,J)"); Mat_ C=A.getFromIndexSet(I,J); eqM(C,W,"getFromIndexSet"); sym_reach("done"); }
static void pickPerm(const char* nm,int nb,std::vector<int>& p){ std::vector<char> used(nb,0); for(int k=0;k<nb;k++){ int v=sym_choose(N_(nm,k).c_str(),0,nb-1); sym_assume(!used[v]); used[v]=1; p.push_back(v); } }
ENTRY m_permute(){
  // rows permuted by I in blocks R, columns by J in blocks C: one side varies while the other takes a fixed non-trivial pattern
  int side=sym_choose("side",0,1), nb=sym_choose("nb",1,TH(3,4)); std::vector<int> p; pickPerm("perm",nb,p); std::vector<int> sz; int tot=0; for(int k=0;k<nb;k++){ sz.push_back(sym_choose(N_("size",k).c_str(),0,2)); tot+=sz.back(); } sym_assume(tot>=1);
  std::vector<int> p2={2,0,1}, s2={1,2,1}; int tot2=4; std::vector<int> Ip=side?p2:p, Rs=side?s2:sz, Jp=side?p:p2, Cs=side?sz:s2; int r=side?tot2:tot, c=side?tot:tot2;
  RM R=symRM("A",r,c); Mat_ A=toM(R); IVec_ I(Ip),J(Jp),RR(Rs),CC(Cs); Mat_ B=A.blockPermute(I,J,RR,CC);
  std::vector<int> gi,gj; for(int b:Ip){ int o=0; for(int k=0;k<b;k++) o+=Rs[k]; for(int k=0;k<Rs[b];k++) gi.push_back(o+k); } for(int b:Jp){ int o=0; for(int k=0;k<b;k++) o+=Cs[k]; for(int k=0;k<Cs[b];k++) gj.push_back(o+k); }
  RM W(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) W(i,j)=R(gi[i],gj[j]); eqM(B,W,"blockPermute"); sym_reach("done"); }
ENTRY m_blockdiag(){
  int nb=sym_choose("nb",1,TH(2,3)); std::vector<Mat_> v; std::vector<RM> w; int r=0,c=0; for(int k=0;k<nb;k++){ int h=sym_choose(N_("h",k).c_str(),1,TH(2,3)),q=sym_choose(N_("w",k).c_str(),1,TH(2,3)); w.push_back(symRM(N_("B",k).c_str(),h,q)); v.push_back(toM(w.back())); r+=h; c+=q; }
  Mat_ D_=EF::blockDiagonalMatrix(v); RM W(r,c); int a=0,b=0; for(auto&m:w){ for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) W(a+i,b+j)=m(i,j); a+=m.r; b+=m.c; } eqM(D_,W,"blockDiagonalMatrix"); sym_reach("done"); }
ENTRY m_special(){
  int n=sym_choose("n",1,5); EF::IdentityMatrix<double> I(n); RM W(n,n); for(int i=0;i<n;i++) W(i,i)=1; eqM(I,W,"IdentityMatrix"); RV d=symRV("d",n); EF::DiagonalMatrix<double> Dg(toV(d)); for(int i=0;i<n;i++) W(i,i)=d[i]; eqM(Dg,W,"DiagonalMatrix"); sym_reach("done"); }
ENTRY m_self(){ // results assigned to their source, and a matrix written into itself
  int r=sym_choose("r",1,D),c=sym_choose("c",1,D),op=sym_choose("op",0,5),i=sym_choose("i",0,r-1),j=sym_choose("j",0,c-1); RM R=symRM("A",r,c); Mat_ A=toM(R);
  if(op==0){ A.setBlock(0,0,A); eqM(A,R,"A.setBlock(0,0,A)"); } else if(op==1){ A=A.T(); RM W(c,r); for(int p=0;p<r;p++) for(int q=0;q<c;q++) W(q,p)=R(p,q); eqM(A,W,"A=A.T()"); } else if(op==2||op==3){ RM W(r-i,c-j); for(int p=i;p<r;p++) for(int q=j;q<c;q++) W(p-i,q-j)=R(p,q); if(op==2) A=A.getBlock(i,j,r-i,c-j); else A=A(i,r-1,j,c-1); eqM(A,W,"part of A into A"); }
  else if(op==4){ Vec_ v=A.getRow(i); int k=r-1-i; A.setRow(k,v); for(int q=0;q<c;q++) R(k,q)=R(i,q); eqM(A,R,"row into another"); } else { Vec_ v=A.getCol(j); int k=c-1-j; A.setColumn(k,v); for(int p=0;p<r;p++) R(p,k)=R(p,j); eqM(A,R,"column into another"); } sym_reach("done"); }
