// @title Distributed matrices and vectors hold what was put into them and release it once
// @bounds Vectors of up to 5 and matrices of up to 3 x 4 entries on two and three ranks and on one rank alone; every assignment of two entries (thorough: all) to setting ranks, two ranks, with arbitrary values, inserted or added; every constructor; copies, moves and assignments in chains of two or three owners destroyed in every order.
// @stubs PETSc: model of Mat, Vec and IS with block rows per rank, entries for other ranks exchanged at assembly, reference counts, collective creation and destruction. MPI: model.
// @outside PETSc itself; other storage types than the model's dense rows; moving a sub-matrix that lives on more than one rank.
// @entry v_fill ranks=2 reach=done
// @entry v_serial ranks=3 reach=done
// @entry v_owners ranks=2 reach=done
// @entry m_fill ranks=2 reach=done
// @entry m_serial ranks=3 reach=done
// @entry m_values ranks=2 reach=done
// @entry m_blocks ranks=2 reach=done
// @entry m_take ranks=2 reach=done
// @entry m_owners ranks=2 reach=done
// @entry m_sub ranks=2 reach=done
// @entry alone ranks=3 reach=done
// @entry m_gather ranks=3 reach=done
// @entry m_identity ranks=3 reach=done
#include "common.hpp"
#include <memory>
typedef EF::ParallelVector<double> PV_; typedef EF::ParallelMatrix<double> PM_; typedef std::vector<int> SI; typedef EF::Vector<int> VI_;
#ifdef SYM_THOROUGH
enum { FREE=9 };
#else
enum { FREE=2 }; // entries whose setting ranks are free choices
#endif
static int rk(MPI_Comm c){ int r; MPI_Comm_rank(c,&r); return r; } static int sz(MPI_Comm c){ int r; MPI_Comm_size(c,&r); return r; }
// what a Vec or Mat holds, on every rank of its communicator, read through PETSc
static RV content(Vec v,MPI_Comm c){ int N,n,P=sz(c); VecGetSize(v,&N); VecGetLocalSize(v,&n); SI cnt(P),d(P); MPI_Allgather(&n,1,MPI_INT,cnt.data(),1,MPI_INT,c); int t=0; for(int r=0;r<P;r++){ d[r]=t; t+=cnt[r]; } sym_check(t==N,"the local parts make up the vector"); if(t!=N) return RV(); const double* a; VecGetArrayRead(v,&a); RV g(N+1,0.0); double z=0; MPI_Allgatherv(n?a:&z,n,MPI_DOUBLE,g.data(),cnt.data(),d.data(),MPI_DOUBLE,c); VecRestoreArrayRead(v,&a); g.resize(N); return g; }
static RM content(Mat A,MPI_Comm c){ int M,N; MatGetSize(A,&M,&N); RM R(M,N); Vec x,y; MatCreateVecs(A,&x,&y); int a,b; VecGetOwnershipRange(x,&a,&b); for(int j=0;j<N;j++){ VecSet(x,0); double* p; VecGetArray(x,&p); if(a<=j&&j<b) p[j-a]=1; VecRestoreArray(x,&p); MatMult(A,x,y); RV col=content(y,c); if((int)col.size()==M) for(int i=0;i<M;i++) R(i,j)=col[i]; } VecDestroy(&x); VecDestroy(&y); return R; }
template<class O> static void on(O o,MPI_Comm c,const char* m){ MPI_Comm d; int r=MPI_UNEQUAL; PetscObjectGetComm((PetscObject)o,&d); MPI_Comm_compare(d,c,&r); sym_check(r==MPI_IDENT||r==MPI_CONGRUENT,M_("%s: its communicator",m)); }
static void eqVec(Vec v,MPI_Comm c,const RV& want,const char* m){ on(v,c,m); RV g=content(v,c); sym_check(g.size()==want.size(),M_("%s: size",m)); if(g.size()==want.size()) for(size_t i=0;i<g.size();i++) sym_check_eq(g[i],want[i],M_("%s: entry %d",m,(int)i)); }
static void eqMat(Mat A,MPI_Comm c,const RM& want,const char* m){ on(A,c,m); RM g=content(A,c); sym_check(g.r==want.r&&g.c==want.c,M_("%s: shape",m)); if(g.r==want.r&&g.c==want.c) for(int i=0;i<g.r;i++) for(int j=0;j<g.c;j++) sym_check_eq(g(i,j),want(i,j),M_("%s: entry (%d,%d)",m,i,j)); }
static void sizes(PM_& A,MPI_Comm c,int M,int N,const char* m){ sym_check(A.globalRows()==M&&A.globalCols()==N,M_("%s: reported global shape",m)); int a,b,ca,cb; MatGetOwnershipRange(A.mat,&a,&b); MatGetOwnershipRangeColumn(A.mat,&ca,&cb); sym_check(A.localRows()==b-a,M_("%s: reported local rows",m)); sym_check(A.localCols()==cb-ca,M_("%s: reported local columns",m)); sym_check(A.getSize()==sz(c)&&A.getRank()==rk(c),M_("%s: rank and size",m)); }
template<class O> static int refs(O o){ int n; PetscObjectGetReference((PetscObject)o,&n); return n; } template<class O> static void hold(O o){ PetscObjectReference((PetscObject)o); }
static void done(PV_& v){ v.beginAssembly(); v.endAssembly(); } static void done(PM_& A){ A.beginAssembly(MAT_FINAL_ASSEMBLY); A.endAssembly(MAT_FINAL_ASSEMBLY); }
static std::unique_ptr<PV_> newV(MPI_Comm c,int n,int N,int how){ if(how==2){ auto v=std::make_unique<PV_>(c); v->create(); v->setSizes(n,N); v->setType(sz(c)>1?VECMPI:VECSEQ); v->setFromOptions(); return v; } return how==0?std::make_unique<PV_>(c,n,N):std::make_unique<PV_>(c,n,N,sz(c)>1?VECMPI:VECSEQ); }
static std::unique_ptr<PM_> newM(MPI_Comm c,int m,int n,int M,int N,int how){ if(how==3){ auto A=std::make_unique<PM_>(c); A->create(); A->setSizes(m,n,M,N); A->setType(MATDENSE); A->setFromOptions(); MatSetUp(A->mat); return A; } return how==0?std::make_unique<PM_>(c,m,n,M,N):std::make_unique<PM_>(c,m,n,M,N,how==1?MATAIJ:MATDENSE); }

ENTRY v_fill(){ // every entry is set by a rank of choice, one at a time or many at once, in any of two orders; local sizes decided by PETSc or given
  int N=sym_choose("N",0,4),lay=sym_choose("layout",0,2),add=sym_choose("add",0,1),how=sym_choose("how",0,1),rev=sym_choose("reversed",0,1); SI by(N); for(int i=0;i<N;i++) by[i]=i<FREE?sym_choose(N_("by",i).c_str(),0,add?2:1):(i+1)%2; RV x=symRV("x",N),y=symRV("y",N); int me=sym_ranks(2); MPI_Comm c=MPI_COMM_WORLD;
  int n=lay==0?PETSC_DECIDE:me==0?N-N/3:N/3,NN=lay==2?PETSC_DETERMINE:N; auto v=newV(c,n,NN,rev+how); SI at; RV val; for(int k=0;k<N;k++){ int i=rev?N-1-k:k; if(by[i]==me||by[i]==2){ at.push_back(i); val.push_back(me?y[i]:x[i]); } }
  InsertMode md=add?ADD_VALUES:INSERT_VALUES; if(how==0) for(size_t k=0;k<at.size();k++) v->setValue(at[k],val[k],md); else v->setValues(VI_(at),Vec_(val),md); done(*v); RV want(N); for(int i=0;i<N;i++) want[i]=by[i]==0?x[i]:by[i]==1?y[i]:x[i]+y[i]; eqVec(v->vec,c,want,"filled"); hold(v->vec); Vec h=v->vec; v.reset(); sym_check(refs(h)==1,"released once"); VecDestroy(&h); sym_reach("done"); }
ENTRY v_serial(){ int N=sym_choose("N",0,5),how=sym_choose("how",0,1),self=sym_choose("self",0,1); RV x=symRV("x",N),y=symRV("y",N); int me=sym_ranks(3); MPI_Comm c=self?MPI_COMM_SELF:MPI_COMM_WORLD; Vec_ s=toV(x); auto v=how?std::make_unique<PV_>(c,s,self?VECSEQ:VECMPI):std::make_unique<PV_>(c,s); done(*v); eqVec(v->vec,c,x,"from a serial vector"); eqV(s,x,"serial vector"); for(int i=0;i<N;i++) if(self||i%3==me) v->setValue(i,y[i],INSERT_VALUES); done(*v); eqVec(v->vec,c,y,"overwritten"); sym_reach("done"); }
ENTRY v_owners(){ // copies, moves and assignments; the owners go in any order
  int what=sym_choose("what",0,5),order=sym_choose("order",0,1),N=3; RV x=symRV("x",N),y=symRV("y",N); int me=sym_ranks(2); MPI_Comm c=MPI_COMM_WORLD; Vec_ sx=toV(x),sy=toV(y); auto a=std::make_unique<PV_>(c,sx); done(*a); hold(a->vec); Vec ha=a->vec,hb=NULL; std::unique_ptr<PV_> b;
  if(what==0) b=std::make_unique<PV_>(*a); else if(what==1) b=std::make_unique<PV_>(std::move(*a)); else { b=(what==2||what==4)?std::make_unique<PV_>(c,sy):std::make_unique<PV_>(); if(what==2||what==4){ done(*b); hb=b->vec; hold(hb); } if(what<4) *b=*a; else *b=std::move(*a); }
  eqVec(b->vec,c,x,"second owner"); if(what==0||what==2||what==3) eqVec(a->vec,c,x,"first owner"); Vec hc=b->vec; hold(hc); if(order) a.reset(); else { eqVec(b->vec,c,x,"second owner again"); std::swap(a,b); a.reset(); }
  if(order||what==0||what==2||what==3) eqVec((order?b:b)->vec,c,x,"the owner that stays"); a.reset(); b.reset(); int extra=hc==ha?2:1; sym_check(refs(ha)==extra,"first object released once"); if(hc!=ha) sym_check(refs(hc)==1,"copy released once"); if(hb) sym_check(refs(hb)==1,"overwritten object released once"); VecDestroy(&hc); VecDestroy(&ha); VecDestroy(&hb); sym_reach("done"); }
ENTRY m_fill(){ int M=sym_choose("M",1,2),N=sym_choose("N",1,2),lay=sym_choose("layout",0,2),add=sym_choose("add",0,1),how=sym_choose("how",0,3); SI by(M*N); for(int i=0;i<M*N;i++) by[i]=i<FREE?sym_choose(N_("by",i).c_str(),0,add?2:1):i%2; RM x=symRM("x",M,N),y=symRM("y",M,N); int me=sym_ranks(2); MPI_Comm c=MPI_COMM_WORLD;
  int d=PETSC_DECIDE; auto A=lay==0?newM(c,d,d,M,N,how):lay==1?newM(c,me?M:0,me?0:N,M,N,how):newM(c,me?1:M-1,me?N-1:1,PETSC_DETERMINE,PETSC_DETERMINE,how); if(how<3) sizes(*A,c,M,N,"new"); InsertMode md=add?ADD_VALUES:INSERT_VALUES; RM want(M,N); for(int i=0;i<M;i++) for(int j=0;j<N;j++){ int b=by[i*N+j]; if(b==me||b==2) A->setValue(i,j,me?y(i,j):x(i,j),md); want(i,j)=b==0?x(i,j):b==1?y(i,j):x(i,j)+y(i,j); } done(*A); eqMat(A->mat,c,want,"filled"); if(how<3) sizes(*A,c,M,N,"filled");
  Mat h=A->mat; hold(h); A.reset(); sym_check(refs(h)==1,"released once"); MatDestroy(&h); sym_reach("done"); }
ENTRY m_serial(){ int M=sym_choose("M",0,3),N=sym_choose("N",0,4),how=sym_choose("how",0,2),self=sym_choose("self",0,1); RM x=symRM("x",M,N); sym_ranks(3); MPI_Comm c=self?MPI_COMM_SELF:MPI_COMM_WORLD; Mat_ s=toM(x); auto A=how==0?std::make_unique<PM_>(c,s):std::make_unique<PM_>(c,s,how==1?MATAIJ:MATDENSE); done(*A); eqMat(A->mat,c,x,"from a serial matrix"); sizes(*A,c,M,N,"from a serial matrix"); eqM(s,x,"serial matrix"); sym_reach("done"); }
ENTRY m_values(){ // blocks of values by both overloads; owned rows read back one at a time and in blocks
  int M=3,N=3,how=sym_choose("how",0,1),rows=sym_choose("rows",0,2),cols=sym_choose("cols",0,2); RM x=symRM("x",M,N); int me=sym_ranks(2); MPI_Comm c=MPI_COMM_WORLD; PM_ A(c,PETSC_DECIDE,PETSC_DECIDE,M,N); SI R=rows==0?SI{0,1,2}:rows==1?SI{2,0}:SI{1},C=cols==0?SI{2,1,0}:cols==1?SI{0,2}:SI{1}; RM want(M,N); RV vals; RM blk(R.size(),C.size()); for(size_t i=0;i<R.size();i++) for(size_t j=0;j<C.size();j++){ blk(i,j)=x(R[i],C[j]); want(R[i],C[j])=x(R[i],C[j]); vals.push_back(x(R[i],C[j])); }
  if(me==1){ if(how==0) A.setValues(VI_(R),VI_(C),toM(blk),INSERT_VALUES); else A.setValues(VI_(R),VI_(C),toV(vals),INSERT_VALUES); } done(A); eqMat(A.mat,c,want,"block"); int a,b; MatGetOwnershipRange(A.mat,&a,&b); for(int i=a;i<b;i++) for(int j=0;j<N;j++){ double v=9; A.getValue(i,j,v); sym_check_eq(v,want(i,j),M_("getValue (%d,%d)",i,j)); }
  SI own; for(int i=b-1;i>=a;i--) own.push_back(i); Mat_ g(own.size(),C.size()); Vec_ gv(own.size()*C.size()); A.getValues(VI_(own),VI_(C),g); A.getValues(VI_(own),VI_(C),gv); RM wb(own.size(),C.size()); RV wv; for(size_t i=0;i<own.size();i++) for(size_t j=0;j<C.size();j++){ wb(i,j)=want(own[i],C[j]); wv.push_back(want(own[i],C[j])); } eqM(g,wb,"getValues into a matrix"); eqV(gv,wv,"getValues into a vector"); sym_reach("done"); }
ENTRY m_blocks(){ // both ranks add overlapping blocks, assembled twice
  RM x=symRM("x",2,2),y=symRM("y",2,2); int M=3,add2=sym_choose("then",0,1),k=sym_choose("corner",0,1); int me=sym_ranks(2); MPI_Comm c=MPI_COMM_WORLD; PM_ A(c,PETSC_DECIDE,PETSC_DECIDE,M,M); int o=me?1:0; RM want(M,M); for(int i=0;i<2;i++) for(int j=0;j<2;j++){ want(i,j)+=x(i,j); want(i+1,j+1)+=y(i,j); } A.setValues(VI_(SI{o,o+1}),VI_(SI{o,o+1}),toM(me?y:x),ADD_VALUES); A.beginAssembly(MAT_FINAL_ASSEMBLY); A.endAssembly(MAT_FINAL_ASSEMBLY); eqMat(A.mat,c,want,"added blocks");
  if(me==k) A.setValue(2*k,1,x(0,0),add2?ADD_VALUES:INSERT_VALUES); if(add2) want(2*k,1)+=x(0,0); else want(2*k,1)=x(0,0); A.beginAssembly(MAT_FLUSH_ASSEMBLY); A.endAssembly(MAT_FLUSH_ASSEMBLY); done(A); eqMat(A.mat,c,want,"assembled again"); sym_reach("done"); }
ENTRY m_take(){ RM x=symRM("x",3,2); int me=sym_ranks(2); MPI_Comm c=MPI_COMM_WORLD; Mat m; MatCreate(c,&m); MatSetSizes(m,me?1:2,me?2:0,3,2); MatSetFromOptions(m); MatSetUp(m); int a,b; MatGetOwnershipRange(m,&a,&b); for(int i=a;i<b;i++) for(int j=0;j<2;j++) MatSetValue(m,i,j,x(i,j),INSERT_VALUES); MatAssemblyBegin(m,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(m,MAT_FINAL_ASSEMBLY); hold(m); { PM_ A(c,m); sizes(A,c,3,2,"taken over"); eqMat(A.mat,c,x,"taken over"); } sym_check(refs(m)==1,"released once"); MatDestroy(&m); sym_reach("done"); }
ENTRY m_owners(){ int what=sym_choose("what",0,3),order=sym_choose("order",0,1); RM x=symRM("x",2,3),y=symRM("y",3,2); int me=sym_ranks(2); MPI_Comm c=MPI_COMM_WORLD; Mat_ sx=toM(x),sy=toM(y); auto a=std::make_unique<PM_>(c,sx); done(*a); Mat ha=a->mat,hb=NULL; hold(ha); std::unique_ptr<PM_> b;
  if(what==0) b=std::make_unique<PM_>(*a); else if(what==1) b=std::make_unique<PM_>(std::move(*a)); else { if(what==2){ b=std::make_unique<PM_>(MPI_COMM_SELF,sy); done(*b); hb=b->mat; hold(hb); } else b=std::make_unique<PM_>(); *b=std::move(*a); }
  eqMat(b->mat,c,x,"second owner"); sizes(*b,c,2,3,"second owner"); if(what==0) eqMat(a->mat,c,x,"first owner"); Mat hc=b->mat; hold(hc); if(!order&&what==0) std::swap(a,b); a.reset(); eqMat(b->mat,c,x,"the owner that stays"); sizes(*b,c,2,3,"the owner that stays"); b.reset();
  sym_check(refs(ha)==(hc==ha?2:1),"first object released once"); if(hc!=ha) sym_check(refs(hc)==1,"copy released once"); if(hb) sym_check(refs(hb)==1,"overwritten object released once"); MatDestroy(&hc); MatDestroy(&ha); MatDestroy(&hb); sym_reach("done"); }
ENTRY m_sub(){ // a sub-matrix by index sets
  int rows=sym_choose("rows",0,2),all=sym_choose("cols",0,1); RM x=symRM("x",3,4); int me=sym_ranks(2); MPI_Comm c=MPI_COMM_WORLD; Mat_ s=toM(x); PM_ A(c,s); done(A); std::vector<SI> R=rows==0?std::vector<SI>{{0,1},{2}}:rows==1?std::vector<SI>{{2},{0}}:std::vector<SI>{{},{1,2}},C=all?std::vector<SI>{{0,1},{2,3}}:std::vector<SI>{{3},{0,1}}; SI fr=R[0],fc=C[0]; for(int i:R[1]) fr.push_back(i); for(int j:C[1]) fc.push_back(j); RM want(fr.size(),fc.size()); for(size_t i=0;i<fr.size();i++) for(size_t j=0;j<fc.size();j++) want(i,j)=x(fr[i],fc[j]);
  IS ir,ic; int z=0; ISCreateGeneral(c,R[me].size(),R[me].size()?R[me].data():&z,PETSC_COPY_VALUES,&ir); ISCreateGeneral(c,C[me].size(),C[me].data(),PETSC_COPY_VALUES,&ic); Mat h; { PM_ B(c,A,ir,ic); sizes(B,c,want.r,want.c,"sub-matrix"); eqMat(B.mat,c,want,"sub-matrix"); h=B.mat; hold(h); } sym_check(refs(h)==1,"released once"); MatDestroy(&h); ISDestroy(&ir); ISDestroy(&ic); eqMat(A.mat,c,x,"the matrix"); sym_reach("done"); }
ENTRY alone(){ // one rank alone, or a part of the ranks, makes objects of its own; the others take no part
  int k=sym_choose("rank",0,2),part=sym_choose("part",0,1),how=sym_choose("how",0,3),dec=sym_choose("decided",0,1); RV x=symRV("x",3); RM a=symRM("a",2,3); int me=sym_ranks(3); MPI_Comm c=MPI_COMM_SELF; if(part){ MPI_Comm_split(MPI_COMM_WORLD,me==k?MPI_UNDEFINED:0,me,&c); } bool in=part?me!=k:me==k;
  if(in){ int r=rk(c),d=PETSC_DECIDE; auto v=newV(c,dec?d:part?r?1:2:3,3,how==3?2:how); auto A=newM(c,dec?d:part?1:2,dec?d:part?r?0:3:3,2,3,how); for(int i=r?1:0;i<3;i++){ v->setValue(i,x[i],INSERT_VALUES); for(int j=0;j<2;j++) A->setValue(j,i,a(j,i),INSERT_VALUES); } done(*v); done(*A); if(how!=3) sizes(*A,c,2,3,"alone"); eqVec(v->vec,c,x,"alone"); eqMat(A->mat,c,a,"alone"); PV_ w(*v); auto B=std::make_unique<PM_>(); *B=std::move(*A); A.reset(); eqVec(w.vec,c,x,"alone, copied"); eqMat(B->mat,c,a,"alone, moved"); } sym_reach("done"); }
ENTRY m_gather(){ // each rank's own matrix becomes its block of rows on the larger communicator
  int m=sym_choose("rows",1,2),N=sym_choose("N",1,3); RM x=symRM("x",3*m,N); int me=sym_ranks(3); RM mine(m,N); for(int i=0;i<m;i++) for(int j=0;j<N;j++) mine(i,j)=x(me*m+i,j); Mat_ s=toM(mine); PM_ A(MPI_COMM_SELF,s); done(A); Mat h; { PM_ B(MPI_COMM_WORLD,A); eqMat(B.mat,MPI_COMM_WORLD,x,"gathered"); sizes(B,MPI_COMM_WORLD,3*m,N,"gathered"); h=B.mat; hold(h); } sym_check(refs(h)==1,"released once"); MatDestroy(&h); eqMat(A.mat,MPI_COMM_SELF,mine,"own part"); sym_reach("done"); }
ENTRY m_identity(){ int N=sym_choose("N",1,5),how=sym_choose("how",0,3); sym_ranks(3); MPI_Comm c=how==3?MPI_COMM_SELF:MPI_COMM_WORLD; typedef EF::ParallelIdentityMatrix<double> I_; auto I=how==0?std::make_unique<I_>(N):how==1?std::make_unique<I_>(c,N):std::make_unique<I_>(c,N,how==2?MATAIJ:MATSEQAIJ); RM want(N,N); for(int i=0;i<N;i++) want(i,i)=1; eqMat(I->mat,c,want,"identity"); sizes(*I,c,N,N,"identity"); Mat h=I->mat; hold(h); I.reset(); sym_check(refs(h)==1,"released once"); MatDestroy(&h); sym_reach("done"); }
