// Interpreted models of the numerical libraries, linked only into the bitcode that efsym executes.
// (Native replay uses the real BLAS/LAPACK/PETSc.)  Every model states the library's documented contract.
#include "sym.h"
#include <cmath>
#include <petsc.h>
#include <mpi.h>

namespace { struct MX { long id; }; int live_objects=0; }

extern "C" PetscErrorCode PetscMallocValidate(int,const char*,const char*){ return 0; } // called by PETSc's wrappers around MPI calls

// ---------------------------------------------------------------- BLAS (reference semantics)
static bool isT(char c){ return c=='T'||c=='t'||c=='C'||c=='c'; }
static bool okTr(char c){ return isT(c)||c=='N'||c=='n'; }
extern "C" void dgemm_(char* ta,char* tb,int* m_,int* n_,int* k_,double* al,double* A,int* lda_,double* B,int* ldb_,double* be,double* C,int* ldc_){
  int m=*m_,n=*n_,k=*k_,lda=*lda_,ldb=*ldb_,ldc=*ldc_; bool at=isT(*ta),bt=isT(*tb); int ra=at?k:m, rb=bt?n:k;
  sym_check(okTr(*ta)&&okTr(*tb)&&m>=0&&n>=0&&k>=0&&lda>=(ra>1?ra:1)&&ldb>=(rb>1?rb:1)&&ldc>=(m>1?m:1),"illegal argument passed to dgemm");
  if(m==0||n==0) return;
  for(int j=0;j<n;j++) for(int i=0;i<m;i++){ double s=0; for(int l=0;l<k;l++){ double a=at?A[l+(long)i*lda]:A[i+(long)l*lda]; double b=bt?B[j+(long)l*ldb]:B[l+(long)j*ldb]; s+=a*b; }
    double r=(*al)*s; if(*be!=0) r+=(*be)*C[i+(long)j*ldc]; C[i+(long)j*ldc]=r; } }
extern "C" void dgemv_(char* tr,int* m_,int* n_,double* al,double* A,int* lda_,double* X,int* incx_,double* be,double* Y,int* incy_){
  int m=*m_,n=*n_,lda=*lda_,incx=*incx_,incy=*incy_; bool t=isT(*tr);
  sym_check(okTr(*tr)&&m>=0&&n>=0&&lda>=(m>1?m:1)&&incx!=0&&incy!=0,"illegal argument passed to dgemv");
  if(m==0||n==0) return;
  int lx=t?m:n, ly=t?n:m; long kx=incx>0?0:-(long)(lx-1)*incx, ky=incy>0?0:-(long)(ly-1)*incy;
  for(int i=0;i<ly;i++){ double s=0; for(int j=0;j<lx;j++) s+=(t?A[j+(long)i*lda]:A[i+(long)j*lda])*X[kx+(long)j*incx]; double r=(*al)*s; if(*be!=0) r+=(*be)*Y[ky+(long)i*incy]; Y[ky+(long)i*incy]=r; } }
extern "C" void dscal_(int* n,double* a,double* x,int* inc){ for(int i=0;i<*n;i++) x[(long)i* *inc]*=*a; }
extern "C" void daxpy_(int* n,double* a,double* x,int* ix,double* y,int* iy){ for(int i=0;i<*n;i++) y[(long)i* *iy]+=*a*x[(long)i* *ix]; }
extern "C" void dcopy_(int* n,double* x,int* ix,double* y,int* iy){ for(int i=0;i<*n;i++) y[(long)i* *iy]=x[(long)i* *ix]; }

// ---------------------------------------------------------------- LAPACK dgesv: X with A X = B (A nonsingular)
static bool concreteSingular(const double* A,int n,int lda){
  std::vector<double> W; double mx=0; for(int j=0;j<n;j++) for(int i=0;i<n;i++){ if(sym_is_symbolic(A[i+(long)j*lda])) return false; W.push_back(A[i+(long)j*lda]); double v=A[i+(long)j*lda]; if(v<0) v=-v; if(v>mx) mx=v; }
  for(int c=0;c<n;c++){ int p=c; for(int i=c+1;i<n;i++) if(fabs(W[i+c*n])>fabs(W[p+c*n])) p=i; if(!(fabs(W[p+c*n])>1e-13*mx)) return true;
    if(p!=c) for(int j=0;j<n;j++) std::swap(W[p+j*n],W[c+j*n]);
    for(int i=c+1;i<n;i++){ double f=W[i+c*n]/W[c+c*n]; for(int j=c;j<n;j++) W[i+j*n]-=f*W[c+j*n]; } }
  return false; }
static long solveNo=0;
extern "C" int efsym_solve_count(void){ return (int)solveNo; }
static bool contractSolve(const char* nm,const std::vector<double>& A,int n,double* B,int nrhs,int ldb,bool trans){ // B := inv(op(A)) B ; A column major n x n
  long id=solveNo++; int ex=n>0?sym_exact_solve(A.data(),n,B,nrhs,ldb,trans):1; if(ex==1) return true; if(ex<0) return false; // constant A: the unique solution, in exact rational arithmetic
  for(int c=0;c<nrhs;c++){ std::vector<double> X(n);
    for(int i=0;i<n;i++){ char s[64]; snprintf(s,64,"%s%ld[%d,%d]",nm,id,i,c); X[i]=sym_fresh(s); }
    for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) s+=(trans?A[j+i*n]:A[i+j*n])*X[j]; sym_assume_eq(s,B[i+(long)c*ldb]); }
    for(int i=0;i<n;i++) B[i+(long)c*ldb]=X[i]; } return true; }
extern "C" void dgesv_(int* n_,int* nrhs_,double* A,int* lda_,int* ipiv,double* B,int* ldb_,int* info){
  int n=*n_,nrhs=*nrhs_,lda=*lda_,ldb=*ldb_; *info=0;
  sym_check(n>=0&&nrhs>=0&&lda>=(n>1?n:1)&&ldb>=(n>1?n:1),"illegal argument passed to dgesv");
  if(concreteSingular(A,n,lda)){ *info=n; return; }
  std::vector<double> M((size_t)n*n); for(int j=0;j<n;j++) for(int i=0;i<n;i++) M[i+j*n]=A[i+(long)j*lda];
  if(!contractSolve("x",M,n,B,nrhs,ldb,false)){ *info=n; return; }
  for(int i=0;i<n;i++) ipiv[i]=i+1;
  for(int j=0;j<n;j++) for(int i=0;i<n;i++){ char s[64]; snprintf(s,64,"lu%ld[%d,%d]",solveNo,i,j); A[i+(long)j*lda]=sym_fresh(s); } }
namespace { struct Fact { double* A; std::vector<double> M; int n; }; std::vector<Fact> facts; }
extern "C" void dgetrf_(int* m_,int* n_,double* A,int* lda_,int* ipiv,int* info){ int n=*n_,lda=*lda_; sym_check(*m_==n&&lda>=(n>1?n:1),"dgetrf model: square matrices only"); *info=0; if(concreteSingular(A,n,lda)){ *info=n; return; }
  Fact f; f.A=A; f.n=n; f.M.resize((size_t)n*n); for(int j=0;j<n;j++) for(int i=0;i<n;i++) f.M[i+j*n]=A[i+(long)j*lda]; facts.push_back(f); for(int i=0;i<n;i++) ipiv[i]=i+1; }
extern "C" void dgetrs_(char* tr,int* n_,int* nrhs,double* A,int* lda,int* ipiv,double* B,int* ldb,int* info){ *info=0; for(int k=(int)facts.size()-1;k>=0;k--) if(facts[k].A==A&&facts[k].n==*n_){ contractSolve("x",facts[k].M,*n_,B,*nrhs,*ldb,isT(*tr)); return; } sym_fail("dgetrs called with a matrix that was not factored"); }

// ---------------------------------------------------------------- PETSc (Mat / Vec / IS / KSP; block rows over the ranks of a communicator, off-rank entries move at assembly)
namespace {
#define OK_ (PetscErrorCode)0
int petscLive=0;
struct PObj { int tag; int refs=1; MPI_Comm comm=MPI_COMM_SELF; PObj(){ petscLive++; } ~PObj(){ petscLive--; } };
struct PMat:PObj { int m=-1,n=-1,M=-1,N=-1,r0=0,c0=0,mode=0; bool sized=false,typed=false,setup=false,assembled=false,factored=false,stashing=false; std::vector<double> a; std::vector<int> si; std::vector<double> sv; PMat(){ tag=0x4d41; } }; // owned rows, row by row in columns: entry (i,j) at (i-r0)+j*m
struct PVec:PObj { int n=-1,N=-1,r0=0,mode=0; bool alloc=false; std::vector<double> a; std::vector<int> si; std::vector<double> sv; PVec(){ tag=0x5645; } };
struct PIS:PObj { std::vector<int> idx; PIS(){ tag=0x4953; } };
struct PKSP:PObj { PMat* A=nullptr; PKSP(){ tag=0x4b53; } };
PMat* PM(Mat A){ PMat* p=(PMat*)A; if(!p||!sym_live(p)||p->tag!=0x4d41) sym_fail("PETSc Mat function called with an invalid Mat"); return p; }
PVec* PV(Vec v){ PVec* p=(PVec*)v; if(!p||!sym_live(p)||p->tag!=0x5645) sym_fail("PETSc Vec function called with an invalid Vec"); return p; }
PIS* PI(IS v){ PIS* p=(PIS*)v; if(!p||!sym_live(p)||p->tag!=0x4953) sym_fail("PETSc IS function called with an invalid IS"); return p; }
int csize(MPI_Comm c){ int s; MPI_Comm_size(c,&s); return s; } int crank(MPI_Comm c){ int r; MPI_Comm_rank(c,&r); return r; }
void collective(MPI_Comm c){ if(csize(c)>1) MPI_Barrier(c); }
int before(MPI_Comm c,int n){ if(csize(c)==1) return 0; int r=crank(c),o=0; MPI_Exscan(&n,&o,1,MPI_INT,MPI_SUM,c); return r?o:0; }
void splitOwn(MPI_Comm c,int* n,int* N){ int P=csize(c),r=crank(c); if(*N<0&&*n<0) sym_fail("PETSc: neither the local nor the global size is given"); if(*N<0){ *N=*n; if(P>1) MPI_Allreduce(n,N,1,MPI_INT,MPI_SUM,c); } else if(*n<0) *n=*N/P+(*N%P>r?1:0); else { int t=*n; if(P>1) MPI_Allreduce(n,&t,1,MPI_INT,MPI_SUM,c); sym_check(t==*N,"PETSc: the local sizes do not add up to the global size"); } }
void matAlloc(PMat* p){ if(!p->setup){ sym_check(p->sized,"MatSetUp before MatSetSizes"); splitOwn(p->comm,&p->m,&p->M); splitOwn(p->comm,&p->n,&p->N); p->r0=before(p->comm,p->m); p->c0=before(p->comm,p->n); p->a.assign((size_t)p->m*p->N,0.0); p->setup=true; } }
void vecAlloc(PVec* p){ if(!p->alloc){ sym_check(p->n>=0||p->N>=0,"Vec used before VecSetSizes"); splitOwn(p->comm,&p->n,&p->N); p->r0=before(p->comm,p->n); p->a.assign(p->n,0.0); p->alloc=true; } }
void mixed(int& mode,InsertMode md){ int k=md==ADD_VALUES?2:1; sym_check(mode==0||mode==k,"PETSc: inserting and adding without assembly in between"); mode=k; }
// everything the ranks put aside for other ranks, in rank order
void exchange(MPI_Comm c,int per,std::vector<int>& si,std::vector<double>& sv){ int P=csize(c); if(P==1) return; int k=sv.size(); std::vector<int> cnt(P),ci(P),di(P),dv(P); MPI_Allgather(&k,1,MPI_INT,cnt.data(),1,MPI_INT,c); int t=0; for(int r=0;r<P;r++){ ci[r]=cnt[r]*per; di[r]=t*per; dv[r]=t; t+=cnt[r]; } if(!t){ si.clear(); sv.clear(); return; }
  std::vector<int> gi(t*per); std::vector<double> gv(t); int zi=0; double zd=0; MPI_Allgatherv(k?si.data():&zi,k*per,MPI_INT,gi.data(),ci.data(),di.data(),MPI_INT,c); MPI_Allgatherv(k?sv.data():&zd,k,MPI_DOUBLE,gv.data(),cnt.data(),dv.data(),MPI_DOUBLE,c); si=gi; sv=gv; }
std::vector<double> gatherVec(PVec* p){ vecAlloc(p); int P=csize(p->comm); if(P==1) return p->a; std::vector<int> cnt(P),d(P); MPI_Allgather(&p->n,1,MPI_INT,cnt.data(),1,MPI_INT,p->comm); int t=0; for(int r=0;r<P;r++){ d[r]=t; t+=cnt[r]; } std::vector<double> g(t+1); double z=0; MPI_Allgatherv(p->n?p->a.data():&z,p->n,MPI_DOUBLE,g.data(),cnt.data(),d.data(),MPI_DOUBLE,p->comm); g.resize(t); return g; }
std::vector<double> gatherMat(PMat* p){ matAlloc(p); int P=csize(p->comm); std::vector<double> rows((size_t)p->m*p->N+1),g((size_t)p->M*p->N+1); for(int i=0;i<p->m;i++) for(int j=0;j<p->N;j++) rows[(size_t)i*p->N+j]=p->a[i+(size_t)j*p->m]; if(P==1) return rows; std::vector<int> cnt(P),d(P); int k=p->m*p->N; MPI_Allgather(&k,1,MPI_INT,cnt.data(),1,MPI_INT,p->comm); int t=0; for(int r=0;r<P;r++){ d[r]=t; t+=cnt[r]; } MPI_Allgatherv(rows.data(),k,MPI_DOUBLE,g.data(),cnt.data(),d.data(),MPI_DOUBLE,p->comm); return g; } // row major, all rows
std::vector<int> gatherIdx(MPI_Comm c,const std::vector<int>& v){ int P=csize(c); if(P==1) return v; int k=v.size(); std::vector<int> cnt(P),d(P); MPI_Allgather(&k,1,MPI_INT,cnt.data(),1,MPI_INT,c); int t=0; for(int r=0;r<P;r++){ d[r]=t; t+=cnt[r]; } std::vector<int> g(t+1); int z=0; MPI_Allgatherv(k?v.data():&z,k,MPI_INT,g.data(),cnt.data(),d.data(),MPI_INT,c); g.resize(t); return g; }
PMat* ready(Mat A,const char* m){ auto p=PM(A); sym_check(p->setup&&p->assembled&&!p->stashing,m); return p; }
PMat* newMat(MPI_Comm c,int m,int n,int M,int N){ auto p=new PMat; p->comm=c; p->m=m; p->n=n; p->M=M; p->N=N; p->sized=p->typed=true; matAlloc(p); return p; }
}
extern "C" {
int sym_petsc_live(void){ return petscLive; }
PetscErrorCode MatCreate(MPI_Comm c,Mat* A){ collective(c); auto p=new PMat; p->comm=c; *A=(Mat)p; return OK_; }
PetscErrorCode MatSetSizes(Mat A,PetscInt m,PetscInt n,PetscInt M,PetscInt N){ auto p=PM(A); sym_check(!p->setup,"MatSetSizes after MatSetUp"); p->m=m; p->n=n; p->M=M; p->N=N; p->sized=true; return OK_; }
PetscErrorCode MatSetType(Mat A,MatType){ auto p=PM(A); if(p->typed&&p->setup){ p->a.assign(p->a.size(),0.0); p->assembled=false; p->si.clear(); p->sv.clear(); } p->typed=true; return OK_; } // a new type starts empty
PetscErrorCode MatConvert(Mat A,MatType,MatReuse r,Mat* B){ auto p=ready(A,"MatConvert: the matrix is not assembled"); collective(p->comm); if(r==MAT_INPLACE_MATRIX){ sym_check(*B==A,"MatConvert in place"); return OK_; } auto q=new PMat(*p); q->refs=1; *B=(Mat)q; return OK_; }
PetscErrorCode MatSetFromOptions(Mat A){ PM(A)->typed=true; return OK_; }
PetscErrorCode MatSetOption(Mat A,MatOption,PetscBool){ PM(A); return OK_; }
PetscErrorCode MatSetUp(Mat A){ auto p=PM(A); p->typed=true; matAlloc(p); return OK_; }
PetscErrorCode MatSeqDenseSetPreallocation(Mat A,PetscScalar*){ matAlloc(PM(A)); return OK_; }
PetscErrorCode MatSeqAIJSetPreallocation(Mat A,PetscInt,const PetscInt*){ matAlloc(PM(A)); return OK_; }
PetscErrorCode MatCreateSeqDense(MPI_Comm c,PetscInt m,PetscInt n,PetscScalar* d,Mat* A){ auto p=newMat(c,m,n,m,n); if(d) for(int i=0;i<m*n;i++) p->a[i]=d[i]; *A=(Mat)p; return OK_; }
PetscErrorCode MatCreateSeqAIJ(MPI_Comm c,PetscInt m,PetscInt n,PetscInt,const PetscInt*,Mat* A){ *A=(Mat)newMat(c,m,n,m,n); return OK_; }
PetscErrorCode MatCreateConstantDiagonal(MPI_Comm c,PetscInt m,PetscInt n,PetscInt M,PetscInt N,PetscScalar d,Mat* A){ auto p=newMat(c,m,n,M,N); for(int i=0;i<p->m;i++) if(p->r0+i<p->N) p->a[i+(size_t)(p->r0+i)*p->m]=d; p->assembled=true; *A=(Mat)p; return OK_; }
PetscErrorCode MatSetValues(Mat A,PetscInt m,const PetscInt im[],PetscInt n,const PetscInt in[],const PetscScalar v[],InsertMode md){ auto p=PM(A); sym_check(p->typed,"MatSetValues before the type is set"); sym_check(!p->factored,"MatSetValues on a factored matrix"); sym_check(!p->stashing,"MatSetValues during assembly"); matAlloc(p); if(m>0&&n>0) mixed(p->mode,md);
  for(int i=0;i<m;i++) for(int j=0;j<n;j++){ if(im[i]<0||in[j]<0) continue; sym_check(im[i]<p->M&&in[j]<p->N,"MatSetValues: index out of range"); if(im[i]<p->r0||im[i]>=p->r0+p->m){ p->si.push_back(im[i]); p->si.push_back(in[j]); p->sv.push_back(v[i*n+j]); continue; } double& x=p->a[im[i]-p->r0+(size_t)in[j]*p->m]; if(md==ADD_VALUES) x+=v[i*n+j]; else x=v[i*n+j]; } p->assembled=false; return OK_; }
PetscErrorCode MatGetValues(Mat A,PetscInt m,const PetscInt im[],PetscInt n,const PetscInt in[],PetscScalar v[]){ auto p=ready(A,"MatGetValues: the matrix is not assembled"); for(int i=0;i<m;i++) for(int j=0;j<n;j++){ if(im[i]<0||in[j]<0) continue; sym_check(im[i]<p->M&&in[j]<p->N,"MatGetValues: index out of range"); sym_check(im[i]>=p->r0&&im[i]<p->r0+p->m,"MatGetValues: the row belongs to another rank"); v[i*n+j]=p->a[im[i]-p->r0+(size_t)in[j]*p->m]; } return OK_; }
PetscErrorCode MatZeroEntries(Mat A){ auto p=PM(A); matAlloc(p); for(auto&x:p->a) x=0; return OK_; }
PetscErrorCode MatAssemblyBegin(Mat A,MatAssemblyType){ auto p=PM(A); matAlloc(p); sym_check(!p->stashing,"MatAssemblyBegin twice"); if(csize(p->comm)>1){ int md=0; MPI_Allreduce(&p->mode,&md,1,MPI_INT,MPI_BOR,p->comm); sym_check(md!=3,"PETSc: some ranks insert, others add"); p->mode=md; exchange(p->comm,2,p->si,p->sv); } p->stashing=true; return OK_; }
PetscErrorCode MatAssemblyEnd(Mat A,MatAssemblyType){ auto p=PM(A); sym_check(p->stashing,"MatAssemblyEnd without MatAssemblyBegin"); p->stashing=false; for(size_t k=0;k<p->sv.size();k++){ int i=p->si[2*k],j=p->si[2*k+1]; if(i<p->r0||i>=p->r0+p->m) continue; double& x=p->a[i-p->r0+(size_t)j*p->m]; if(p->mode==2) x+=p->sv[k]; else x=p->sv[k]; } p->si.clear(); p->sv.clear(); p->mode=0; p->assembled=true; return OK_; }
PetscErrorCode MatGetSize(Mat A,PetscInt* m,PetscInt* n){ auto p=PM(A); if(m)*m=p->M; if(n)*n=p->N; return OK_; }
PetscErrorCode MatGetLocalSize(Mat A,PetscInt* m,PetscInt* n){ auto p=PM(A); if(m)*m=p->m; if(n)*n=p->n; return OK_; }
PetscErrorCode MatGetOwnershipRange(Mat A,PetscInt* a,PetscInt* b){ auto p=PM(A); matAlloc(p); if(a)*a=p->r0; if(b)*b=p->r0+p->m; return OK_; }
PetscErrorCode MatGetOwnershipRangeColumn(Mat A,PetscInt* a,PetscInt* b){ auto p=PM(A); matAlloc(p); if(a)*a=p->c0; if(b)*b=p->c0+p->n; return OK_; }
PetscErrorCode MatMult(Mat A,Vec x,Vec y){ auto p=ready(A,"MatMult: the matrix is not assembled"); auto px=PV(x),py=PV(y); vecAlloc(py); std::vector<double> g=gatherVec(px); sym_check((int)g.size()==p->N&&py->n==p->m,"MatMult: sizes do not match"); for(int i=0;i<p->m;i++){ double s=0; for(int j=0;j<p->N;j++) s+=p->a[i+(size_t)j*p->m]*g[j]; py->a[i]=s; } return OK_; }
PetscErrorCode MatCreateSubMatrix(Mat A,IS r,IS c,MatReuse,Mat* B){ auto p=ready(A,"MatCreateSubMatrix: the matrix is not assembled"); std::vector<double> g=gatherMat(p); auto& ri=PI(r)->idx; std::vector<int> ci; int nl=p->n; if(c){ ci=gatherIdx(p->comm,PI(c)->idx); nl=PI(c)->idx.size(); } else for(int j=0;j<p->N;j++) ci.push_back(j);
  auto q=newMat(p->comm,ri.size(),nl,-1,ci.size()); for(size_t i=0;i<ri.size();i++) for(size_t j=0;j<ci.size();j++){ sym_check(ri[i]>=0&&ri[i]<p->M&&ci[j]>=0&&ci[j]<p->N,"MatCreateSubMatrix: index out of range"); q->a[i+j*q->m]=g[(size_t)ri[i]*p->N+ci[j]]; } q->assembled=true; *B=(Mat)q; return OK_; }
PetscErrorCode MatCreateSubMatrices(Mat A,PetscInt k,const IS r[],const IS c[],MatReuse reuse,Mat* B[]){ auto p=ready(A,"MatCreateSubMatrices: the matrix is not assembled"); std::vector<double> g=gatherMat(p); sym_check(reuse==MAT_INITIAL_MATRIX,"PETSc model: initial sub-matrices only"); *B=(Mat*)calloc(k+1,sizeof(Mat)); for(int s=0;s<k;s++){ auto& ri=PI(r[s])->idx; auto& ci=PI(c[s])->idx; auto q=newMat(MPI_COMM_SELF,ri.size(),ci.size(),ri.size(),ci.size()); for(size_t i=0;i<ri.size();i++) for(size_t j=0;j<ci.size();j++){ sym_check(ri[i]>=0&&ri[i]<p->M&&ci[j]>=0&&ci[j]<p->N,"MatCreateSubMatrices: index out of range"); q->a[i+j*q->m]=g[(size_t)ri[i]*p->N+ci[j]]; } q->assembled=true; (*B)[s]=(Mat)q; } return OK_; }
PetscErrorCode MatCreateMPIMatConcatenateSeqMat(MPI_Comm c,Mat S,PetscInt n,MatReuse,Mat* B){ auto s=ready(S,"MatCreateMPIMatConcatenateSeqMat: the matrix is not assembled"); sym_check(csize(s->comm)==1,"MatCreateMPIMatConcatenateSeqMat: the parts are sequential"); auto q=newMat(c,s->m,n,-1,s->N); q->a=s->a; q->assembled=true; *B=(Mat)q; return OK_; }
PetscErrorCode MatDestroy(Mat* A){ if(!*A) return OK_; auto p=PM(*A); if(--p->refs<=0){ collective(p->comm); p->tag=0; delete p; } *A=nullptr; return OK_; }
PetscErrorCode MatDestroyMatrices(PetscInt n,Mat* B[]){ for(int i=0;i<n;i++) MatDestroy(&(*B)[i]); free(*B); *B=nullptr; return OK_; }
PetscErrorCode MatDestroySubMatrices(PetscInt n,Mat* B[]){ return MatDestroyMatrices(n,B); }
PetscErrorCode MatFactorInfoInitialize(MatFactorInfo* i){ memset(i,0,sizeof *i); return OK_; }
PetscErrorCode MatLUFactor(Mat A,IS r,IS c,const MatFactorInfo*){ auto p=ready(A,"MatLUFactor: matrix must be assembled"); sym_check(csize(p->comm)==1&&p->m==p->n&&!p->factored,"MatLUFactor: matrix must be square, on one rank and unfactored"); sym_check((int)PI(r)->idx.size()==p->m&&(int)PI(c)->idx.size()==p->n,"MatLUFactor: the orderings have other sizes"); std::vector<char> s(p->m,0),t(p->m,0); for(int k=0;k<p->m;k++){ int a=PI(r)->idx[k],b=PI(c)->idx[k]; sym_check(a>=0&&a<p->m&&b>=0&&b<p->m&&!s[a]&&!t[b],"MatLUFactor: an ordering is no permutation"); s[a]=t[b]=1; } p->factored=true; return OK_; }
PetscErrorCode VecCreate(MPI_Comm c,Vec* v){ collective(c); auto p=new PVec; p->comm=c; *v=(Vec)p; return OK_; }
PetscErrorCode VecSetSizes(Vec v,PetscInt n,PetscInt N){ auto p=PV(v); sym_check(!p->alloc,"VecSetSizes twice"); p->n=n; p->N=N; return OK_; }
PetscErrorCode VecSetType(Vec v,VecType){ vecAlloc(PV(v)); return OK_; }
PetscErrorCode VecSetFromOptions(Vec v){ vecAlloc(PV(v)); return OK_; }
PetscErrorCode VecSetUp(Vec v){ vecAlloc(PV(v)); return OK_; }
PetscErrorCode VecCreateSeq(MPI_Comm c,PetscInt n,Vec* v){ auto p=new PVec; p->comm=c; p->n=p->N=n; vecAlloc(p); *v=(Vec)p; return OK_; }
PetscErrorCode VecCreateMPI(MPI_Comm c,PetscInt n,PetscInt N,Vec* v){ auto p=new PVec; p->comm=c; p->n=n; p->N=N; vecAlloc(p); *v=(Vec)p; return OK_; }
PetscErrorCode MatCreateVecs(Mat A,Vec* r,Vec* l){ auto p=PM(A); matAlloc(p); if(r) VecCreateMPI(p->comm,p->n,p->N,r); if(l) VecCreateMPI(p->comm,p->m,p->M,l); return OK_; }
PetscErrorCode VecDuplicate(Vec v,Vec* w){ auto p=PV(v); vecAlloc(p); auto q=new PVec; q->comm=p->comm; q->n=p->n; q->N=p->N; q->r0=p->r0; q->a.assign(p->n,0.0); q->alloc=true; *w=(Vec)q; return OK_; }
PetscErrorCode VecSet(Vec v,PetscScalar s){ auto p=PV(v); vecAlloc(p); for(auto&x:p->a) x=s; return OK_; }
PetscErrorCode VecZeroEntries(Vec v){ return VecSet(v,0); }
PetscErrorCode VecSetValues(Vec v,PetscInt n,const PetscInt ix[],const PetscScalar y[],InsertMode md){ auto p=PV(v); sym_check(p->alloc,"VecSetValues before the type is set"); if(csize(p->comm)>1&&n>0) mixed(p->mode,md); for(int i=0;i<n;i++){ if(ix[i]<0) continue; sym_check(ix[i]<p->N,"VecSetValues: index out of range"); if(ix[i]<p->r0||ix[i]>=p->r0+p->n){ p->si.push_back(ix[i]); p->sv.push_back(y[i]); continue; } if(md==ADD_VALUES) p->a[ix[i]-p->r0]+=y[i]; else p->a[ix[i]-p->r0]=y[i]; } return OK_; }
PetscErrorCode VecGetValues(Vec v,PetscInt n,const PetscInt ix[],PetscScalar y[]){ auto p=PV(v); for(int i=0;i<n;i++){ if(ix[i]<0) continue; sym_check(ix[i]>=p->r0&&ix[i]<p->r0+p->n,"VecGetValues: the entry belongs to another rank"); y[i]=p->a[ix[i]-p->r0]; } return OK_; }
PetscErrorCode VecAssemblyBegin(Vec v){ auto p=PV(v); vecAlloc(p); if(csize(p->comm)>1){ int md=0; MPI_Allreduce(&p->mode,&md,1,MPI_INT,MPI_BOR,p->comm); sym_check(md!=3,"PETSc: some ranks insert, others add"); p->mode=md; exchange(p->comm,1,p->si,p->sv); } return OK_; }
PetscErrorCode VecAssemblyEnd(Vec v){ auto p=PV(v); for(size_t k=0;k<p->sv.size();k++){ int i=p->si[k]; if(i<p->r0||i>=p->r0+p->n) continue; if(p->mode==2) p->a[i-p->r0]+=p->sv[k]; else p->a[i-p->r0]=p->sv[k]; } p->si.clear(); p->sv.clear(); p->mode=0; return OK_; }
PetscErrorCode VecGetArray(Vec v,PetscScalar** a){ auto p=PV(v); vecAlloc(p); *a=p->a.data(); return OK_; }
PetscErrorCode VecRestoreArray(Vec v,PetscScalar** a){ PV(v); if(a) *a=nullptr; return OK_; }
PetscErrorCode VecGetArrayRead(Vec v,const PetscScalar** a){ auto p=PV(v); vecAlloc(p); *a=p->a.data(); return OK_; }
PetscErrorCode VecRestoreArrayRead(Vec v,const PetscScalar** a){ PV(v); if(a) *a=nullptr; return OK_; }
PetscErrorCode VecGetSize(Vec v,PetscInt* n){ *n=PV(v)->N; return OK_; }
PetscErrorCode VecGetLocalSize(Vec v,PetscInt* n){ *n=PV(v)->n; return OK_; }
PetscErrorCode VecGetOwnershipRange(Vec v,PetscInt* a,PetscInt* b){ auto p=PV(v); if(a)*a=p->r0; if(b)*b=p->r0+p->n; return OK_; }
PetscErrorCode VecDestroy(Vec* v){ if(!*v) return OK_; auto p=PV(*v); if(--p->refs<=0){ collective(p->comm); p->tag=0; delete p; } *v=nullptr; return OK_; }
PetscErrorCode VecCopy(Vec v,Vec w){ PV(w)->a=PV(v)->a; return OK_; }
PetscErrorCode PetscObjectReference(PetscObject o){ auto p=(PObj*)o; if(!p||!sym_live(p)||(p->tag!=0x4d41&&p->tag!=0x5645)) sym_fail("PetscObjectReference: invalid object"); p->refs++; return OK_; }
PetscErrorCode PetscObjectDereference(PetscObject o){ auto p=(PObj*)o; if(!p||!sym_live(p)) sym_fail("PetscObjectDereference: invalid object"); if(p->tag==0x4d41){ Mat m=(Mat)o; return MatDestroy(&m); } Vec v=(Vec)o; return VecDestroy(&v); }
PetscErrorCode PetscObjectGetComm(PetscObject o,MPI_Comm* c){ auto p=(PObj*)o; if(!p||!sym_live(p)||!p->tag) sym_fail("PetscObjectGetComm: invalid object"); *c=p->comm; return OK_; }
static int petscOn=0,petscBegan=0,petscArgc=0; static char** petscArgv=nullptr;
PetscErrorCode PetscInitialize(int* c,char*** v,const char*,const char*){ if(petscOn==1) return OK_; int f; MPI_Initialized(&f); if(!f){ MPI_Init(c,v); petscBegan=1; } petscOn=1; petscArgc=c?*c:0; petscArgv=v?*v:nullptr; return OK_; }
PetscErrorCode PetscInitializeNoArguments(void){ return PetscInitialize(nullptr,nullptr,nullptr,nullptr); }
PetscErrorCode PetscFinalize(void){ int f; MPI_Finalized(&f); if(f) sym_fail("PetscFinalize after MPI_Finalize"); if(petscOn==1&&petscBegan) MPI_Finalize(); if(petscOn==1) petscOn=2; return OK_; }
PetscErrorCode PetscInitialized(PetscBool* b){ *b=petscOn==1?PETSC_TRUE:PETSC_FALSE; return OK_; } PetscErrorCode PetscFinalized(PetscBool* b){ *b=petscOn==2?PETSC_TRUE:PETSC_FALSE; return OK_; }
PetscErrorCode PetscGetArgs(int* c,char*** v){ if(petscOn!=1) sym_fail("PetscGetArgs: PETSc is not initialised"); *c=petscArgc; *v=petscArgv; return OK_; }
PetscErrorCode PetscObjectGetReference(PetscObject o,PetscInt* c){ auto p=(PObj*)o; if(!p||!sym_live(p)||!p->tag) sym_fail("PetscObjectGetReference: invalid object"); *c=p->refs; return OK_; }
PetscErrorCode MatSolve(Mat A,Vec b,Vec x){ auto p=PM(A); auto pb=PV(b),px=PV(x); sym_check(p->factored,"MatSolve: matrix is not factored"); sym_check(pb->n==p->m&&px->n==p->n,"MatSolve: sizes do not match"); vecAlloc(px); std::vector<double> B=pb->a; 
  if(concreteSingular(p->a.data(),p->m,p->m)) sym_fail("MatSolve: the assembled matrix is singular"); contractSolve("u",p->a,p->m,B.data(),1,p->m,false); px->a=B; return OK_; }
PetscErrorCode KSPCreate(MPI_Comm,KSP* k){ *k=(KSP)new PKSP; return OK_; }
PetscErrorCode KSPSetOperators(KSP k,Mat A,Mat){ ((PKSP*)k)->A=PM(A); return OK_; }
PetscErrorCode KSPSetType(KSP,KSPType){ return OK_; }
PetscErrorCode KSPGetPC(KSP,PC* p){ *p=nullptr; return OK_; }
PetscErrorCode PCSetType(PC,PCType){ return OK_; }
PetscErrorCode KSPSetFromOptions(KSP){ return OK_; }
PetscErrorCode KSPSetUp(KSP){ return OK_; }
PetscErrorCode KSPSolve(KSP k,Vec b,Vec x){ auto p=((PKSP*)k)->A; std::vector<double> B=PV(b)->a; contractSolve("u",p->a,p->m,B.data(),1,p->m,false); vecAlloc(PV(x)); PV(x)->a=B; return OK_; }
PetscErrorCode KSPDestroy(KSP* k){ delete (PKSP*)*k; *k=nullptr; return OK_; }
PetscErrorCode ISCreateGeneral(MPI_Comm c,PetscInt n,const PetscInt idx[],PetscCopyMode,IS* is){ collective(c); auto p=new PIS; p->comm=c; p->idx.assign(idx,idx+n); *is=(IS)p; return OK_; }
PetscErrorCode ISCreateStride(MPI_Comm c,PetscInt n,PetscInt f,PetscInt s,IS* is){ collective(c); auto p=new PIS; p->comm=c; for(int i=0;i<n;i++) p->idx.push_back(f+i*s); *is=(IS)p; return OK_; }
PetscErrorCode ISDestroy(IS* is){ if(!*is) return OK_; auto p=PI(*is); p->tag=0; delete p; *is=nullptr; return OK_; }
}
template class std::basic_string<char>;
#include "fishpack_model.inc"

// ---------------------------------------------------------------- C text functions on symbolic characters
#include "vfile.hpp"
#include <cerrno>
#include <climits>
#include <istream>
extern "C" int isdigit(int c){ return c>='0'&&c<='9'; }
extern "C" int isspace(int c){ return c==' '||(c>=9&&c<=13); }
static bool symText(const char* s){ for(int i=0;;i++){ if(sym_is_symbolic_byte(s+i)) return true; if(!s[i]) return false; } }
extern "C" __attribute__((used)) long m_strtol(const char* s,char** end,int base){
  const char* p=s; while(isspace((unsigned char)*p)) p++; bool neg=false; if(*p=='+'||*p=='-'){ neg=*p=='-'; p++; }
  if(base!=10) { sym_check(!symText(p),"strtol model: base 10 only for symbolic text"); }
  long v=0; int n=0; bool over=false; for(;;p++,n++){ int c=(unsigned char)*p,d; if(isdigit(c)) d=c-'0'; else if(base>10&&c>='a'&&c<'a'+base-10) d=c-'a'+10; else if(base>10&&c>='A'&&c<'A'+base-10) d=c-'A'+10; else break; if(d>=base) break;
    if(n<17) v=v*base+d; else if(v>(LONG_MAX-d)/base) over=true; else v=v*base+d; }
  if(end) *end=(char*)(n?p:s); if(over){ errno=ERANGE; return neg?LONG_MIN:LONG_MAX; } return neg?-v:v; }
extern "C" __attribute__((used)) double m_strtod(const char* s,char** end){
  const char* p=s; while(isspace((unsigned char)*p)) p++; bool neg=false; if(*p=='+'||*p=='-'){ neg=*p=='-'; p++; }
  long m=0; int n=0,fr=0; for(;isdigit((unsigned char)*p);p++,n++) m=m*10+(*p-'0'); if(*p=='.'){ const char* q=p+1; if(n||isdigit((unsigned char)*q)){ for(;isdigit((unsigned char)*q);q++,n++,fr++) m=m*10+(*q-'0'); p=q; } }
  if(!n){ const char* w=p; int c=*w|32; if(c=='i'||c=='n') sym_note("strtod model: inf/nan text",1); if(end) *end=(char*)s; return 0; }
  long e=0; if(*p=='e'||*p=='E'){ const char* q=p+1; bool en=false; if(*q=='+'||*q=='-'){ en=*q=='-'; q++; } if(isdigit((unsigned char)*q)){ for(;isdigit((unsigned char)*q);q++) e=e*10+(*q-'0'); if(en) e=-e; p=q; } }
  if(end) *end=(char*)p; e=sym_split(e); double v=(double)m; int k=(int)e-fr; if(k>300||k<-300){ if(m==0) return 0; errno=ERANGE; return k>0?HUGE_VAL:0.0; } for(;k>0;k--) v*=10.0; for(;k<0;k++) v/=10.0; return neg?-v:v; }
// line input from the harness's virtual file
static std::istream* vline(std::istream* is,std::string* s,char delim){ if(!*is){ return is; } if(vf_pos>=vf_text.size()){ s->clear(); is->setstate(std::ios::eofbit|std::ios::failbit); return is; }
  std::string r; while(vf_pos<vf_text.size()){ char c=vf_text[vf_pos++]; if(c==delim){ *s=r; return is; } r+=c; } is->setstate(std::ios::eofbit); *s=r; return is; }
extern "C" std::istream* m_getline1(std::istream*,std::string*) asm("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
extern "C" std::istream* m_getline2(std::istream*,std::string*,char) asm("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
extern "C" std::istream* m_getline1(std::istream* i,std::string* s){ return vline(i,s,'\n'); }
extern "C" std::istream* m_getline2(std::istream* i,std::string* s,char d){ return vline(i,s,d); }
std::string vf_text; size_t vf_pos=0;
