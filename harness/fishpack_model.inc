// HSTCRT (FISHPACK90): U_xx + U_yy + lambda*U = F on the staggered grid, second-order five-point discretisation,
// MBDCND = NBDCND = 1 (values of U given on all four sides).  F(IDIMF,*) column major is overwritten by U.
// Documented argument checks: IERROR 1: A>=B, 2/4: bad MBDCND/NBDCND, 3: C>=D, 5: N<=2(<1), 6: lambda>0 (solution attempted), 7: IDIMF<M, 8: M<=2.
extern "C" void dgesv_(int*,int*,double*,int*,int*,double*,int*,int*);
extern "C" void hstcrt_(double* A,double* B,int* M,int* MB,double* bda,double* bdb,double* C,double* D,int* N,int* NB,double* bdc,double* bdd,double* lam,double* F,int* idimf,double* pertrb,int* ierror){
  int m=*M,n=*N,ld=*idimf; *pertrb=0; *ierror=0;
  if(!(*A<*B)){ *ierror=1; return; } if(*MB<0||*MB>8){ *ierror=2; return; } if(!(*C<*D)){ *ierror=3; return; } if(*NB<0||*NB>4){ *ierror=4; return; } if(n<=2){ *ierror=5; return; } if(ld<m){ *ierror=7; return; } if(m<=2){ *ierror=8; return; }
  if(*lam>0) *ierror=6;
  if(*MB!=1||*NB!=1){ sym_fail("hstcrt model: only Dirichlet sides are modelled"); return; }
  double dx=(*B-*A)/m, dy=(*D-*C)/n, cx=1.0/(dx*dx), cy=1.0/(dy*dy); int K=m*n,one=1,info=0;
  std::vector<double> S((size_t)K*K,0.0),R(K); std::vector<int> piv(K);
  for(int j=0;j<n;j++) for(int i=0;i<m;i++){ int k=i+j*m; double d=-2*cx-2*cy+*lam, r=F[i+(long)j*ld];
    if(i>0) S[k+(size_t)(k-1)*K]=cx; else { d-=cx; r-=2*cx*bda[j]; }
    if(i<m-1) S[k+(size_t)(k+1)*K]=cx; else { d-=cx; r-=2*cx*bdb[j]; }
    if(j>0) S[k+(size_t)(k-m)*K]=cy; else { d-=cy; r-=2*cy*bdc[i]; }
    if(j<n-1) S[k+(size_t)(k+m)*K]=cy; else { d-=cy; r-=2*cy*bdd[i]; }
    S[k+(size_t)k*K]=d; R[k]=r; }
  dgesv_(&K,&one,S.data(),&K,piv.data(),R.data(),&K,&info);
  for(int j=0;j<n;j++) for(int i=0;i<m;i++) F[i+(long)j*ld]=R[i+j*m]; }
