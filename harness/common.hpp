// Shared helpers for harnesses.
#pragma once
#include "sym.h"
#include <EllipticForestApp.hpp>
#include <Vector.hpp>
#include <Matrix.hpp>
#include <SpecialMatrices.hpp>
namespace EF = EllipticForest;
typedef EF::Matrix<double> Mat_; typedef EF::Vector<double> Vec_; typedef EF::Vector<int> IVec_;
#ifdef SYM_THOROUGH
#define TH(a,b) (b)
#else
#define TH(a,b) (a)
#endif
#define ENTRY extern "C" __attribute__((used)) void
// dense reference containers that do not use the code under test
struct RM { int r=0,c=0; std::vector<double> a; RM(){} RM(int r,int c):r(r),c(c),a((size_t)r*c,0.0){} double& operator()(int i,int j){ return a[(size_t)i*c+j]; } double operator()(int i,int j) const { return a[(size_t)i*c+j]; } };
typedef std::vector<double> RV;
static inline RM symRM(const char* nm,int r,int c){ RM m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=symd(nm,i,j); return m; }
static inline RV symRV(const char* nm,int n){ RV v(n); for(int i=0;i<n;i++) v[i]=symd(nm,i); return v; }
static inline Mat_ toM(const RM& m){ return Mat_(m.r,m.c,m.a); }
static inline Vec_ toV(const RV& v){ return Vec_(v); }
static inline void eqM(Mat_& got,const RM& want,const char* msg){
  sym_check(got.nrows()==(size_t)want.r&&got.ncols()==(size_t)want.c,M_("%s: wrong shape",msg)); sym_check(got.dataNoConst().size()==want.a.size(),M_("%s: wrong storage size",msg));
  if(got.nrows()!=(size_t)want.r||got.ncols()!=(size_t)want.c||got.dataNoConst().size()!=want.a.size()) return;
  const double* d=got.dataPointer(); for(int i=0;i<want.r;i++) for(int j=0;j<want.c;j++) sym_check_eq(d[(size_t)i*want.c+j],want(i,j),M_("%s: entry (%d,%d)",msg,i,j)); }
static inline void eqV(Vec_& got,const RV& want,const char* msg){
  sym_check(got.size()==want.size()&&got.dataNoConst().size()==want.size(),M_("%s: wrong length",msg)); if(got.size()!=want.size()||got.dataNoConst().size()!=want.size()) return;
  const double* d=got.dataPointer(); for(size_t i=0;i<want.size();i++) sym_check_eq(d[i],want[i],M_("%s: entry %d",msg,(int)i)); }
static inline RM mul(const RM& A,const RM& B){ RM C(A.r,B.c); for(int i=0;i<A.r;i++) for(int j=0;j<B.c;j++){ double s=0; for(int k=0;k<A.c;k++) s+=A(i,k)*B(k,j); C(i,j)=s; } return C; }
static inline RV mul(const RM& A,const RV& x){ RV y(A.r); for(int i=0;i<A.r;i++){ double s=0; for(int k=0;k<A.c;k++) s+=A(i,k)*x[k]; y[i]=s; } return y; }
static inline RM getM(Mat_& m){ RM r((int)m.nrows(),(int)m.ncols()); r.a=m.dataNoConst(); sym_check(r.a.size()==(size_t)r.r*r.c,"matrix storage size does not match its shape"); r.a.resize((size_t)r.r*r.c); return r; }
static inline RV getV(Vec_& v){ sym_check(v.size()==v.dataNoConst().size(),"vector storage size does not match its length"); return v.dataNoConst(); }
