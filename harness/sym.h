// Harness API.  Under efsym these are built-ins; natively (replay) sym_native.cpp implements them.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
extern "C" {
double sym_double(const char* name);            // arbitrary real
double sym_fresh(const char* name);             // arbitrary real, not an input (result of a contract stub)
int sym_int(const char* name,int lo,int hi);    // arbitrary int in [lo,hi]
int sym_choose(const char* name,int lo,int hi); // same, one path per value
char sym_char(const char* name,const char* set);
void sym_assume(int c);
void sym_check(int c,const char* msg);
void sym_check_eq(double got,double want,const char* msg);
void sym_assume_eq(double a,double b);
void sym_reach(const char* label);
void sym_note(const char* k,long v);
void sym_note_s(const char* k,const char* v);
int sym_is_symbolic(double v);
long sym_token(double v,char* buf);
void sym_fail(const char* msg);
void sym_flush(void);
int sym_ranks(int n);
int sym_petsc_live(void);                        // PETSc objects created and not destroyed yet
void sym_mpi_sync(void);                        // from here on sends and collectives synchronise, as MPI allows (call it before sym_ranks)
int sym_native(void);
int sym_live(const void* p);
int sym_is_symbolic_byte(const char* p);
long sym_render(const char* p,long n,char* out);   // text as it appears in a file (symbolic characters become tokens)
void sym_own_dir(void);                         // engine: change to a fresh directory private to this path
int sym_exact_solve(const double* A,int n,double* B,int nrhs,int ldb,int trans); // engine: B := inv(op(A)) B in exact rationals if A (column major) is constant; 1 done, 0 not constant, -1 singular
long sym_split(long v);                         // one path per value
}
static inline std::string N_(const char* b,long i){ char s[96]; snprintf(s,96,"%s[%ld]",b,i); return s; }
static inline std::string N_(const char* b,long i,long j){ char s[96]; snprintf(s,96,"%s[%ld,%ld]",b,i,j); return s; }
static inline std::string N_(const char* b,long i,long j,long k){ char s[96]; snprintf(s,96,"%s[%ld,%ld,%ld]",b,i,j,k); return s; }
static inline double symd(const char* b,long i){ return sym_double(N_(b,i).c_str()); }
static inline double symd(const char* b,long i,long j){ return sym_double(N_(b,i,j).c_str()); }
static inline double symd(const char* b,long i,long j,long k){ return sym_double(N_(b,i,j,k).c_str()); }
#define M_(...) (([&]{ static char s_[256]; snprintf(s_,256,__VA_ARGS__); return (const char*)s_; })())
