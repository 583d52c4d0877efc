// Native side of the harness API: replays one assignment against the natively compiled code.
#include "sym.h"
#include <map>
#include <cmath>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <mpi.h>
#include <petsc.h>
#include <vector>
#include "fishpack_model.inc"
#include "p4_search.inc"
#include "vfile.hpp"
std::string vf_text; size_t vf_pos=0;
#define SYM_MPI
static std::map<std::string,std::string> vals; static bool loaded=false; static std::map<std::string,int> uses; static int bad=0; static unsigned long long seed=1;
static void load(){ if(loaded) return; loaded=true; if(const char*s=getenv("SYM_SEED")) seed=strtoull(s,0,10); const char* f=getenv("SYM_REPLAY"); if(!f) return; std::ifstream in(f); std::string l; while(std::getline(in,l)){ auto p=l.rfind('\t'); if(p!=std::string::npos) vals[l.substr(0,p)]=l.substr(p+1); } }
static std::string uniq(const std::string&s){ int k=uses[s]++; return k?s+"~"+std::to_string(k):s; }
static unsigned long long hsh(const std::string&s){ unsigned long long h=1469598103934665603ull^(seed*0x9E3779B97F4A7C15ull); for(char c:s){ h^=(unsigned char)c; h*=1099511628211ull; } h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; return h; }
extern "C" {
double sym_double(const char* n){ load(); std::string k=uniq(n); auto it=vals.find(k); if(it!=vals.end()) return strtod(it->second.c_str(),0); return ((long long)(hsh(k)%2001)-1000)/128.0+0.25; }
double sym_fresh(const char* n){ return 0; }
int sym_int(const char* n,int lo,int hi){ load(); std::string k=uniq(n); auto it=vals.find(k); if(it!=vals.end()) return (int)strtol(it->second.c_str(),0,10); return lo+(int)(hsh(k)%(unsigned long long)((long long)hi-lo+1)); }
int sym_choose(const char* n,int lo,int hi){ return sym_int(n,lo,hi); }
char sym_char(const char* n,const char* set){ load(); std::string k=uniq(n); auto it=vals.find(k); if(it!=vals.end()) return (char)strtol(it->second.c_str(),0,10); return set[hsh(k)%strlen(set)]; }
void sym_assume(int c){ if(!c){ printf("SYM-ASSUME-FALSE\n"); fflush(stdout); _exit(77); } }
static void failed(const char*m){ printf("SYM-FAIL %s\n",m); fflush(stdout); bad++; if(bad>=20) _exit(42); }
void sym_check(int c,const char* m){ if(!c) failed(m); }
void sym_check_eq(double a,double b,const char* m){ double s=fmax(1.0,fmax(fabs(a),fabs(b))); if(!(fabs(a-b)<=1e-7*s)){ char t[400]; snprintf(t,400,"%s | got %.17g | want %.17g",m,a,b); failed(t); } }
void sym_assume_eq(double,double){} void sym_reach(const char*){} void sym_note(const char*k,long v){} void sym_note_s(const char*,const char*){} int sym_is_symbolic(double){ return 0; }
long sym_token(double v,char*b){ std::ostringstream o; o<<v; strcpy(b,o.str().c_str()); return o.str().size(); }
void sym_fail(const char*m){ failed(m); _exit(42); } void sym_flush(void){}
int sym_petsc_live(void){
#ifdef SYM_MPI
 PetscStageLog l; PetscLogGetStageLog(&l); if(!l) return 0; int n=0; for(int k=0;k<l->numStages;k++){ PetscClassPerfLog c=l->stageInfo[k].classLog; for(int i=0;i<c->numClasses;i++) n+=c->classInfo[i].creations-c->classInfo[i].destructions; } return n;
#else
 return 0;
#endif
}
int sym_ranks(int n){
#ifdef SYM_MPI
 if(n<=1) return 0; int r,s,up; MPI_Initialized(&up); if(!up){ const char* a=getenv("OMPI_COMM_WORLD_RANK"); const char* b=getenv("OMPI_COMM_WORLD_SIZE"); if(!b||atoi(b)!=n){ fprintf(stderr,"SYM-RANKS %d\n",n); _exit(78); } return atoi(a); } MPI_Comm_rank(MPI_COMM_WORLD,&r); MPI_Comm_size(MPI_COMM_WORLD,&s); if(s!=n){ fprintf(stderr,"SYM-RANKS %d\n",n); _exit(78);} return r;
#else
 return 0;
#endif
}
static bool syncMode=false; void sym_mpi_sync(void){ syncMode=true; }
#ifdef SYM_MPI
#undef MPI_Send
#undef MPI_Bcast
#undef MPI_Allreduce
int MPI_Send(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return syncMode?PMPI_Ssend(b,n,t,d,tag,c):PMPI_Send(b,n,t,d,tag,c); }
int MPI_Bcast(void* b,int n,MPI_Datatype t,int r,MPI_Comm c){ if(syncMode) PMPI_Barrier(c); return PMPI_Bcast(b,n,t,r,c); }
int MPI_Allreduce(const void* s,void* d,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c){ if(syncMode) PMPI_Barrier(c); return PMPI_Allreduce(s,d,n,t,o,c); }
#endif
int sym_native(void){ return 1; } int sym_live(const void*){ return 1; } int sym_is_symbolic_byte(const char*){ return 0; } long sym_split(long v){ return v; } void sym_own_dir(void){} long sym_render(const char* p,long n,char* o){ memcpy(o,p,n); o[n]=0; return n; }
void SYM_ENTRY(); int sym_bare(void) __attribute__((weak));
}
int main(int argc,char**argv){
#ifdef SYM_MPI
 if(!sym_bare){ MPI_Init(&argc,&argv); PetscInitializeNoArguments(); PetscLogDefaultBegin(); MPI_Comm_set_errhandler(MPI_COMM_WORLD,MPI_ERRORS_ARE_FATAL); }
#endif
 SYM_ENTRY(); fflush(stdout); 
#ifdef SYM_MPI
 int fin; MPI_Finalized(&fin); if(!bad&&!fin) MPI_Finalize();
#endif
 _exit(bad?42:0); }
