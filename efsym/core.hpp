#pragma once
#include "term.hpp"
#include <atomic>
#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <typeinfo>
#include <exception>
#include <semaphore.h>

struct Val { uint64_t c=0; TID t=0; uint32_t agg=0; };
inline Val VC(uint64_t c){ Val v; v.c=c; return v; }
inline Val VT(TID t){ Val v; v.t=t; return v; }

enum Kind : uint8_t { K_VOID, K_INT, K_PTR, K_F64, K_F32, K_AGG, K_OTHER };

// ---- shared state between path processes -----------------------------------------------------
struct Shared {
  std::atomic<uint64_t> paths, instrs, obligations, trivial, queries, secs_us, forks, fails, errors, infeasible, eqs, maxdepth, polymax, concretized, nlq;
  std::atomic<int> stop; sem_t jobs;
};
extern Shared* SH;
extern Terms T; extern Polys P; extern Z* z;

// ---- memory ----------------------------------------------------------------------------------
constexpr uint64_t ARENA = 0x100000000000ull, ARENA_SZ = 1ull<<36;      // 64 GB virtual
constexpr uint64_t STACK0 = ARENA, STACK_SZ = 1ull<<32;
constexpr uint64_t SHADOW = 0x200000000000ull;   // 4 bytes / byte
constexpr uint64_t GRAN   = 0x300000000000ull;   // 4 bytes / 16 bytes
inline bool inArena(uint64_t a){ return a-ARENA < ARENA_SZ; }
inline uint32_t* shadowOf(uint64_t a){ return (uint32_t*)(SHADOW+(a-ARENA)*4); }
inline uint32_t& granOf(uint64_t a){ return *(uint32_t*)(GRAN+((a-ARENA)>>4)*4); }
enum ObjKind : uint8_t { O_GLOBAL, O_HEAP, O_NEW, O_NEWARR, O_STACK };
struct Obj { uint64_t base,size; ObjKind kind; bool live; const char* name; };
extern std::vector<Obj> objs;
uint64_t heapAlloc(uint64_t size,ObjKind k,const char* name=nullptr,uint64_t align=16);
void heapFree(uint64_t p,ObjKind k);
void checkAccess(uint64_t a,uint64_t n,const char* what);
void memCopy(uint64_t d,uint64_t s,uint64_t n);
void memFill(uint64_t d,int v,uint64_t n);
uint32_t getShadow(uint64_t a);
void setShadow(uint64_t a,uint32_t s);
bool anySym(uint64_t a,uint64_t n);
Val loadBytes(uint64_t a,unsigned nbytes,unsigned bits,Kind k);
void storeBytes(uint64_t a,unsigned nbytes,unsigned bits,Kind k,const Val&v);

// ---- failures / path control -----------------------------------------------------------------
[[noreturn]] void fail(const char* kind,const std::string& msg); // property failure on this path
[[noreturn]] void engineError(const std::string& msg);           // inconclusive
[[noreturn]] void endPath();
bool decide(TID cond);
uint64_t concretize(Val v);
uint64_t conc(const Val& v); // concrete or concretized
TID realTerm(const Val& v,bool f32=false);
std::string cstr(uint64_t p);
extern bool inRank; extern int rankId, rankCount;
int rankFork(int n);
enum { E_FAIL=0, E_OK=1, E_ABORT=2 }; void rankEnd(int how);
[[noreturn]] void rankAsk(TID t,bool value); // a decision is needed: the ranks start over once it is taken
void mpiInit();
