#include "core.hpp"
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
std::vector<Obj> objs(1);
static uint64_t heapTop = ARENA+STACK_SZ;
static std::unordered_map<uint64_t,uint32_t> nativeShadow;

uint64_t heapAlloc(uint64_t size,ObjKind k,const char* name,uint64_t align){
  if(size>(1ull<<32)) return 0;
  uint64_t a=(heapTop+align-1)&~(align-1); uint64_t sz=(size+15)&~15ull; if(sz==0) sz=16;
  heapTop=a+sz+32; if(heapTop>ARENA+ARENA_SZ) engineError("arena exhausted");
  uint32_t id=objs.size(); objs.push_back({a,size,k,true,name});
  for(uint64_t p=a;p<a+sz;p+=16) granOf(p)=id;
  if(k!=O_GLOBAL&&size) memset((void*)a,0xCB,size);
  return a; }
void heapFree(uint64_t p,ObjKind k){
  if(!p) return;
  if(!inArena(p)){ free((void*)p); return; }
  uint32_t id=granOf(p); Obj*o=id?&objs[id]:nullptr;
  if(!o||o->base!=p||o->kind==O_STACK||o->kind==O_GLOBAL) fail("memory","free of a pointer that is not an allocated block");
  if(!o->live) fail("memory","double free");
  if(o->kind!=k) fail("memory","mismatched allocation/deallocation (new/delete/malloc/free)");
  o->live=false;
  uint64_t lo=(o->base+4095)&~4095ull, hi=(o->base+o->size)&~4095ull;
  if(hi>lo+65536) { madvise((void*)lo,hi-lo,MADV_DONTNEED); }
}
static void bad(uint64_t a,uint64_t n,const char* what,const Obj*o){
  char b[512];
  if(!o) snprintf(b,512,"%s of %lu bytes outside any object",what,(unsigned long)n);
  else snprintf(b,512,"%s of %lu bytes at offset %ld of %s object of size %lu%s%s",what,(unsigned long)n,(long)(a-o->base),o->live?"live":"freed",(unsigned long)o->size,o->name?" ":"",o->name?o->name:"");
  fail("memory",b); }
void checkAccess(uint64_t a,uint64_t n,const char* what){
  if(n==0) return;
  if(inArena(a)){ uint32_t id=granOf(a); if(!id){ // maybe just past an object
      for(int i=1;i<=64&&!id&&a-16*i>=ARENA;i++) id=granOf(a-16*i); bad(a,n,what,id?&objs[id]:nullptr); }
    const Obj&o=objs[id]; if(!o.live||a<o.base||a+n>o.base+o.size) bad(a,n,what,&o); return; }
  if(a<65536) { char b[128]; snprintf(b,128,"%s through null pointer (address 0x%lx)",what,(unsigned long)a); fail("memory",b); }
  if(a>=(1ull<<47)) { char b[128]; snprintf(b,128,"%s through wild pointer (address 0x%lx)",what,(unsigned long)a); fail("memory",b); }
}
uint32_t getShadow(uint64_t a){ if(inArena(a)) return *shadowOf(a); if(nativeShadow.empty()) return 0; auto it=nativeShadow.find(a); return it==nativeShadow.end()?0:it->second; }
void setShadow(uint64_t a,uint32_t s){ if(inArena(a)) { *shadowOf(a)=s; return; } if(s) nativeShadow[a]=s; else if(!nativeShadow.empty()) nativeShadow.erase(a); }
bool anySym(uint64_t a,uint64_t n){ if(inArena(a)){ uint32_t*s=shadowOf(a); for(uint64_t i=0;i<n;i++) if(s[i]) return true; return false; }
  if(nativeShadow.empty()) return false; for(uint64_t i=0;i<n;i++) if(getShadow(a+i)) return true; return false; }
static inline void clearShadow(uint64_t a,uint64_t n){ if(inArena(a)){ uint32_t*s=shadowOf(a); for(uint64_t i=0;i<n;i++) if(s[i]) s[i]=0; } else if(!nativeShadow.empty()) for(uint64_t i=0;i<n;i++) nativeShadow.erase(a+i); }
void memCopy(uint64_t d,uint64_t s,uint64_t n){
  if(!n||d==s) return; 
  bool sy=anySym(s,n); std::vector<uint32_t> sh; if(sy){ sh.resize(n); for(uint64_t i=0;i<n;i++) sh[i]=getShadow(s+i); }
  memmove((void*)d,(void*)s,n);
  if(sy) for(uint64_t i=0;i<n;i++) setShadow(d+i,sh[i]); else clearShadow(d,n); }
void memFill(uint64_t d,int v,uint64_t n){ memset((void*)d,v,n); clearShadow(d,n); }
Val loadBytes(uint64_t a,unsigned nb,unsigned bits,Kind k){
  Val r;
  bool sy=anySym(a,nb);
  if(!sy){ uint64_t x=0; memcpy(&x,(void*)a,nb); if(bits<64) x&=Terms::mask(bits); r.c=x; return r; }
  uint32_t s[8]; for(unsigned i=0;i<nb;i++) s[i]=getShadow(a+i);
  TID t0=s[0]>>3; bool whole=s[0]!=0&&(s[0]&7)==0; if(whole) for(unsigned i=1;i<nb;i++) if(s[i]!=s[0]+i) { whole=false; break; }
  if(whole){ unsigned tw=T.n[t0].w; 
    if(tw==0) { r.t=t0; return r; }
    if(tw==nb*8) { r.t=bits<tw?T.extract(t0,0,bits):t0; if(T.isC(r.t)) { r.c=T.n[r.t].c; r.t=0; } return r; } }
  TID acc=0;
  for(int i=(int)nb-1;i>=0;i--){ TID b; if(!s[i]) b=T.bconst(8,*(uint8_t*)(a+i)); else { TID t=s[i]>>3; unsigned ix=s[i]&7; if(T.n[t].w==0) engineError("partial access to the bytes of a symbolic double"); b=T.extract(t,ix*8,8); }
    acc=acc?T.concat(acc,b):b; }
  if(bits<nb*8) acc=T.extract(acc,0,bits);
  if(T.isC(acc)) r.c=T.n[acc].c; else r.t=acc;
  return r; }
void storeBytes(uint64_t a,unsigned nb,unsigned bits,Kind k,const Val&v){
  if(!v.t){ uint64_t x=v.c; memcpy((void*)a,&x,nb); clearShadow(a,nb); return; }
  TID t=v.t; unsigned tw=T.n[t].w; if(tw!=0&&tw<nb*8) t=T.zext(t,nb*8);
  memset((void*)a,0x5A,nb);
  if(T.isC(t)){ uint64_t x=T.n[t].c; memcpy((void*)a,&x,nb); clearShadow(a,nb); return; }
  for(unsigned i=0;i<nb;i++) setShadow(a+i,(t<<3)|i); }
