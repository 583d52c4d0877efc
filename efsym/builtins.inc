// ---------------------------------------------------------------- builtins
#define BI(n) static Val n(std::vector<Val>& a,Instruction* site)
static uint64_t A(std::vector<Val>&a,size_t i){ return conc(a.at(i)); }
BI(b_memcpy){ uint64_t d=A(a,0),s=A(a,1),n=A(a,2); if(n){ checkAccess(s,n,"read (memcpy)"); checkAccess(d,n,"write (memcpy)"); memCopy(d,s,n);} return a[0]; }
BI(b_memset){ uint64_t d=A(a,0),n=A(a,2); if(n){ checkAccess(d,n,"write (memset)"); uint64_t v=A(a,1); memFill(d,(int)v,n);} return a[0]; }
BI(b_memcmp){ uint64_t x=A(a,0),y=A(a,1),n=A(a,2); if(n){ checkAccess(x,n,"read (memcmp)"); checkAccess(y,n,"read (memcmp)"); } 
  for(uint64_t i=0;i<n;i++){ if(!getShadow(x+i)&&!getShadow(y+i)){ uint8_t p=*(uint8_t*)(x+i),q=*(uint8_t*)(y+i); if(p!=q) return VC((uint32_t)(p<q?-1:1)); continue; }
    if(getShadow(x+i)==getShadow(y+i)) continue;
    Val u=loadBytes(x+i,1,8,K_INT),v=loadBytes(y+i,1,8,K_INT); TID s=bvt(u,8),t=bvt(v,8); if(decide(T.cmp(T_EQ,s,t))) continue; return VC((uint32_t)(decide(T.cmp(T_ULT,s,t))?-1:1)); } return VC(0); }
BI(b_strlen){ uint64_t p=A(a,0),q=p; for(;;q++){ if(inArena(q)) checkAccess(q,1,"read (strlen)"); if(getShadow(q)){ Val v=loadBytes(q,1,8,K_INT); if(v.t?decide(T.cmp(T_EQ,v.t,T.bconst(8,0))):v.c==0) break; } else if(!*(char*)q) break; } return VC(q-p); }
static Val cmpStr(uint64_t x,uint64_t y,uint64_t n){ for(uint64_t i=0;i<n;i++){ checkAccess(x+i,1,"read (strcmp)"); checkAccess(y+i,1,"read (strcmp)"); Val u=loadBytes(x+i,1,8,K_INT),v=loadBytes(y+i,1,8,K_INT); TID s=bvt(u,8),t=bvt(v,8); if(!decide(T.cmp(T_EQ,s,t))) return VC((uint32_t)(decide(T.cmp(T_ULT,s,t))?-1:1)); if(decide(T.cmp(T_EQ,s,T.bconst(8,0)))) break; } return VC(0); }
BI(b_strcmp){ return cmpStr(A(a,0),A(a,1),~0ull); } BI(b_strncmp){ return cmpStr(A(a,0),A(a,1),A(a,2)); }
BI(b_memchr){ uint64_t p=A(a,0),n=A(a,2); Val ch=a[1]; TID c=T.extract(bvt(ch,32),0,8); for(uint64_t i=0;i<n;i++){ checkAccess(p+i,1,"read (memchr)"); Val v=loadBytes(p+i,1,8,K_INT); if(decide(T.cmp(T_EQ,bvt(v,8),c))) return VC(p+i); } return VC(0); }
BI(b_strchr){ uint64_t p=A(a,0); Val ch=a[1]; TID c=T.extract(bvt(ch,32),0,8); for(;;p++){ checkAccess(p,1,"read (strchr)"); TID v=bvt(loadBytes(p,1,8,K_INT),8); if(decide(T.cmp(T_EQ,v,c))) return VC(p); if(decide(T.cmp(T_EQ,v,T.bconst(8,0)))) return VC(0); } }
BI(b_malloc){ return VC(heapAlloc(A(a,0),O_HEAP)); } BI(b_calloc){ uint64_t n=A(a,0)*A(a,1); uint64_t p=heapAlloc(n,O_HEAP); memset((void*)p,0,n); return VC(p); }
BI(b_free){ heapFree(A(a,0),O_HEAP); return Val{}; }
BI(b_realloc){ uint64_t p=A(a,0),n=A(a,1); if(p&&!inArena(p)) return VC((uint64_t)realloc((void*)p,n)); uint64_t q=heapAlloc(n,O_HEAP); if(p){ Obj o=objs[granOf(p)]; memCopy(q,p,std::min(o.size,n)); heapFree(p,O_HEAP);} return VC(q); }
static uint64_t allocOrThrow(uint64_t n,ObjKind k,uint64_t al=16){ if(n>(1ull<<32)){ auto r=new ExcRec; try{ throw std::bad_alloc(); }catch(std::bad_alloc&e){ r->keep=std::current_exception(); r->ti=&typeid(std::bad_alloc); r->obj=dynamic_cast<void*>(&e); r->adjusted=r->obj; } throw IThrow{r}; } return heapAlloc(n,k,nullptr,al); }
BI(b_new){ return VC(allocOrThrow(A(a,0),O_NEW)); } BI(b_newarr){ return VC(allocOrThrow(A(a,0),O_NEWARR)); }
BI(b_newal){ return VC(allocOrThrow(A(a,0),O_NEW,A(a,1))); }
BI(b_del){ heapFree(A(a,0),O_NEW); return Val{}; } BI(b_delarr){ heapFree(A(a,0),O_NEWARR); return Val{}; }
BI(b_abort){ fail("abort","abort() called"); } BI(b_terminate){ fail("abort","std::terminate called"); }
BI(b_assert){ fail("assert",cstr(A(a,0))); } BI(b_gassert){ fail("assert","libstdc++ assertion: "+cstr(A(a,3))); }
static void finish();
BI(b_exit){ finish(); return Val{}; }
// exceptions
BI(b_exalloc){ return VC((uint64_t)abi::__cxa_allocate_exception(A(a,0))); }
BI(b_nop0){ return VC(0); }
BI(b_throw){ auto r=new ExcRec; r->obj=(void*)A(a,0); r->ti=(const std::type_info*)A(a,1); r->adjusted=r->obj; throw IThrow{r}; }
static std::vector<ExcRec*> caught;
BI(b_begin){ auto e=(ExcRec*)A(a,0); caught.push_back(e); return VC((uint64_t)e->adjusted); }
BI(b_getptr){ return VC((uint64_t)((ExcRec*)A(a,0))->adjusted); }
BI(b_endc){ if(!caught.empty()) caught.pop_back(); return Val{}; }
BI(b_rethrow){ if(caught.empty()) fail("abort","rethrow without exception"); throw IThrow{caught.back()}; }
BI(b_typeid){ int s=(int)(A(a,0)&0x3fffffff)|1; if(s==1) s=3; return VC((uint32_t)s); }
BI(b_guard){ uint64_t g=A(a,0); if(*(char*)g) return VC(0); return VC(1); } BI(b_guardr){ *(char*)A(a,0)=1; return Val{}; }
BI(b_clangterm){ fail("abort","exception escaped a noexcept function"); }
BI(b_pure){ fail("abort","pure virtual call"); }
// math
static Val math1(const char* nm,double(*f)(double),std::vector<Val>&a){ if(!a[0].t) return VD(f(D(a[0]))); return VT(T.mk(T_RUF,0,a[0].t,0,T.name(nm))); }
static Val rabs(const Val&v,bool f32){ if(!v.t) return f32?VF(fabsf(Fl(v))):VD(fabs(D(v))); return decide(T.rcmp(T_RLT,v.t,T.rconst(0)))?fromReal(T.rneg(v.t),f32):v; }
static bool f32site(Instruction* s){ return s&&s->getType()->isFloatTy(); }
BI(b_fabs){ return rabs(a[0],f32site(site)); }
static Val rpow(const Val&x,const Val&y){ if(!x.t&&!y.t) return VD(pow(D(x),D(y))); if(x.t&&!y.t){ double e=D(y); if(e==(int)e&&fabs(e)<=16){ int n=abs((int)e); TID r=T.rconst(1); for(int i=0;i<n;i++) r=T.rbin(T_RMUL,r,x.t); if(e<0) r=T.rbin(T_RDIV,T.rconst(1),r); return VT(r); } if(e==0.5) return VT(T.mk(T_RUF,0,x.t,0,T.name("sqrt"))); } return VT(T.mk(T_RUF,0,realTerm(x),realTerm(y),T.name("pow"))); }
BI(b_pow){ return rpow(a[0],a[1]); } BI(b_powi){ int n=(int)A(a,1); return rpow(a[0],VD(n)); }
#define M1(n) BI(b_##n){ if(f32site(site)){ if(a[0].t) engineError("symbolic float math"); return VF((float)n((double)Fl(a[0]))); } return math1(#n,[](double x){return (double)n(x);},a); }
M1(sqrt) M1(exp) M1(exp2) M1(log) M1(log2) M1(log10) M1(sin) M1(cos) M1(tan) M1(tanh) M1(sinh) M1(cosh) M1(atan) M1(asin) M1(acos) M1(cbrt) M1(erf)
static Val rround(const Val&v,int mode,bool f32){ // 0 floor 1 ceil 2 trunc 3 round
  if(!v.t){ double d=f32?Fl(v):D(v); double r=mode==0?floor(d):mode==1?ceil(d):mode==2?trunc(d):mode==3?round(d):nearbyint(d); return f32?VF(r):VD(r); }
  if(mode>=3) engineError("round of a symbolic double"); Val k=roundToInt(v,f32,64,true); double t=(double)(int64_t)k.c; TID tt=T.rconst(mpq_class(t)); if(mode==2) return VD(t);
  if(mode==0){ if(decide(T.rcmp(T_RLT,v.t,tt))) t-=1; } else { if(decide(T.rcmp(T_RLT,tt,v.t))) t+=1; } return VD(t); }
BI(b_floor){ return rround(a[0],0,f32site(site)); } BI(b_ceil){ return rround(a[0],1,f32site(site)); } BI(b_trunc){ return rround(a[0],2,f32site(site)); } BI(b_round){ return rround(a[0],3,f32site(site)); } BI(b_rint){ return rround(a[0],4,f32site(site)); }
BI(b_fmuladd){ TI ti=tiOf(site->getType()); return binop(Instruction::FAdd,ti,binop(Instruction::FMul,ti,a[0],a[1],site),a[2],site); }
BI(b_fmin){ bool f32=f32site(site); if(!a[0].t&&!a[1].t) return f32?VF(fminf(Fl(a[0]),Fl(a[1]))):VD(fmin(D(a[0]),D(a[1]))); return truth(fcmp(CmpInst::FCMP_OLT,f32,a[0],a[1]))?a[0]:a[1]; }
BI(b_fmax){ bool f32=f32site(site); if(!a[0].t&&!a[1].t) return f32?VF(fmaxf(Fl(a[0]),Fl(a[1]))):VD(fmax(D(a[0]),D(a[1]))); return truth(fcmp(CmpInst::FCMP_OGT,f32,a[0],a[1]))?a[0]:a[1]; }
BI(b_copysign){ if(a[0].t||a[1].t) engineError("copysign on symbolic"); return VD(copysign(D(a[0]),D(a[1]))); }
BI(b_atan2){ if(!a[0].t&&!a[1].t) return VD(atan2(D(a[0]),D(a[1]))); return VT(T.mk(T_RUF,0,realTerm(a[0]),realTerm(a[1]),T.name("atan2"))); }
BI(b_fmod){ if(!a[0].t&&!a[1].t) return VD(fmod(D(a[0]),D(a[1]))); engineError("fmod on symbolic"); }
BI(b_hypot){ if(!a[0].t&&!a[1].t) return VD(hypot(D(a[0]),D(a[1]))); TID x=realTerm(a[0]),y=realTerm(a[1]); return VT(T.mk(T_RUF,0,T.rbin(T_RADD,T.rbin(T_RMUL,x,x),T.rbin(T_RMUL,y,y)),0,T.name("sqrt"))); }
// integer intrinsics
static unsigned W(Instruction* s){ Type* t=s->getType(); if(auto st=dyn_cast<StructType>(t)) t=st->getElementType(0); if(!t->isIntegerTy()||t->getIntegerBitWidth()>64) engineError("vector integer intrinsic"); return t->getIntegerBitWidth(); }
static Val mm(std::vector<Val>&a,Instruction* s,bool sg,bool mx){ TI ti=tiOf(s->getType()); W(s); Val c=icmp(sg?CmpInst::ICMP_SLT:CmpInst::ICMP_ULT,ti,a[0],a[1]); return mx?selectVal(c,a[1],a[0],ti):selectVal(c,a[0],a[1],ti); }
BI(b_umax){ return mm(a,site,false,true);} BI(b_umin){ return mm(a,site,false,false);} BI(b_smax){ return mm(a,site,true,true);} BI(b_smin){ return mm(a,site,true,false);} 
BI(b_abs){ TI ti=tiOf(site->getType()); Val c=icmp(CmpInst::ICMP_SLT,ti,a[0],VC(0)); return selectVal(c,binop(Instruction::Sub,ti,VC(0),a[0],site),a[0],ti); }
static Val ovf(std::vector<Val>&a,Instruction* s,int op,bool sg){ unsigned w=W(s); 
  if(!a[0].t&&!a[1].t){ __int128 x=sg?(__int128)Terms::sx(a[0].c,w):(__int128)a[0].c,y=sg?(__int128)Terms::sx(a[1].c,w):(__int128)a[1].c; unsigned __int128 ux=a[0].c,uy=a[1].c; if(sg){ __int128 r=op==0?x+y:op==1?x-y:x*y; uint64_t t=(uint64_t)r&Terms::mask(w); return mkAgg({VC(t),VC((__int128)Terms::sx(t,w)!=r)}); } 
    unsigned __int128 r=op==0?ux+uy:op==1?ux-uy:ux*uy; uint64_t t=(uint64_t)r&Terms::mask(w); bool o=op==1?ux<uy:r!=(unsigned __int128)t; return mkAgg({VC(t),VC(o)}); }
  if(w>32) { a[0]=VC(conc(a[0])); a[1]=VC(conc(a[1])); return ovf(a,s,op,sg); }
  TID x=bvt(a[0],w),y=bvt(a[1],w); TID X=sg?T.sext(x,2*w):T.zext(x,2*w),Y=sg?T.sext(y,2*w):T.zext(y,2*w); TID R=T.bin(op==0?T_ADD:op==1?T_SUB:T_MUL,2*w,X,Y); TID lo=T.extract(R,0,w); TID back=sg?T.sext(lo,2*w):T.zext(lo,2*w); return mkAgg({norm(lo),norm(T.lnot(T.cmp(T_EQ,back,R)))}); }
BI(b_uaddo){return ovf(a,site,0,false);} BI(b_saddo){return ovf(a,site,0,true);} BI(b_usubo){return ovf(a,site,1,false);} BI(b_ssubo){return ovf(a,site,1,true);} BI(b_umulo){return ovf(a,site,2,false);} BI(b_smulo){return ovf(a,site,2,true);} 
BI(b_usubsat){ TI ti=tiOf(site->getType()); W(site); Val c=icmp(CmpInst::ICMP_ULT,ti,a[0],a[1]); return selectVal(c,VC(0),binop(Instruction::Sub,ti,a[0],a[1],site),ti); }
BI(b_uaddsat){ unsigned w=W(site); uint64_t x=A(a,0),y=A(a,1); unsigned __int128 r=(unsigned __int128)x+y; return VC(r>Terms::mask(w)?Terms::mask(w):(uint64_t)r); }
BI(b_ctpop){ return VC(__builtin_popcountll(A(a,0))); } BI(b_ctlz){ unsigned w=W(site); uint64_t x=A(a,0); return VC(x?__builtin_clzll(x)-(64-w):w); } BI(b_cttz){ unsigned w=W(site); uint64_t x=A(a,0); return VC(x?__builtin_ctzll(x):w); }
BI(b_bswap){ unsigned w=W(site); uint64_t x=A(a,0); return VC(__builtin_bswap64(x)>>(64-w)); }
static Val fsh(std::vector<Val>&a,Instruction*s,bool l){ unsigned w=W(s); uint64_t x=A(a,0),y=A(a,1),k=A(a,2)%w; if(l) return VC((k?(x<<k)|(y>>(w-k)):x)&Terms::mask(w)); return VC((k?(y>>k)|(x<<(w-k)):y)&Terms::mask(w)); }
BI(b_fshl){ return fsh(a,site,true);} BI(b_fshr){ return fsh(a,site,false);} 
BI(b_first){ return a[0]; } BI(b_void){ return Val{}; } BI(b_objsize){ return VC(A(a,1)?0:~0ull); } BI(b_isconst){ return VC(0); }
BI(b_trap){ fail("abort","trap"); }
BI(b_vacopy){ memCopy(A(a,0),A(a,1),24); return Val{}; }
static std::vector<uint64_t> dummyStack;
BI(b_isfpclass){ if(a[0].t){ return VC((A(a,1)&0x1f8)?1:0); } double d=site->getOperand(0)->getType()->isFloatTy()?(double)Fl(a[0]):D(a[0]); int m=A(a,1); int c; if(std::isnan(d)) c=0x3; else if(std::isinf(d)) c=d<0?4:0x200; else if(d==0) c=std::signbit(d)?0x20:0x40; else c=d<0?8|0x10:0x100|0x80; return VC((m&c)!=0); }
// printing of doubles to streams: symbolic values become tokens
static std::string tokenOf(TID t){ return "@{"+std::to_string(t)+"}"; }
static Val ostreamDouble(std::vector<Val>&a,Instruction* site,const char* nm){
  uint64_t os=A(a,0); if(a[1].t){ std::string s=tokenOf(a[1].t); *(std::ostream*)os<<s; return VC(os); }
  *(std::ostream*)os<<D(a[1]); return VC(os); }
BI(b_osd){ return ostreamDouble(a,site,"<<"); }
BI(b_osf){ uint64_t os=A(a,0); if(a[1].t){ std::string s=tokenOf(a[1].t); *(std::ostream*)os<<s; return VC(os); } *(std::ostream*)os<<Fl(a[1]); return VC(os); }
template<class I> static Val osInt(std::vector<Val>&a,unsigned w){ uint64_t os=A(a,0); std::ostream& o=*(std::ostream*)os; if(a[1].t){ o<<tokenOf(a[1].t); return VC(os);} o<<(I)a[1].c; return VC(os); }
BI(b_osi){ return osInt<int32_t>(a,32);} BI(b_osu){ return osInt<uint32_t>(a,32);} BI(b_osl){ return osInt<int64_t>(a,64);} BI(b_osm){ return osInt<uint64_t>(a,64);} BI(b_oss){ return osInt<int16_t>(a,16);} BI(b_ost){ return osInt<uint16_t>(a,16);} 
BI(b_osb){ uint64_t os=A(a,0); *(std::ostream*)os<<(bool)A(a,1); return VC(os); }
static std::string byteText(uint64_t p){ Val v=loadBytes(p,1,8,K_INT); return v.t?tokenOf(v.t):std::string(1,(char)v.c); } // symbolic character written to a file
static Val osBytes(uint64_t os,uint64_t p,uint64_t n){ std::ostream& o=*(std::ostream*)os; bool dead=(&o==&std::cout||&o==&std::cerr||&o==&std::clog); bool tofile=n&&dynamic_cast<std::ofstream*>(&o); if(n) checkAccess(p,n,"read (output)"); std::string s; s.reserve(n);
  for(uint64_t i=0;i<n;i++){ if(getShadow(p+i)){ if(dead){ s+='?'; continue; } if(tofile){ s+=byteText(p+i); continue; } uint64_t c=concretize(loadBytes(p+i,1,8,K_INT)); storeBytes(p+i,1,8,K_INT,VC(c)); s+=(char)c; } else s+=*(char*)(p+i); }
  o<<std::string_view(s); return VC(os); }
BI(b_osins){ return osBytes(A(a,0),A(a,1),A(a,2)); }
BI(b_oscstr){ std::vector<Val> q{a[1]}; Val n=b_strlen(q,site); return osBytes(A(a,0),A(a,1),n.c); }
BI(b_osstr){ uint64_t s=A(a,1); checkAccess(s,32,"read (string)"); return osBytes(A(a,0),conc(loadBytes(s,8,64,K_PTR)),conc(loadBytes(s+8,8,64,K_INT))); }
BI(s_inttok){ if(!a[0].t) return VC(0); 
  if(T.n[a[0].t].w==64&&T.n[a[0].t].op!=T_RVAR&&site&&site->getOperand(0)->getType()->isIntegerTy()){ TID big=T.lnot(T.cmp(T_ULE,a[0].t,T.bconst(64,9))); // one decimal digit: keep it as a symbolic character
    bool small=T.isC(big)?!T.n[big].c:z->check({z->trBool(big)})<0; if(small){ uint64_t p=A(a,1); checkAccess(p,2,"digit"); memFill(p,0,2); storeBytes(p,1,8,K_INT,VT(T.bin(T_ADD,8,T.extract(a[0].t,0,8),T.bconst(8,'0')))); return VC(1); } }
std::string s=tokenOf(a[0].t); uint64_t p=A(a,1); checkAccess(p,s.size()+1,"token"); memFill(p,0,s.size()+1); memcpy((void*)p,s.c_str(),s.size()+1); return VC((uint32_t)s.size()); }
static bool symStr(uint64_t p){ for(uint64_t q=p;;q++){ if(inArena(q)) checkAccess(q,1,"read (string)"); if(getShadow(q)) return true; if(!*(char*)q) return false; } }
static FnInfo* modelFn(const char* n){ Function* F=M->getFunction(n); return F&&!F->isDeclaration()?info(F):nullptr; }
BI(b_strtod){ uint64_t p=A(a,0),e=A(a,1); if(FnInfo* mf=modelFn("m_strtod")) if(symStr(p)) return execFn(mf,a,nullptr); // concretises the characters
  for(uint64_t q=p;;q++){ if(inArena(q)) checkAccess(q,1,"read (strtod)"); if(getShadow(q)){ uint64_t c=concretize(loadBytes(q,1,8,K_INT)); storeBytes(q,1,8,K_INT,VC(c)); } if(!*(char*)q) break; }
  char* end; double d=strtod((char*)p,&end); if(e){ uint64_t v=(uint64_t)end; checkAccess(e,8,"write"); storeBytes(e,8,64,K_PTR,VC(v)); } return VD(d); }
static void concStr(uint64_t p){ for(uint64_t q=p;;q++){ if(inArena(q)) checkAccess(q,1,"read (string)"); if(getShadow(q)){ uint64_t c=concretize(loadBytes(q,1,8,K_INT)); storeBytes(q,1,8,K_INT,VC(c)); } if(!*(char*)q) break; } }
BI(b_strtol){ uint64_t p=A(a,0),e=A(a,1); int b=A(a,2); if(FnInfo* mf=modelFn("m_strtol")) if(symStr(p)) return execFn(mf,a,nullptr); concStr(p); char* end; long d=strtol((char*)p,&end,b); if(e){ checkAccess(e,8,"write"); storeBytes(e,8,64,K_PTR,VC((uint64_t)end)); } return VC((uint64_t)d); }
BI(b_strtoul){ uint64_t p=A(a,0),e=A(a,1); int b=A(a,2); concStr(p); char* end; unsigned long d=strtoul((char*)p,&end,b); if(e){ checkAccess(e,8,"write"); storeBytes(e,8,64,K_PTR,VC((uint64_t)end)); } return VC((uint64_t)d); }
// ---- sym_* API
static Val input(const std::string& n,TID t,bool real,int w){ inputs.push_back({n,t,Val{},real,w}); return VT(t); }
static std::map<std::string,int> nameUse; static std::string uniq(const std::string&s){ int k=nameUse[s]++; return k?s+"~"+std::to_string(k):s; }
BI(s_double){ std::string n=uniq(cstr(A(a,0))); return input(n,T.rvar(n),true,64); }
BI(s_fresh){ std::string n=uniq("$"+cstr(A(a,0))); return VT(T.rvar(n)); }
static TID ranged(const std::string&n,unsigned w,int64_t lo,int64_t hi){ TID t=T.bvar(n,w); assertTerm(T.cmp(T_SLE,T.bconst(w,lo),t)); assertTerm(T.cmp(T_SLE,t,T.bconst(w,hi))); return t; }
BI(s_int){ std::string n=uniq(cstr(A(a,0))); int64_t lo=Terms::sx(A(a,1),32),hi=Terms::sx(A(a,2),32); TID t=ranged(n,32,lo,hi); return input(n,t,false,32); }
BI(s_choose){ Val v=s_int(a,site); return VC(concretize(v)); }
BI(s_char){ std::string n=uniq(cstr(A(a,0))); std::string set=cstr(A(a,1)); TID t=T.bvar(n,8); TID any=T.bconst(1,0); for(unsigned char ch:set) any=T.bin(T_OR,1,any,T.cmp(T_EQ,t,T.bconst(8,ch))); assertTerm(any); return input(n,t,false,8); }
BI(s_assume){ Val c=a[0]; if(!c.t){ if(!(c.c&0xffffffff)) { SH->infeasible++; if(inRank) rankEnd(E_ABORT); endPath(); } return Val{}; } TID b=T.lnot(T.cmp(T_EQ,c.t,T.bconst(T.n[c.t].w,0))); 
  if(T.isC(b)){ if(!T.n[b].c){ SH->infeasible++; endPath(); } return Val{}; }
  assertTerm(b); if(z->check({})<0){ SH->infeasible++; endPath(); } return Val{}; }
BI(s_check){ Val c=a[0]; std::string msg=cstr(A(a,1)); 
  if(!c.t){ if(!(c.c&0xffffffff)) { Val dummy; SH->obligations++; int r=z->check({}); if(r<0){ SH->infeasible++; if(inRank) rankEnd(E_ABORT); endPath(); } Z3_model m=r>0?Z3_solver_get_model(z->c,z->s):nullptr; if(m) Z3_model_inc_ref(z->c,m); reportFail("check",msg,modelJson(m)); if(SH->stop){ if(inRank) rankEnd(E_FAIL); quit(); } return Val{}; } SH->obligations++; SH->trivial++; return Val{}; }
  SH->obligations++; TID b=T.lnot(T.cmp(T_EQ,c.t,T.bconst(T.n[c.t].w,0))); 
  if(T.isC(b)){ if(T.n[b].c){ SH->trivial++; return Val{}; } a[0]=VC(0); return s_check(a,site); }
  Z3_ast nb=z->keep(Z3_mk_not(z->c,z->trBool(b))); int r=z->check({nb}); if(r<0){ return Val{}; } if(r==0) engineError("solver unknown on: "+msg);
  Z3_model m=Z3_solver_get_model(z->c,z->s); Z3_model_inc_ref(z->c,m); reportFail("check",msg,modelJson(m)); if(SH->stop){ if(inRank) rankEnd(E_FAIL); quit(); }
  assertTerm(b); if(z->check({})<0) { if(inRank) rankEnd(E_FAIL); endPath(); } return Val{}; }
static bool closeD(double x,double y){ if(x==y) return true; if(std::isnan(x)||std::isnan(y)) return false; return fabs(x-y)<=1e-9*std::max(1.0,std::max(fabs(x),fabs(y))); }
BI(s_check_eq){ std::string msg=cstr(A(a,2)); 
  if(!a[0].t&&!a[1].t){ SH->obligations++; SH->trivial++; if(!closeD(D(a[0]),D(a[1]))){ char b[128]; snprintf(b,128," | got %.17g | want %.17g",D(a[0]),D(a[1])); std::vector<Val> q{VC(0),a[2]}; SH->obligations--; SH->trivial--; int r=z->check({}); if(r<0){ SH->infeasible++; endPath(); } Z3_model m=r>0?Z3_solver_get_model(z->c,z->s):nullptr; if(m) Z3_model_inc_ref(z->c,m); SH->obligations++; reportFail("equality",msg+b,modelJson(m)); if(SH->stop){ if(inRank) rankEnd(E_FAIL); quit(); } } return Val{}; }
  auto nonfin=[&](const Val&v){ return !v.t&&!std::isfinite(D(v)); }; if(nonfin(a[0])||nonfin(a[1])) fail("equality",msg+" | non-finite value");
  eqs.push_back({realTerm(a[0]),realTerm(a[1]),msg,""}); if(eqs.size()>=4096) flushEqs(); return Val{}; }
BI(s_assume_eq){ assumedEqs.push_back({realTerm(a[0]),realTerm(a[1])}); return Val{}; }
// exact rational solve: B := inv(op(A)) B when every entry of the n x n column-major A is a constant; 1 solved, 0 not constant, -1 singular
BI(s_exactsolve){ uint64_t pa=A(a,0),pb=A(a,2); int n=A(a,1),nrhs=A(a,3),ldb=A(a,4),tr=A(a,5); std::vector<mpq_class> W((size_t)n*n),I((size_t)n*n);
  if(!n) return VC(1); checkAccess(pa,(uint64_t)n*n*8,"read");
  for(int i=0;i<n;i++) for(int j=0;j<n;j++){ TID t=realTerm(loadBytes(pa+8*((uint64_t)(tr?j:i)+(uint64_t)(tr?i:j)*n),8,64,K_F64)); if(!T.isRC(t)){ const Poly&p=P.of(t); if(p.empty()) continue; if(p.size()==1&&p.begin()->first.empty()){ W[i*n+j]=p.begin()->second; continue; } return VC(0); } W[i*n+j]=T.rval(t); }
  for(int i=0;i<n;i++) I[i*n+i]=1;
  for(int c=0;c<n;c++){ int p=c; while(p<n&&W[p*n+c]==0) p++; if(p==n) return VC((uint32_t)-1); if(p!=c) for(int j=0;j<n;j++){ std::swap(W[p*n+j],W[c*n+j]); std::swap(I[p*n+j],I[c*n+j]); }
    mpq_class f=1/W[c*n+c]; for(int j=0;j<n;j++){ if(W[c*n+j]!=0) W[c*n+j]*=f; if(I[c*n+j]!=0) I[c*n+j]*=f; }
    for(int i=0;i<n;i++) if(i!=c&&W[i*n+c]!=0){ mpq_class g=W[i*n+c]; for(int j=0;j<n;j++){ if(W[c*n+j]!=0) W[i*n+j]-=g*W[c*n+j]; if(I[c*n+j]!=0) I[i*n+j]-=g*I[c*n+j]; } } }
  for(int k=0;k<nrhs;k++){ std::vector<TID> b(n); for(int i=0;i<n;i++){ uint64_t q=pb+8*((uint64_t)i+(uint64_t)k*ldb); checkAccess(q,8,"read"); b[i]=realTerm(loadBytes(q,8,64,K_F64)); }
    for(int i=0;i<n;i++){ TID s=T.rconst(0); for(int j=0;j<n;j++) if(I[i*n+j]!=0) s=T.rbin(T_RADD,s,T.rbin(T_RMUL,T.rconst(I[i*n+j]),b[j])); uint64_t q=pb+8*((uint64_t)i+(uint64_t)k*ldb); storeBytes(q,8,64,K_F64,fromReal(s,false)); } }
  return VC(1); }
BI(s_reach){ std::string l=cstr(A(a,0)); static std::set<std::string> seen; if(seen.insert(l).second) emit("{\"kind\":\"reach\",\"label\":\""+esc(l)+"\"}"); return Val{}; }
BI(s_note){ notes.push_back({cstr(A(a,0)),std::to_string((int64_t)A(a,1))}); return Val{}; }
BI(s_notes){ notes.push_back({cstr(A(a,0)),cstr(A(a,1))}); return Val{}; }
BI(s_symbyte){ uint64_t p=A(a,0); if(inArena(p)) checkAccess(p,1,"read"); return VC(getShadow(p)!=0); }
BI(s_split){ return VC(conc(a[0])); }
BI(s_issym){ return VC(a[0].t!=0); }
BI(s_token){ uint64_t p=A(a,1); std::string s; if(a[0].t) s=tokenOf(a[0].t); else { std::ostringstream o; o<<D(a[0]); s=o.str(); } checkAccess(p,s.size()+1,"token"); memFill(p,0,s.size()+1); memcpy((void*)p,s.c_str(),s.size()+1); return VC(s.size()); }
BI(s_render){ uint64_t p=A(a,0),n=A(a,1),o=A(a,2); std::string s; if(n) checkAccess(p,n,"read"); for(uint64_t i=0;i<n;i++) s+=getShadow(p+i)?byteText(p+i):std::string(1,*(char*)(p+i)); checkAccess(o,s.size()+1,"render"); memFill(o,0,s.size()+1); memcpy((void*)o,s.c_str(),s.size()+1); return VC(s.size()); }
BI(s_owndir){ static int k=0; char b[64]; snprintf(b,64,"%s/d%d.%d",getenv("SYM_WORKDIR")?getenv("SYM_WORKDIR"):".",(int)getpid(),k++); mkdir(b,0777); if(chdir(b)) engineError("chdir"); return Val{}; }
BI(s_fail){ fail("check",cstr(A(a,0))); }
BI(s_flush){ flushEqs(); return Val{}; }
BI(s_mpisync){ extern bool mpiSync; mpiSync=true; return Val(); }
BI(s_ranks){ flushEqs(); int n=A(a,0); return VC((uint32_t)rankFork(n)); }
BI(s_native){ return VC(0); }
BI(s_live){ uint64_t p=A(a,0); if(!inArena(p)) return VC(1); uint32_t id=granOf(p); return VC(id&&objs[id].live); }
static void initBuiltins(){
  auto&b=builtins;
  b["memcpy"]=b["memmove"]=b_memcpy; b["memset"]=b_memset; b["memcmp"]=b["bcmp"]=b_memcmp; b["strlen"]=b_strlen; b["strcmp"]=b_strcmp; b["strncmp"]=b_strncmp; b["memchr"]=b_memchr; b["strchr"]=b_strchr;
  b["malloc"]=b_malloc; b["calloc"]=b_calloc; b["free"]=b_free; b["realloc"]=b_realloc;
  b["_Znwm"]=b["_ZnwmRKSt9nothrow_t"]=b_new; b["_Znam"]=b["_ZnamRKSt9nothrow_t"]=b_newarr; b["_ZnwmSt11align_val_t"]=b_newal;
  b["_ZdlPv"]=b["_ZdlPvm"]=b["_ZdlPvSt11align_val_t"]=b["_ZdlPvmSt11align_val_t"]=b_del; b["_ZdaPv"]=b["_ZdaPvm"]=b_delarr;
  b["abort"]=b_abort; b["_ZSt9terminatev"]=b_terminate; b["__assert_fail"]=b_assert; b["_ZSt21__glibcxx_assert_failPKciS0_S0_"]=b_gassert; b["exit"]=b["_exit"]=b_exit; b["__cxa_pure_virtual"]=b_pure; b["__clang_call_terminate"]=b_clangterm;
  b["__cxa_allocate_exception"]=b_exalloc; b["__cxa_free_exception"]=b_nop0; b["__cxa_throw"]=b_throw; b["__cxa_begin_catch"]=b_begin; b["__cxa_end_catch"]=b_endc; b["__cxa_rethrow"]=b_rethrow; b["__cxa_get_exception_ptr"]=b_getptr; b["__cxa_atexit"]=b_nop0; b["atexit"]=b_nop0; b["__cxa_thread_atexit"]=b_nop0; b["__cxa_guard_acquire"]=b_guard; b["__cxa_guard_release"]=b_guardr; b["__cxa_guard_abort"]=b_nop0;
  struct { const char*n; Builtin f; } m[]={{"fabs",b_fabs},{"pow",b_pow},{"sqrt",b_sqrt},{"exp",b_exp},{"exp2",b_exp2},{"log",b_log},{"log2",b_log2},{"log10",b_log10},{"sin",b_sin},{"cos",b_cos},{"tan",b_tan},{"tanh",b_tanh},{"sinh",b_sinh},{"cosh",b_cosh},{"atan",b_atan},{"asin",b_asin},{"acos",b_acos},{"cbrt",b_cbrt},{"erf",b_erf},{"floor",b_floor},{"ceil",b_ceil},{"trunc",b_trunc},{"round",b_round},{"fmin",b_fmin},{"fmax",b_fmax},{"copysign",b_copysign},{"atan2",b_atan2},{"fmod",b_fmod},{"hypot",b_hypot},{"fma",b_fmuladd},{"rint",b_rint},{"nearbyint",b_rint}};
  for(auto&x:m){ b[x.n]=x.f; b[std::string("llvm.")+x.n]=x.f; }
  b["llvm.memcpy"]=b["llvm.memmove"]=b["llvm.memcpy.inline"]=b_memcpy; b["llvm.memset"]=b["llvm.memset.inline"]=b_memset; b["llvm.powi"]=b_powi; b["llvm.fmuladd"]=b_fmuladd; b["llvm.minnum"]=b["llvm.minimum"]=b_fmin; b["llvm.maxnum"]=b["llvm.maximum"]=b_fmax;
  b["llvm.umax"]=b_umax; b["llvm.umin"]=b_umin; b["llvm.smax"]=b_smax; b["llvm.smin"]=b_smin; b["llvm.abs"]=b_abs; b["llvm.uadd.with.overflow"]=b_uaddo; b["llvm.sadd.with.overflow"]=b_saddo; b["llvm.usub.with.overflow"]=b_usubo; b["llvm.ssub.with.overflow"]=b_ssubo; b["llvm.umul.with.overflow"]=b_umulo; b["llvm.smul.with.overflow"]=b_smulo; b["llvm.usub.sat"]=b_usubsat; b["llvm.uadd.sat"]=b_uaddsat; b["llvm.ctpop"]=b_ctpop; b["llvm.ctlz"]=b_ctlz; b["llvm.cttz"]=b_cttz; b["llvm.bswap"]=b_bswap; b["llvm.fshl"]=b_fshl; b["llvm.fshr"]=b_fshr;
  b["llvm.expect"]=b["llvm.threadlocal.address"]=b["llvm.launder.invariant.group"]=b["llvm.strip.invariant.group"]=b["llvm.ssa.copy"]=b_first; b["llvm.objectsize"]=b_objsize; b["llvm.is.constant"]=b_isconst; b["llvm.stacksave"]=b_nop0; b["llvm.stackrestore"]=b["llvm.va_end"]=b["llvm.prefetch"]=b["llvm.invariant.start"]=b["llvm.invariant.end"]=b["llvm.donothing"]=b["llvm.assume"]=b_void; b["llvm.eh.typeid.for"]=b_typeid; b["llvm.trap"]=b["llvm.ubsantrap"]=b_trap; b["llvm.va_copy"]=b_vacopy; b["llvm.is.fpclass"]=b_isfpclass;
  b["_ZNSo9_M_insertIdEERSoT_"]=b["_ZNSolsEd"]=b_osd; b["_ZNSolsEf"]=b_osf; b["strtod"]=b["__isoc23_strtod"]=b_strtod; b["strtol"]=b["strtoll"]=b["__isoc23_strtol"]=b["__isoc23_strtoll"]=b_strtol; b["strtoul"]=b["strtoull"]=b["__isoc23_strtoul"]=b["__isoc23_strtoull"]=b_strtoul;
  b["_ZNSolsEi"]=b_osi; b["_ZNSolsEj"]=b_osu; b["_ZNSolsEl"]=b["_ZNSolsEx"]=b["_ZNSo9_M_insertIlEERSoT_"]=b["_ZNSo9_M_insertIxEERSoT_"]=b_osl; b["_ZNSolsEm"]=b["_ZNSolsEy"]=b["_ZNSo9_M_insertImEERSoT_"]=b["_ZNSo9_M_insertIyEERSoT_"]=b_osm; b["_ZNSolsEs"]=b_oss; b["_ZNSolsEt"]=b_ost; b["_ZNSolsEb"]=b["_ZNSo9_M_insertIbEERSoT_"]=b_osb;
  b["_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"]=b_osins; b["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"]=b_oscstr; b["_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"]=b_osstr;
  b["efsym_int_token"]=s_inttok; b["efsym_real_token"]=s_inttok;
  b["sym_exact_solve"]=s_exactsolve; b["sym_render"]=s_render; b["sym_own_dir"]=s_owndir; b["sym_double"]=s_double; b["sym_fresh"]=s_fresh; b["sym_int"]=s_int; b["sym_choose"]=s_choose; b["sym_char"]=s_char; b["sym_assume"]=s_assume; b["sym_check"]=s_check; b["sym_check_eq"]=s_check_eq; b["sym_assume_eq"]=s_assume_eq; b["sym_reach"]=s_reach; b["sym_note"]=s_note; b["sym_note_s"]=s_notes; b["sym_is_symbolic"]=s_issym; b["sym_token"]=s_token; b["sym_fail"]=s_fail; b["sym_flush"]=s_flush; b["sym_ranks"]=s_ranks; b["sym_mpi_sync"]=s_mpisync; b["sym_native"]=s_native; b["sym_live"]=s_live; b["sym_is_symbolic_byte"]=s_symbyte; b["sym_split"]=s_split; }
static void bindIntrinsics(){ for(auto&F:*M) if(F.isDeclaration()&&F.getName().starts_with("llvm.")){ FnInfo* f=info(&F); f->bChecked=true; std::string n=f->name; auto it=builtins.find(n); while(it==builtins.end()){ auto p=n.rfind('.'); if(p==std::string::npos||p<=4) break; n=n.substr(0,p); it=builtins.find(n); } if(it!=builtins.end()) f->b=it->second; } }
