// ---------------------------------------------------------------- decoding
static FnInfo* info(Function* F){ auto it=fnOf.find(F); if(it!=fnOf.end()) return it->second; FnInfo* f=new FnInfo; f->F=F; f->name=F->getName().str(); f->id=fns.size(); fns.push_back(f); fnOf[F]=f; return f; }
static TI tiOf(Type* t){ TI r{K_OTHER,0,0,t}; switch(t->getTypeID()){ case Type::VoidTyID: r.k=K_VOID; break; case Type::IntegerTyID: { unsigned b=t->getIntegerBitWidth(); if(b<=64){ r.k=K_INT; r.bits=b; r.bytes=(b+7)/8; } break; }
  case Type::PointerTyID: r.k=K_PTR; r.bits=64; r.bytes=8; break; case Type::DoubleTyID: r.k=K_F64; r.bits=64; r.bytes=8; break; case Type::FloatTyID: r.k=K_F32; r.bits=32; r.bytes=4; break;
  case Type::StructTyID: case Type::ArrayTyID: case Type::FixedVectorTyID: r.k=K_AGG; break; default: break; } return r; }
static void thunkHandler(ffi_cif* cif,void* ret,void** args,void* user);
static ffi_type* ffiOf(Type* t){ switch(t->getTypeID()){ case Type::VoidTyID: return &ffi_type_void; case Type::DoubleTyID: return &ffi_type_double; case Type::FloatTyID: return &ffi_type_float; case Type::X86_FP80TyID: return &ffi_type_longdouble; case Type::PointerTyID: return &ffi_type_pointer;
  case Type::IntegerTyID: { unsigned b=t->getIntegerBitWidth(); return b<=8?&ffi_type_uint8:b<=16?&ffi_type_uint16:b<=32?&ffi_type_uint32:&ffi_type_uint64; }
  case Type::StructTyID: { auto st=cast<StructType>(t); ffi_type* f=new ffi_type; f->size=f->alignment=0; f->type=FFI_TYPE_STRUCT; f->elements=new ffi_type*[st->getNumElements()+1]; for(unsigned i=0;i<st->getNumElements();i++) f->elements[i]=ffiOf(st->getElementType(i)); f->elements[st->getNumElements()]=nullptr; return f; }
  default: engineError("ffi type"); } }
static ffi_cif* cifOf(Type* ret,const std::vector<Type*>& ats,unsigned nfixed,bool va){ ffi_cif* c=new ffi_cif; ffi_type** a=new ffi_type*[ats.size()+1]; for(size_t i=0;i<ats.size();i++) a[i]=ffiOf(ats[i]); 
  if(va) ffi_prep_cif_var(c,FFI_DEFAULT_ABI,nfixed,ats.size(),ffiOf(ret),a); else ffi_prep_cif(c,FFI_DEFAULT_ABI,ats.size(),ffiOf(ret),a); return c; }
static Builtin builtinOf(FnInfo* f){ if(!f->bChecked){ f->bChecked=true; auto it=builtins.find(f->name); if(it!=builtins.end()) f->b=it->second; } return f->b; }
static uint64_t fnAddress(Function* F){ FnInfo* f=info(F); if(f->thunk) return f->thunk;
  if(F->isDeclaration()&&!builtinOf(f)){ void* p=dlsym(RTLD_DEFAULT,f->name.c_str()); if(p) { f->thunk=(uint64_t)p; return f->thunk; } if(F->hasExternalWeakLinkage()) return 0; }
  std::vector<Type*> ats; for(auto t:F->getFunctionType()->params()) ats.push_back(t);
  void* code=nullptr; ffi_closure* cl=(ffi_closure*)ffi_closure_alloc(sizeof(ffi_closure),&code); if(!cl) engineError("closure alloc");
  bool okT=true; for(auto t:ats) if(!(t->isIntegerTy()||t->isPointerTy()||t->isDoubleTy()||t->isFloatTy())) okT=false; Type* rt=F->getReturnType(); if(!(rt->isVoidTy()||rt->isIntegerTy()||rt->isPointerTy()||rt->isDoubleTy()||rt->isFloatTy()||rt->isStructTy())) okT=false;
  if(okT){ ffi_cif* cif=cifOf(rt,ats,0,false); ffi_prep_closure_loc(cl,cif,thunkHandler,f,code); }
  f->thunk=(uint64_t)code; byAddr[f->thunk]=f; return f->thunk; }
static uint64_t globalAddress(const GlobalVariable* g){ auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second; 
  if(!g->isDeclaration()) engineError("unallocated global"); void* p=dlsym(RTLD_DEFAULT,g->getName().str().c_str()); if(!p){ if(g->hasExternalWeakLinkage()) { gaddr[g]=0; return 0; } 
    uint64_t a=heapAlloc(16,O_GLOBAL,"unresolved"); gaddr[g]=a; if(verbose) fprintf(stderr,"efsym: unresolved data symbol %s\n",g->getName().str().c_str()); return a; }
  gaddr[g]=(uint64_t)p; return (uint64_t)p; }
static Val constVal(const Constant* c);
static int64_t gepConstOffset(const GEPOperator* g){ APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) engineError("non-constant GEP constant"); return off.getSExtValue(); }
static Val constVal(const Constant* c){
  if(auto ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ if(ci->getBitWidth()<=128) { std::vector<Val> v{VC(ci->getValue().extractBitsAsZExtValue(64,0)),VC(ci->getValue().extractBitsAsZExtValue(ci->getBitWidth()-64,64))}; return mkAgg(v);} engineError("wide integer constant"); } return VC(ci->getZExtValue()); }
  if(auto cf=dyn_cast<ConstantFP>(c)){ if(c->getType()->isDoubleTy()||c->getType()->isFloatTy()) return VC(cf->getValueAPF().bitcastToAPInt().getZExtValue()); return VC(0); }
  if(isa<ConstantPointerNull>(c)) return VC(0);
  if(auto f=dyn_cast<Function>(c)) return VC(fnAddress(const_cast<Function*>(f)));
  if(auto g=dyn_cast<GlobalVariable>(c)) return VC(globalAddress(g));
  if(auto a=dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ Type* t=c->getType(); if(t->isStructTy()||t->isArrayTy()||isa<FixedVectorType>(t)){ std::vector<Val> v; unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); 
      for(unsigned i=0;i<n;i++){ Type* et=t->isStructTy()?t->getStructElementType(i):t->isArrayTy()?t->getArrayElementType():cast<FixedVectorType>(t)->getElementType(); v.push_back(constVal(isa<UndefValue>(c)?(const Constant*)UndefValue::get(et):Constant::getNullValue(et))); } return mkAgg(v); } 
    if(t->isIntegerTy()&&t->getIntegerBitWidth()>64) return mkAgg({VC(0),VC(0)}); return VC(0); }
  if(auto ca=dyn_cast<ConstantAggregate>(c)){ std::vector<Val> v; for(unsigned i=0;i<ca->getNumOperands();i++) v.push_back(constVal(ca->getOperand(i))); return mkAgg(v); }
  if(auto cd=dyn_cast<ConstantDataSequential>(c)){ std::vector<Val> v; for(unsigned i=0;i<cd->getNumElements();i++) v.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(v); }
  if(auto ce=dyn_cast<ConstantExpr>(c)){ switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { Val b=constVal(ce->getOperand(0)); return VC(b.c+gepConstOffset(cast<GEPOperator>(ce))); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v=constVal(ce->getOperand(0)); if(ce->getType()->isIntegerTy()) v.c&=Terms::mask(ce->getType()->getIntegerBitWidth()); return v; }
      case Instruction::Add: return VC(constVal(ce->getOperand(0)).c+constVal(ce->getOperand(1)).c);
      case Instruction::Sub: { unsigned w=ce->getType()->getIntegerBitWidth(); return VC((constVal(ce->getOperand(0)).c-constVal(ce->getOperand(1)).c)&Terms::mask(w)); }
      case Instruction::Trunc: return VC(constVal(ce->getOperand(0)).c&Terms::mask(ce->getType()->getIntegerBitWidth()));
      case Instruction::ICmp: { uint64_t x=constVal(ce->getOperand(0)).c,y=constVal(ce->getOperand(1)).c; switch(ce->getPredicate()){ case CmpInst::ICMP_EQ:return VC(x==y); case CmpInst::ICMP_NE:return VC(x!=y); case CmpInst::ICMP_ULT:return VC(x<y); case CmpInst::ICMP_UGT:return VC(x>y); default:break;} break; }
      default: break; }
    std::string s; raw_string_ostream o(s); ce->print(o); engineError("constant expression: "+s); }
  if(isa<ConstantTokenNone>(c)) return VC(0);
  std::string s; raw_string_ostream o(s); c->print(o); engineError("constant: "+s.substr(0,200)); }
static void initMem(uint64_t a,const Constant* c){
  Type* t=c->getType(); if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)){ memset((void*)a,0,DL->getTypeAllocSize(t)); return; }
  if(auto st=dyn_cast<StructType>(t)){ auto l=DL->getStructLayout(st); auto ca=cast<ConstantAggregate>(c); for(unsigned i=0;i<ca->getNumOperands();i++) initMem(a+l->getElementOffset(i),ca->getOperand(i)); return; }
  if(auto cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy((void*)a,r.data(),r.size()); return; }
  if(t->isArrayTy()){ auto ca=cast<ConstantAggregate>(c); uint64_t es=DL->getTypeAllocSize(t->getArrayElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initMem(a+i*es,ca->getOperand(i)); return; }
  if(auto cf=dyn_cast<ConstantFP>(c)){ auto b=cf->getValueAPF().bitcastToAPInt(); memcpy((void*)a,b.getRawData(),DL->getTypeStoreSize(t)); return; }
  if(auto ci=dyn_cast<ConstantInt>(c)) if(ci->getBitWidth()>64){ memcpy((void*)a,ci->getValue().getRawData(),DL->getTypeStoreSize(t)); return; }
  Val v=constVal(c); memcpy((void*)a,&v.c,DL->getTypeStoreSize(t)); }

static void decode(FnInfo* f){
  if(f->decoded) return; f->decoded=true; Function* F=f->F; DenseMap<const Value*,uint32_t> slot; uint32_t n=0;
  for(auto&a:F->args()) slot[&a]=n++;
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=n++;
  f->nslots=n;
  auto op=[&](const Value* v){ Opnd o{0,false,{}}; if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)){ o.isC=true; return o; } if(auto c=dyn_cast<Constant>(v)){ o.isC=true; o.v=constVal(c); } else { o.slot=slot[v]; } return o; };
  for(auto&B:*F){ f->bidx[&B]=f->blocks.size(); f->blocks.push_back({0,&B,0}); }
  for(auto&bl:f->blocks){ bl.start=f->code.size();
    for(auto&I:*bl.bb){ Inst in; in.opc=I.getOpcode(); in.I=&I; in.ti=tiOf(I.getType()); if(!I.getType()->isVoidTy()) in.dst=slot[&I];
      if(isa<PHINode>(&I)){ bl.nphi++; auto p=cast<PHINode>(&I); for(unsigned i=0;i<p->getNumIncomingValues();i++){ in.ops.push_back(op(p->getIncomingValue(i))); in.idx.push_back(f->bidx[p->getIncomingBlock(i)]); } f->code.push_back(std::move(in)); continue; }
      switch(I.getOpcode()){
        case Instruction::Br: { auto b=cast<BranchInst>(&I); if(b->isConditional()){ in.ops.push_back(op(b->getCondition())); in.bb0=f->bidx[b->getSuccessor(0)]; in.bb1=f->bidx[b->getSuccessor(1)]; } else in.bb0=f->bidx[b->getSuccessor(0)]; break; }
        case Instruction::Switch: { auto s=cast<SwitchInst>(&I); in.ops.push_back(op(s->getCondition())); in.bb0=f->bidx[s->getDefaultDest()]; in.ti2=tiOf(s->getCondition()->getType()); for(auto&cs:s->cases()){ in.ops.push_back(op(cs.getCaseValue())); in.idx.push_back(f->bidx[cs.getCaseSuccessor()]); } break; }
        case Instruction::Call: case Instruction::Invoke: { auto c=cast<CallBase>(&I); if(auto fn=c->getCalledFunction()) { if(fn->isIntrinsic()&&(fn->getName().starts_with("llvm.dbg")||fn->getName().starts_with("llvm.lifetime")||fn->getName().starts_with("llvm.assume")||fn->getName().starts_with("llvm.experimental.noalias"))) continue; in.callee=info(fn); in.callee->F=fn; }
            else if(auto al=dyn_cast<GlobalAlias>(c->getCalledOperand())){ if(auto fn=dyn_cast<Function>(al->getAliasee()->stripPointerCasts())) in.callee=info(fn); }
            for(auto&a:c->args()) in.ops.push_back(op(a)); if(!in.callee) in.ops.push_back(op(c->getCalledOperand()));
            if(auto iv=dyn_cast<InvokeInst>(&I)){ in.bb0=f->bidx[iv->getNormalDest()]; in.bb1=f->bidx[iv->getUnwindDest()]; } break; }
        case Instruction::GetElementPtr: { auto g=cast<GetElementPtrInst>(&I); in.ops.push_back(op(g->getPointerOperand())); 
            for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value* ix=it.getOperand(); if(auto st=it.getStructTypeOrNull()){ in.k+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
              else { int64_t str=DL->getTypeAllocSize(it.getIndexedType()); if(auto ci=dyn_cast<ConstantInt>(ix)) in.k+=str*ci->getSExtValue(); else { in.steps.push_back({(uint32_t)in.ops.size(),str}); in.ops.push_back(op(ix)); in.idx.push_back(ix->getType()->getIntegerBitWidth()); } } } break; }
        case Instruction::ExtractValue: in.ops.push_back(op(I.getOperand(0))); for(auto x:cast<ExtractValueInst>(&I)->indices()) in.idx.push_back(x); break;
        case Instruction::InsertValue: in.ops.push_back(op(I.getOperand(0))); in.ops.push_back(op(I.getOperand(1))); for(auto x:cast<InsertValueInst>(&I)->indices()) in.idx.push_back(x); break;
        case Instruction::LandingPad: break;
        default: for(auto&o:I.operands()) in.ops.push_back(op(o)); if(I.getNumOperands()) in.ti2=tiOf(I.getOperand(0)->getType()); }
      if(auto ci=dyn_cast<CmpInst>(&I)) in.pred=ci->getPredicate();
      if(I.getOpcode()==Instruction::Alloca){ auto a=cast<AllocaInst>(&I); in.k=DL->getTypeAllocSize(a->getAllocatedType()); in.bb0=a->getAlign().value(); }
      f->code.push_back(std::move(in)); } } }

// ---------------------------------------------------------------- stack
static uint64_t stackTop=STACK0+4096;
static uint64_t stackAlloc(uint64_t size,uint64_t align,const char* nm){ if(align<16) align=16; uint64_t a=(stackTop+align-1)&~(align-1); uint64_t sz=((size?size:1)+15)&~15ull; stackTop=a+sz+16; if(stackTop>STACK0+STACK_SZ) fail("memory","stack overflow"); 
  uint32_t id=objs.size(); objs.push_back({a,size,O_STACK,true,nm}); for(uint64_t p=a;p<a+sz;p+=16) granOf(p)=id; memset((void*)a,0xCB,size); return a; }
struct StackMark { uint64_t top; StackMark():top(stackTop){} ~StackMark(){ for(uint64_t p=top&~15ull;p<stackTop;){ uint32_t id=granOf(p); if(id&&objs[id].kind==O_STACK&&objs[id].live){ Obj&o=objs[id]; o.live=false; uint64_t e=o.base+((o.size+15)&~15ull); if(anySym(o.base,o.size)) memset(shadowOf(o.base),0,o.size*4); p=e>p?e:p+16; } else p+=16; } stackTop=top; } };

// ---------------------------------------------------------------- aggregates in memory
static Val loadType(uint64_t a,Type* t){ TI ti=tiOf(t); if(ti.k==K_AGG){ std::vector<Val> v; if(auto st=dyn_cast<StructType>(t)){ auto l=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) v.push_back(loadType(a+l->getElementOffset(i),st->getElementType(i))); }
    else { Type* et=t->isArrayTy()?t->getArrayElementType():cast<FixedVectorType>(t)->getElementType(); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); uint64_t es=DL->getTypeAllocSize(et); for(unsigned i=0;i<n;i++) v.push_back(loadType(a+i*es,et)); } return mkAgg(v); }
  if(ti.k==K_OTHER){ if(t->isIntegerTy()&&t->getIntegerBitWidth()==128) return mkAgg({loadBytes(a,8,64,K_INT),loadBytes(a+8,8,64,K_INT)}); engineError("load of unsupported type"); }
  return loadBytes(a,ti.bytes,ti.bits,ti.k); }
static void storeType(uint64_t a,Type* t,const Val&v){ TI ti=tiOf(t); if(ti.k==K_AGG){ auto vs=aggs[v.agg]; if(auto st=dyn_cast<StructType>(t)){ auto l=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) storeType(a+l->getElementOffset(i),st->getElementType(i),vs[i]); }
    else { Type* et=t->isArrayTy()?t->getArrayElementType():cast<FixedVectorType>(t)->getElementType(); uint64_t es=DL->getTypeAllocSize(et); for(size_t i=0;i<vs.size();i++) storeType(a+i*es,et,vs[i]); } return; }
  if(ti.k==K_OTHER){ if(t->isIntegerTy()&&t->getIntegerBitWidth()==128){ storeBytes(a,8,64,K_INT,aggs[v.agg][0]); storeBytes(a+8,8,64,K_INT,aggs[v.agg][1]); return; } engineError("store of unsupported type"); }
  storeBytes(a,ti.bytes,ti.bits,ti.k,v); }

// ---------------------------------------------------------------- calls
static Val execFn(FnInfo* f,std::vector<Val>& args,CallBase* site);
static Val callNative(void* p,const std::string& name,Type* rt,const std::vector<Type*>& ats,unsigned nfixed,bool va,std::vector<Val>& a,CallBase* site);
static Val callFn(FnInfo* f,std::vector<Val>& args,CallBase* site);
static void thunkHandler(ffi_cif* cif,void* ret,void** args,void* user){
  FnInfo* f=(FnInfo*)user; std::vector<Val> a; Function* F=f->F; unsigned i=0;
  for(auto t:F->getFunctionType()->params()){ uint64_t x=0; TI ti=tiOf(t); memcpy(&x,args[i++],ti.bytes); a.push_back(VC(x)); }
  Val r=callFn(f,a,nullptr); Type* rt=F->getReturnType(); if(rt->isVoidTy()) return;
  if(rt->isStructTy()){ auto st=cast<StructType>(rt); auto l=DL->getStructLayout(st); for(unsigned k=0;k<st->getNumElements();k++){ uint64_t x=conc(aggs[r.agg][k]); memcpy((char*)ret+l->getElementOffset(k),&x,DL->getTypeStoreSize(st->getElementType(k))); } return; }
  if(r.t&&T.isR(r.t)) engineError("symbolic double returned to native code from "+f->name);
  uint64_t x=conc(r); if(rt->isIntegerTy()) { *(ffi_arg*)ret=x; } else memcpy(ret,&x,rt->isFloatTy()?4:8); }
static std::unordered_map<const void*,ffi_cif*> cifCache;
static std::set<std::string> nativeOk;
static Val callNative(void* p,const std::string& name,Type* rt,const std::vector<Type*>& ats,unsigned nfixed,bool va,std::vector<Val>& a,CallBase* site){
  size_t n=a.size(); std::vector<uint64_t> store(n); std::vector<void*> ptrs(n); std::vector<std::array<char,16>> big(n);
  for(size_t i=0;i<n;i++){ if(a[i].agg) engineError("aggregate passed to native function "+name); if(a[i].t&&T.isR(a[i].t)) engineError("symbolic double passed to native function "+name); store[i]=conc(a[i]); ptrs[i]=&store[i];
    if(ats[i]->isX86_FP80Ty()) engineError("long double to native "+name);
    if(ats[i]->isPointerTy()&&inArena(store[i])&&!nativeOk.count(name)&&name.compare(0,4,"MPI_")!=0){ uint32_t id=granOf(store[i]); if(id&&objs[id].live){ uint64_t sz=objs[id].size; if(sz>4096) sz=4096; if(anySym(objs[id].base,sz)) engineError("symbolic memory passed to native function "+name); } } }
  if(site) for(size_t i=0;i<n;i++) if(i<site->arg_size()&&site->isByValArgument(i)) engineError("byval argument to native "+name);
  ffi_cif* c; if(site){ auto it=cifCache.find(site); if(it==cifCache.end()) it=cifCache.emplace(site,cifOf(rt,ats,nfixed,va)).first; c=it->second; } else c=cifOf(rt,ats,nfixed,va);
  char rbuf[64]; memset(rbuf,0,64);
  try { ffi_call(c,FFI_FN(p),rbuf,ptrs.data()); }
  catch(IThrow&){ throw; }
  catch(std::exception& e){ auto r=new ExcRec; r->keep=std::current_exception(); r->ti=abi::__cxa_current_exception_type(); r->obj=dynamic_cast<void*>(&e); r->adjusted=r->obj; throw IThrow{r}; }
  if(rt->isVoidTy()) return Val{};
  if(rt->isStructTy()){ auto st=cast<StructType>(rt); auto l=DL->getStructLayout(st); std::vector<Val> v; for(unsigned i=0;i<st->getNumElements();i++){ uint64_t x=0; memcpy(&x,rbuf+l->getElementOffset(i),DL->getTypeStoreSize(st->getElementType(i))); v.push_back(VC(x)); } return mkAgg(v); }
  if(rt->isX86_FP80Ty()) engineError("long double from native "+name);
  uint64_t x=0; TI ti=tiOf(rt); memcpy(&x,rbuf,ti.bytes); if(ti.k==K_INT&&ti.bits<64) x&=Terms::mask(ti.bits); return VC(x); }
static Val callFn(FnInfo* f,std::vector<Val>& args,CallBase* site){
  if(Builtin b=builtinOf(f)) return b(args,site);
  if(!f->F->isDeclaration()) return execFn(f,args,site);
  if(!f->natChecked){ f->natChecked=true; f->nat=dlsym(RTLD_DEFAULT,f->name.c_str()); }
  if(!f->nat) engineError("call to unresolved external function "+f->name);
  std::vector<Type*> ats; if(site) for(auto&a:site->args()) ats.push_back(a->getType()); else for(auto t:f->F->getFunctionType()->params()) ats.push_back(t);
  return callNative(f->nat,f->name,f->F->getReturnType(),ats,f->F->getFunctionType()->getNumParams(),f->F->isVarArg(),args,site); }
static Val callPtr(uint64_t p,std::vector<Val>& args,CallBase* site){
  auto it=byAddr.find(p); if(it!=byAddr.end()) return callFn(it->second,args,site);
  if(p<65536) fail("memory","call through a null function pointer"); if(inArena(p)) fail("memory","call through a data pointer");
  Dl_info di; std::string nm="?"; if(dladdr((void*)p,&di)&&di.dli_sname) nm=di.dli_sname;
  auto bi=builtins.find(nm); if(bi!=builtins.end()&&bi->second) return bi->second(args,site);
  if(nm=="__cxa_pure_virtual") fail("abort","pure virtual call");
  std::vector<Type*> ats; for(auto&a:site->args()) ats.push_back(a->getType());
  return callNative((void*)p,nm,site->getType(),ats,site->getFunctionType()->getNumParams(),site->getFunctionType()->isVarArg(),args,site); }

// ---------------------------------------------------------------- scalar ops
static TID bvt(const Val&v,unsigned w){ if(v.t){ if(T.isR(v.t)) engineError("integer operation on the bits of a symbolic double"); return v.t; } return T.bconst(w,v.c); }
static Val norm(TID t){ if(T.isC(t)) return VC(T.n[t].c); auto it=known.find(t); if(it!=known.end()&&T.n[t].w) return VC(it->second); return VT(t); }
static double D(const Val&v){ double d; memcpy(&d,&v.c,8); return d; } static float Fl(const Val&v){ float f; uint32_t u=v.c; memcpy(&f,&u,4); return f; }
static Val VD(double d){ Val v; memcpy(&v.c,&d,8); return v; } static Val VF(float f){ Val v; uint32_t u; memcpy(&u,&f,4); v.c=u; return v; }
static Val binop(unsigned opc,const TI& ti,const Val&a,const Val&b,Instruction* I){
  if(ti.k==K_AGG){ Type* et=isa<FixedVectorType>(ti.ty)?cast<FixedVectorType>(ti.ty)->getElementType():nullptr; if(!et) engineError("binop on aggregate"); TI e=tiOf(et); auto x=aggs[a.agg],y=aggs[b.agg]; std::vector<Val> r; for(size_t i=0;i<x.size();i++) r.push_back(binop(opc,e,x[i],y[i],I)); return mkAgg(r); }
  if(ti.k==K_F64||ti.k==K_F32){ bool f32=ti.k==K_F32;
    if(!a.t&&!b.t){ if(f32){ float x=Fl(a),y=Fl(b); switch(opc){case Instruction::FAdd:return VF(x+y);case Instruction::FSub:return VF(x-y);case Instruction::FMul:return VF(x*y);case Instruction::FDiv:return VF(x/y);case Instruction::FRem:return VF(fmodf(x,y));} }
      else { double x=D(a),y=D(b); switch(opc){case Instruction::FAdd:return VD(x+y);case Instruction::FSub:return VD(x-y);case Instruction::FMul:return VD(x*y);case Instruction::FDiv:return VD(x/y);case Instruction::FRem:return VD(fmod(x,y));} } }
    TID x=realTerm(a,f32),y=realTerm(b,f32); Op o; switch(opc){case Instruction::FAdd:o=T_RADD;break;case Instruction::FSub:o=T_RSUB;break;case Instruction::FMul:o=T_RMUL;break;case Instruction::FDiv:o=T_RDIV;break;default:engineError("frem on symbolic");}
    if(o==T_RDIV&&T.isRC(y)&&T.rval(y)==0) fail("arith","division of a symbolic value by zero");
    return fromReal(T.rbin(o,x,y),f32); }
  if(ti.k==K_OTHER){ // i128 concrete
    auto g=[&](const Val&v){ auto&x=aggs[v.agg]; return ((unsigned __int128)conc(x[1])<<64)|conc(x[0]); }; if(!ti.ty->isIntegerTy(128)) engineError("wide binop"); unsigned __int128 x=g(a),y=g(b),r=0; switch(opc){case Instruction::Add:r=x+y;break;case Instruction::Sub:r=x-y;break;case Instruction::Mul:r=x*y;break;case Instruction::LShr:r=x>>(unsigned)y;break;case Instruction::Shl:r=x<<(unsigned)y;break;case Instruction::And:r=x&y;break;case Instruction::Or:r=x|y;break;case Instruction::UDiv:r=x/y;break;case Instruction::URem:r=x%y;break;default:engineError("i128 op");} return mkAgg({VC((uint64_t)r),VC((uint64_t)(r>>64))}); }
  unsigned w=ti.bits;
  if(!a.t&&!b.t){ uint64_t x=a.c,y=b.c,r=0,m=Terms::mask(w); int64_t sx=Terms::sx(x,w),sy=Terms::sx(y,w);
    switch(opc){ case Instruction::Add:r=x+y;break;case Instruction::Sub:r=x-y;break;case Instruction::Mul:r=x*y;break;
      case Instruction::UDiv: if(!y) fail("arith","integer division by zero"); r=x/y;break; case Instruction::URem: if(!y) fail("arith","integer division by zero"); r=x%y;break;
      case Instruction::SDiv: if(!y) fail("arith","integer division by zero"); r=sy==-1?0-sx:sx/sy;break; case Instruction::SRem: if(!y) fail("arith","integer division by zero"); r=sy==-1?0:sx%sy;break;
      case Instruction::And:r=x&y;break;case Instruction::Or:r=x|y;break;case Instruction::Xor:r=x^y;break;case Instruction::Shl:r=y>=w?0:x<<y;break;case Instruction::LShr:r=y>=w?0:x>>y;break;case Instruction::AShr:r=sx>>(y>=w?63:y);break; }
    return VC(r&m); }
  TID x=bvt(a,w),y=bvt(b,w); Op o; switch(opc){ case Instruction::Add:o=T_ADD;break;case Instruction::Sub:o=T_SUB;break;case Instruction::Mul:o=T_MUL;break;case Instruction::UDiv:o=T_UDIV;break;case Instruction::URem:o=T_UREM;break;case Instruction::SDiv:o=T_SDIV;break;case Instruction::SRem:o=T_SREM;break;case Instruction::And:o=T_AND;break;case Instruction::Or:o=T_OR;break;case Instruction::Xor:o=T_XOR;break;case Instruction::Shl:o=T_SHL;break;case Instruction::LShr:o=T_LSHR;break;case Instruction::AShr:o=T_ASHR;break;default:engineError("binop"); }
  if(o>=T_UDIV&&o<=T_SREM){ if(decide(T.cmp(T_EQ,y,T.bconst(w,0)))) fail("arith","integer division by zero"); }
  return norm(T.bin(o,w,x,y)); }
static Val icmp(unsigned pred,const TI& ti,const Val&a,const Val&b){
  if(ti.k==K_AGG){ Type* et=cast<FixedVectorType>(ti.ty)->getElementType(); auto x=aggs[a.agg],y=aggs[b.agg]; std::vector<Val> r; for(size_t i=0;i<x.size();i++) r.push_back(icmp(pred,tiOf(et),x[i],y[i])); return mkAgg(r); }
  unsigned w=ti.bits;
  if(!a.t&&!b.t){ if(ti.k==K_OTHER) engineError("i128 compare"); uint64_t x=a.c,y=b.c; int64_t sx=Terms::sx(x,w),sy=Terms::sx(y,w); switch(pred){ case CmpInst::ICMP_EQ:return VC(x==y);case CmpInst::ICMP_NE:return VC(x!=y);case CmpInst::ICMP_UGT:return VC(x>y);case CmpInst::ICMP_UGE:return VC(x>=y);case CmpInst::ICMP_ULT:return VC(x<y);case CmpInst::ICMP_ULE:return VC(x<=y);case CmpInst::ICMP_SGT:return VC(sx>sy);case CmpInst::ICMP_SGE:return VC(sx>=sy);case CmpInst::ICMP_SLT:return VC(sx<sy);case CmpInst::ICMP_SLE:return VC(sx<=sy);} }
  if(a.t&&b.t&&a.t==b.t&&T.isR(a.t)) return VC(pred==CmpInst::ICMP_EQ);
  TID x=bvt(a,w),y=bvt(b,w); TID r; switch(pred){ case CmpInst::ICMP_EQ:r=T.cmp(T_EQ,x,y);break;case CmpInst::ICMP_NE:r=T.lnot(T.cmp(T_EQ,x,y));break;case CmpInst::ICMP_UGT:r=T.cmp(T_ULT,y,x);break;case CmpInst::ICMP_UGE:r=T.cmp(T_ULE,y,x);break;case CmpInst::ICMP_ULT:r=T.cmp(T_ULT,x,y);break;case CmpInst::ICMP_ULE:r=T.cmp(T_ULE,x,y);break;case CmpInst::ICMP_SGT:r=T.cmp(T_SLT,y,x);break;case CmpInst::ICMP_SGE:r=T.cmp(T_SLE,y,x);break;case CmpInst::ICMP_SLT:r=T.cmp(T_SLT,x,y);break;default:r=T.cmp(T_SLE,x,y);break; }
  return norm(r); }
static Val fcmp(unsigned pred,bool f32,const Val&a,const Val&b){
  if(!a.t&&!b.t){ double x=f32?Fl(a):D(a),y=f32?Fl(b):D(b); bool u=std::isnan(x)||std::isnan(y); switch(pred){ case CmpInst::FCMP_FALSE:return VC(0);case CmpInst::FCMP_TRUE:return VC(1);case CmpInst::FCMP_ORD:return VC(!u);case CmpInst::FCMP_UNO:return VC(u);case CmpInst::FCMP_OEQ:return VC(!u&&x==y);case CmpInst::FCMP_UEQ:return VC(u||x==y);case CmpInst::FCMP_ONE:return VC(!u&&x!=y);case CmpInst::FCMP_UNE:return VC(u||x!=y);case CmpInst::FCMP_OGT:return VC(!u&&x>y);case CmpInst::FCMP_UGT:return VC(u||x>y);case CmpInst::FCMP_OGE:return VC(!u&&x>=y);case CmpInst::FCMP_UGE:return VC(u||x>=y);case CmpInst::FCMP_OLT:return VC(!u&&x<y);case CmpInst::FCMP_ULT:return VC(u||x<y);case CmpInst::FCMP_OLE:return VC(!u&&x<=y);case CmpInst::FCMP_ULE:return VC(u||x<=y);} }
  // one side may be infinite
  auto inf=[&](const Val&v){ if(v.t) return 0; double d=f32?Fl(v):D(v); return std::isinf(d)?(d>0?1:-1):std::isnan(d)?2:0; }; int ia=inf(a),ib=inf(b);
  if(ia==2||ib==2) engineError("NaN compared with a symbolic double");
  if(ia||ib){ double x=ia?ia:0,y=ib?ib:0; return fcmp(pred,false,VD(x),VD(y)); }
  TID x=realTerm(a,f32),y=realTerm(b,f32); TID r; switch(pred){ case CmpInst::FCMP_FALSE:case CmpInst::FCMP_UNO:return VC(0);case CmpInst::FCMP_TRUE:case CmpInst::FCMP_ORD:return VC(1);
    case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:r=T.rcmp(T_REQ,x,y);break;case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:r=T.lnot(T.rcmp(T_REQ,x,y));break;case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:r=T.rcmp(T_RLT,y,x);break;case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:r=T.rcmp(T_RLE,y,x);break;case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:r=T.rcmp(T_RLT,x,y);break;default:r=T.rcmp(T_RLE,x,y);break; }
  return norm(r); }
static bool truth(const Val&c){ return c.t?decide(c.t):(c.c&1); }
static Val selectVal(const Val&c,const Val&a,const Val&b,const TI& ti){
  if(c.agg){ auto cs=aggs[c.agg],x=aggs[a.agg],y=aggs[b.agg]; TI e=tiOf(cast<FixedVectorType>(ti.ty)->getElementType()); std::vector<Val> r; for(size_t i=0;i<cs.size();i++) r.push_back(selectVal(cs[i],x[i],y[i],e)); return mkAgg(r); }
  if(!c.t) return (c.c&1)?a:b;
  if(ti.k==K_INT&&!(a.t&&T.isR(a.t))&&!(b.t&&T.isR(b.t))){ auto it=known.find(c.t); if(it!=known.end()) return it->second?a:b; return norm(T.ite(c.t,bvt(a,ti.bits),bvt(b,ti.bits))); }
  return truth(c)?a:b; }
static Val roundToInt(const Val&v,bool f32,unsigned w,bool sgn){
  if(!v.t){ double d=f32?Fl(v):D(v); if(std::isnan(d)||std::isinf(d)) return VC(Terms::mask(w)&(1ull<<(w-1))); return VC((sgn?(uint64_t)(int64_t)d:(uint64_t)d)&Terms::mask(w)); }
  // enumerate integer values with the solver: trunc(x)
  TID x=v.t; std::string nm="trunc#"+std::to_string(x); TID k=T.bvar(nm,32); 
  static std::set<TID> done; if(!done.count(k)){ done.insert(k); Poly d=P.of(x); Z3_ast e=z->polyNL(d); Z3_ast ki=z->keep(Z3_mk_int2real(z->c,z->keep(Z3_mk_bv2int(z->c,z->tr(k),true)))); Z3_ast zero=z->rnum(0),one=z->rnum(1);
    Z3_ast pos=z->keep(Z3_mk_ge(z->c,e,zero)); Z3_ast kp1[2]={ki,one}; Z3_ast km[2]={ki,one};
    Z3_ast A[2]={z->keep(Z3_mk_le(z->c,ki,e)),z->keep(Z3_mk_lt(z->c,e,z->keep(Z3_mk_add(z->c,2,kp1))))}; Z3_ast B[2]={z->keep(Z3_mk_ge(z->c,ki,e)),z->keep(Z3_mk_gt(z->c,e,z->keep(Z3_mk_sub(z->c,2,km))))};
    z->add(Z3_mk_ite(z->c,pos,z->keep(Z3_mk_and(z->c,2,A)),z->keep(Z3_mk_and(z->c,2,B)))); 
    TID r1=T.cmp(T_SLT,k,T.bconst(32,1<<20)), r2=T.cmp(T_SLT,T.bconst(32,(uint64_t)(-(1<<20))),k); if(!decide(r1)||!decide(r2)) engineError("symbolic double to int outside +-2^20"); }
  uint64_t u=concretize(VT(k)); return VC((uint64_t)Terms::sx(u,32)&Terms::mask(w)); }
static bool realInts=false; // a harness that defines sym_real_ints keeps symbolic integers symbolic when they become doubles (sums and multiples of them are distributed: no signed overflow)
static TID linReal(TID t){ auto x=T.n[t]; if(T.isC(t)) return T.rconst(mpq_class((long)Terms::sx(x.c,x.w))); TID a=x.a,b=x.b; if(x.op==T_SEXT) return linReal(a); if(x.op==T_ADD) return T.rbin(T_RADD,linReal(a),linReal(b)); if(x.op==T_SUB) return T.rbin(T_RSUB,linReal(a),linReal(b)); if(x.op==T_MUL&&(T.isC(a)||T.isC(b))) return T.rbin(T_RMUL,linReal(a),linReal(b)); return T.mk(T_I2R,0,t); }
static Val intToReal(const Val&v,unsigned w,bool sgn,bool f32){ if(v.t&&realInts&&sgn&&!T.isR(v.t)) return fromReal(linReal(v.t),f32); uint64_t u=conc(v); double d=sgn?(double)Terms::sx(u,w):(double)u; return f32?VF((float)d):VD(d); }

// ---------------------------------------------------------------- the interpreter loop
static uint64_t instrTick=0;
static Val execFn(FnInfo* f,std::vector<Val>& args,CallBase* site){
  decode(f); usedFns[f->id&0xFFFF]=1; if(callStack.size()>20000) fail("memory","recursion depth"); 
  callStack.push_back(f); struct Pop{ ~Pop(){ callStack.pop_back(); } } pop; StackMark mark;
  std::vector<Val> S(f->nslots);
  Function* F=f->F; unsigned na=F->arg_size(); for(unsigned i=0;i<na&&i<args.size();i++) S[i]=args[i];
  for(unsigned i=0;i<na;i++) if(F->hasParamAttribute(i,Attribute::ByVal)){ Type* t=F->getParamByValType(i); uint64_t sz=DL->getTypeAllocSize(t); uint64_t p=stackAlloc(sz,16,"byval"); uint64_t src=conc(S[i]); checkAccess(src,sz,"byval read"); memCopy(p,src,sz); S[i]=VC(p); }
  auto get=[&](const Opnd&o)->const Val&{ return o.isC?o.v:S[o.slot]; };
  uint32_t bb=0,prev=0; ExcRec* pend=nullptr; std::vector<Val> phis;
  uint64_t vaArea=0; 
 nextBlock:;
  { const Block& B=f->blocks[bb]; uint32_t pc=B.start;
    if(B.nphi){ phis.clear(); for(uint32_t i=0;i<B.nphi;i++){ Inst&in=f->code[pc+i]; for(size_t j=0;j<in.idx.size();j++) if(in.idx[j]==prev){ phis.push_back(get(in.ops[j])); break; } } for(uint32_t i=0;i<B.nphi;i++) S[f->code[pc+i].dst]=phis[i]; pc+=B.nphi; }
    for(;;pc++){ Inst& in=f->code[pc]; nInstr++; if((++instrTick&0xFFFFF)==0){ if(instrTick>maxInstr) engineError("instruction budget exhausted"); poll(); }
      switch(in.opc){
        case Instruction::Ret: { if(in.ops.empty()) return Val{}; return get(in.ops[0]); }
        case Instruction::Br: prev=bb; if(in.ops.empty()) bb=in.bb0; else bb=truth(get(in.ops[0]))?in.bb0:in.bb1; goto nextBlock;
        case Instruction::Switch: { prev=bb; Val c=get(in.ops[0]); unsigned w=in.ti2.bits; uint32_t tgt=in.bb0; 
            if(!c.t){ for(size_t i=1;i<in.ops.size();i++) if(in.ops[i].v.c==c.c){ tgt=in.idx[i-1]; break; } }
            else for(size_t i=1;i<in.ops.size();i++) if(decide(T.cmp(T_EQ,bvt(c,w),T.bconst(w,in.ops[i].v.c)))){ tgt=in.idx[i-1]; break; }
            bb=tgt; goto nextBlock; }
        case Instruction::Unreachable: fail("abort","reached code the compiler considers unreachable");
        case Instruction::FNeg: { Val v=get(in.ops[0]); if(in.ti.k==K_AGG){ engineError("vector fneg"); } bool f32=in.ti.k==K_F32; if(!v.t) S[in.dst]=f32?VF(-Fl(v)):VD(-D(v)); else S[in.dst]=fromReal(T.rneg(v.t),f32); break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          S[in.dst]=binop(in.opc,in.ti,get(in.ops[0]),get(in.ops[1]),in.I); break;
        case Instruction::Alloca: { uint64_t n=conc(get(in.ops[0])); S[in.dst]=VC(stackAlloc(n*in.k,in.bb0,"stack")); break; }
        case Instruction::Load: { uint64_t a=conc(get(in.ops[0])); uint64_t sz=in.ti.bytes?in.ti.bytes:DL->getTypeStoreSize(in.ti.ty).getFixedValue(); checkAccess(a,sz,"read"); S[in.dst]=in.ti.bytes?loadBytes(a,in.ti.bytes,in.ti.bits,in.ti.k):loadType(a,in.ti.ty); break; }
        case Instruction::Store: { uint64_t a=conc(get(in.ops[1])); const TI&t=in.ti2; uint64_t sz=t.bytes?t.bytes:DL->getTypeStoreSize(t.ty).getFixedValue(); checkAccess(a,sz,"write"); if(t.bytes) storeBytes(a,t.bytes,t.bits,t.k,get(in.ops[0])); else storeType(a,t.ty,get(in.ops[0])); break; }
        case Instruction::GetElementPtr: { Val b=get(in.ops[0]); if(b.agg) engineError("vector gep"); bool sy=b.t; for(auto&s:in.steps) if(get(in.ops[s.opIdx]).t) sy=true;
            if(!sy){ uint64_t a=b.c+in.k; for(size_t i=0;i<in.steps.size();i++){ auto&s=in.steps[i]; a+=(uint64_t)(Terms::sx(get(in.ops[s.opIdx]).c,in.idx[i])*s.stride); } S[in.dst]=VC(a); }
            else { TID t=T.bin(T_ADD,64,bvt(b,64),T.bconst(64,in.k)); for(size_t i=0;i<in.steps.size();i++){ auto&s=in.steps[i]; TID x=bvt(get(in.ops[s.opIdx]),in.idx[i]); t=T.bin(T_ADD,64,t,T.bin(T_MUL,64,T.sext(x,64),T.bconst(64,s.stride))); } S[in.dst]=norm(t); }
            break; }
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { auto r=cast<AtomicRMWInst>(in.I); uint64_t a=conc(get(in.ops[0])); checkAccess(a,in.ti.bytes,"atomic"); Val old=loadBytes(a,in.ti.bytes,in.ti.bits,in.ti.k); Val x=get(in.ops[1]); Val nv; switch(r->getOperation()){ case AtomicRMWInst::Add: nv=binop(Instruction::Add,in.ti,old,x,in.I);break;case AtomicRMWInst::Sub: nv=binop(Instruction::Sub,in.ti,old,x,in.I);break;case AtomicRMWInst::Xchg: nv=x;break;case AtomicRMWInst::Or: nv=binop(Instruction::Or,in.ti,old,x,in.I);break;case AtomicRMWInst::And: nv=binop(Instruction::And,in.ti,old,x,in.I);break;default: engineError("atomicrmw"); } storeBytes(a,in.ti.bytes,in.ti.bits,in.ti.k,nv); S[in.dst]=old; break; }
        case Instruction::AtomicCmpXchg: { uint64_t a=conc(get(in.ops[0])); Val ex=get(in.ops[1]),nw=get(in.ops[2]); TI t=tiOf(in.I->getOperand(1)->getType()); checkAccess(a,t.bytes,"atomic"); Val old=loadBytes(a,t.bytes,t.bits,t.k); bool eq=conc(old)==conc(ex); if(eq) storeBytes(a,t.bytes,t.bits,t.k,nw); S[in.dst]=mkAgg({old,VC(eq)}); break; }
        case Instruction::Trunc: { Val v=get(in.ops[0]); if(v.agg){ if(in.ti2.k==K_OTHER&&in.ti.k==K_INT){ Val lo=aggs[v.agg][0]; v=VC(conc(lo)&Terms::mask(in.ti.bits)); S[in.dst]=v; break; } engineError("vector trunc"); } if(!v.t) S[in.dst]=VC(v.c&Terms::mask(in.ti.bits)); else { if(T.isR(v.t)) engineError("truncating the bits of a symbolic double"); S[in.dst]=norm(T.extract(v.t,0,in.ti.bits)); } break; }
        case Instruction::ZExt: { Val v=get(in.ops[0]); if(in.ti.k==K_OTHER){ S[in.dst]=mkAgg({VC(conc(v)),VC(0)}); break; } if(v.agg) { auto x=aggs[v.agg]; std::vector<Val> r; TI e=tiOf(cast<FixedVectorType>(in.ti.ty)->getElementType()); for(auto&q:x) r.push_back(q.t?norm(T.zext(q.t,e.bits)):q); S[in.dst]=mkAgg(r); break; } S[in.dst]=v.t?norm(T.zext(bvt(v,in.ti2.bits),in.ti.bits)):v; break; }
        case Instruction::SExt: { Val v=get(in.ops[0]); if(in.ti.k==K_OTHER){ uint64_t x=conc(v); int64_t s=Terms::sx(x,in.ti2.bits); S[in.dst]=mkAgg({VC((uint64_t)s),VC(s<0?~0ull:0)}); break; } if(v.agg) { auto x=aggs[v.agg]; std::vector<Val> r; TI e=tiOf(cast<FixedVectorType>(in.ti.ty)->getElementType()); unsigned iw=tiOf(cast<FixedVectorType>(in.ti2.ty)->getElementType()).bits; for(auto&q:x) r.push_back(q.t?norm(T.sext(q.t,e.bits)):VC((uint64_t)Terms::sx(q.c,iw)&Terms::mask(e.bits))); S[in.dst]=mkAgg(r); break; } S[in.dst]=v.t?norm(T.sext(bvt(v,in.ti2.bits),in.ti.bits)):VC((uint64_t)Terms::sx(v.c,in.ti2.bits)&Terms::mask(in.ti.bits)); break; }
        case Instruction::FPToSI: S[in.dst]=roundToInt(get(in.ops[0]),in.ti2.k==K_F32,in.ti.bits,true); break;
        case Instruction::FPToUI: S[in.dst]=roundToInt(get(in.ops[0]),in.ti2.k==K_F32,in.ti.bits,false); break;
        case Instruction::SIToFP: if(in.ti.k==K_AGG||in.ti.k==K_OTHER) engineError("unsupported int to fp"); S[in.dst]=intToReal(get(in.ops[0]),in.ti2.bits,true,in.ti.k==K_F32); break;
        case Instruction::UIToFP: if(in.ti.k==K_AGG||in.ti.k==K_OTHER) engineError("unsupported int to fp"); S[in.dst]=intToReal(get(in.ops[0]),in.ti2.bits,false,in.ti.k==K_F32); break;
        case Instruction::FPTrunc: { if(in.ti2.k!=K_F64) engineError("long double"); Val v=get(in.ops[0]); S[in.dst]=v.t?v:VF((float)D(v)); break; }
        case Instruction::FPExt: { if(in.ti.k!=K_F64) engineError("long double"); Val v=get(in.ops[0]); S[in.dst]=v.t?v:VD((double)Fl(v)); break; }
        case Instruction::PtrToInt: { Val v=get(in.ops[0]); if(in.ti.bits<64) v=v.t?norm(T.extract(v.t,0,in.ti.bits)):VC(v.c&Terms::mask(in.ti.bits)); S[in.dst]=v; break; }
        case Instruction::IntToPtr: S[in.dst]=get(in.ops[0]); break;
        case Instruction::BitCast: case Instruction::Freeze: { Val v=get(in.ops[0]); if(in.opc==Instruction::BitCast&&(in.ti.k==K_AGG)!=(in.ti2.k==K_AGG)){ uint64_t sz=DL->getTypeAllocSize(in.ti.ty); StackMark mk; uint64_t p=stackAlloc(sz,16,"cast"); storeType(p,in.ti2.ty,v); S[in.dst]=loadType(p,in.ti.ty); } else if(in.opc==Instruction::BitCast&&in.ti.k==K_AGG){ StackMark mk; uint64_t p=stackAlloc(DL->getTypeAllocSize(in.ti.ty),16,"cast"); storeType(p,in.ti2.ty,v); S[in.dst]=loadType(p,in.ti.ty); } else S[in.dst]=v; break; }
        case Instruction::ICmp: S[in.dst]=icmp(in.pred,in.ti2,get(in.ops[0]),get(in.ops[1])); break;
        case Instruction::FCmp: { if(in.ti2.k==K_AGG){ TI e=tiOf(cast<FixedVectorType>(in.ti2.ty)->getElementType()); auto x=aggs[get(in.ops[0]).agg],y=aggs[get(in.ops[1]).agg]; std::vector<Val> r; for(size_t i=0;i<x.size();i++) r.push_back(fcmp(in.pred,e.k==K_F32,x[i],y[i])); S[in.dst]=mkAgg(r); break; } S[in.dst]=fcmp(in.pred,in.ti2.k==K_F32,get(in.ops[0]),get(in.ops[1])); break; }
        case Instruction::Select: S[in.dst]=selectVal(get(in.ops[0]),get(in.ops[1]),get(in.ops[2]),in.ti); break;
        case Instruction::ExtractValue: { Val v=get(in.ops[0]); for(auto i:in.idx) { Val w=aggs[v.agg][i]; v=w; } S[in.dst]=v; break; }
        case Instruction::InsertValue: { std::function<Val(Val,size_t)> rec=[&](Val v,size_t d)->Val{ auto x=aggs[v.agg]; if(d+1==in.idx.size()) x[in.idx[d]]=get(in.ops[1]); else x[in.idx[d]]=rec(x[in.idx[d]],d+1); return mkAgg(x); }; S[in.dst]=rec(get(in.ops[0]),0); break; }
        case Instruction::ExtractElement: { uint64_t i=conc(get(in.ops[1])); Val v=aggs[get(in.ops[0]).agg].at(i); S[in.dst]=v; break; }
        case Instruction::InsertElement: { auto x=aggs[get(in.ops[0]).agg]; x.at(conc(get(in.ops[2])))=get(in.ops[1]); S[in.dst]=mkAgg(x); break; }
        case Instruction::ShuffleVector: { auto sv=cast<ShuffleVectorInst>(in.I); auto x=aggs[get(in.ops[0]).agg],y=aggs[get(in.ops[1]).agg]; std::vector<Val> r; for(int m:sv->getShuffleMask()) r.push_back(m<0?VC(0):m<(int)x.size()?x[m]:y[m-x.size()]); S[in.dst]=mkAgg(r); break; }
        case Instruction::LandingPad: { auto lp=cast<LandingPadInst>(in.I); int sel=0; 
            for(unsigned i=0;i<lp->getNumClauses()&&!sel;i++){ if(lp->isCatch(i)){ Val c=constVal(lp->getClause(i)); if(!c.c){ pend->adjusted=pend->obj; sel=1; break; } auto ti=(const std::type_info*)c.c; void* adj=pend->obj; 
                if(pend->ti&&ti->__do_catch(pend->ti,&adj,1)){ pend->adjusted=adj; sel=(int)(c.c&0x3fffffff)|1; if(sel==1) sel=3; } }
              else sel=0; }
            S[in.dst]=mkAgg({VC((uint64_t)pend),VC((uint32_t)sel)}); break; }
        case Instruction::Resume: { Val v=get(in.ops[0]); throw IThrow{(ExcRec*)aggs[v.agg][0].c}; }
        case Instruction::Call: case Instruction::Invoke: {
            std::vector<Val> a; size_t n=in.ops.size()-(in.callee?0:1); a.reserve(n); for(size_t i=0;i<n;i++) a.push_back(get(in.ops[i]));
            auto cb=cast<CallBase>(in.I); Val r;
            if(in.callee&&in.callee->F->isIntrinsic()&&in.callee->name.rfind("llvm.va_start",0)==0){ // interpreted variadic
              if(!vaArea){ size_t extra=args.size()-na; vaArea=stackAlloc(8*extra+8,16,"varargs"); for(size_t i=0;i<extra;i++) storeBytes(vaArea+8*i,8,64,K_INT,args[na+i]); }
              uint64_t l=conc(a[0]); uint32_t g=48,fo=304; memcpy((void*)l,&g,4); memcpy((void*)(l+4),&fo,4); memcpy((void*)(l+8),&vaArea,8); memset((void*)(l+16),0,8); break; }
            if(in.opc==Instruction::Call){ 
              if(cb->isInlineAsm()) { break; }
              if(in.callee) r=callFn(in.callee,a,cb); else r=callPtr(conc(get(in.ops[n])),a,cb); if(in.ti.k!=K_VOID) S[in.dst]=r; break; }
            bool threw=false;
            try { if(in.callee) r=callFn(in.callee,a,cb); else r=callPtr(conc(get(in.ops[n])),a,cb); }
            catch(IThrow& e){ pend=e.e; threw=true; }
            prev=bb; if(threw){ bb=in.bb1; } else { if(in.ti.k!=K_VOID) S[in.dst]=r; bb=in.bb0; }
            goto nextBlock; }
        default: engineError(std::string("unsupported instruction ")+in.I->getOpcodeName()); } } }
}
