// ---------------------------------------------------------------- main
static void finish(){ flushEqs(); if(inRank) rankEnd(E_OK); static std::atomic<int>* dummy=nullptr; (void)dummy;
  if(SH->paths<6){ std::string ns; for(auto&n:notes){ if(!ns.empty()) ns+="; "; ns+=n.first+"="+n.second; } std::string kn; int k=0; for(auto&in:inputs) if(!in.real){ auto it=known.find(in.t); if(it!=known.end()&&k++<24){ if(!kn.empty()) kn+=", "; kn+=in.name+"="+std::to_string(Terms::sx(it->second,in.w)); } } emit("{\"kind\":\"path\",\"notes\":\""+esc(ns)+"\",\"choices\":\""+esc(kn)+"\",\"inputs\":"+std::to_string(inputs.size())+"}"); }
  endPath(); }
static void nativeOkInit(){ for(auto n:{"MPI_Send","MPI_Recv","MPI_Bcast","MPI_Allreduce","MPI_Allgather","MPI_Allgatherv","MPI_Gather","MPI_Reduce","MPI_Isend","MPI_Irecv","MPI_Wait","MPI_Waitall","MPI_Alltoall","MPI_Exscan","MPI_Scan","_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_","_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_","_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base","_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base","_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base","_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base","_ZNSt8__detail15_List_node_base7_M_hookEPS0_","_ZNSt8__detail15_List_node_base9_M_unhookEv","_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_","_ZNSt8__detail15_List_node_base7_M_swapERS0_S1_"}) nativeOk.insert(n); }
static sigjmp_buf segvJmp; static volatile bool segvArmed=false;
static void onSegv(int,siginfo_t* si,void*){ char b[128]; snprintf(b,128,"segmentation fault at address %p",si->si_addr); static int n=0; if(n++) _exit(98); fail("memory",b); }
void operator delete(void* p) noexcept { if(inArena((uint64_t)p)) heapFree((uint64_t)p,O_NEW); else free(p); }
void operator delete(void* p,size_t) noexcept { operator delete(p); }
int main(int argc,char** argv){
  struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(1ull<<31)&&!getenv("EFSYM_REEXEC")){ rlim_t want=1ull<<32; if(rl.rlim_max!=RLIM_INFINITY&&rl.rlim_max<want) want=rl.rlim_max; rl.rlim_cur=want; setrlimit(RLIMIT_STACK,&rl); setenv("EFSYM_REEXEC","1",1); execv("/proc/self/exe",argv); }
  std::string bc,entry,out; double tlim=600; int jobs=8; std::vector<std::string> libs;
  for(int i=1;i<argc;i++){ std::string s=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(s=="--bc") bc=nx(); else if(s=="--entry") entry=nx(); else if(s=="--out") out=nx(); else if(s=="--time") tlim=atof(nx().c_str()); else if(s=="--jobs") jobs=atoi(nx().c_str()); else if(s=="--max-fails") maxFails=atoi(nx().c_str()); else if(s=="--lib") libs.push_back(nx()); else if(s=="-v") verbose=1; else { fprintf(stderr,"efsym: bad option %s\n",s.c_str()); return 2; } }
  double tstart=now(); deadline=tstart+tlim;
  SH=(Shared*)mmap(nullptr,sizeof(Shared)+65536,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(SH) Shared(); usedFns=(uint8_t*)(SH+1); sem_init(&SH->jobs,1,jobs-1);
  auto mapAt=[&](uint64_t a,uint64_t n){ void*p=mmap((void*)a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)a){ fprintf(stderr,"efsym: cannot map arena: %s\n",strerror(errno)); exit(2);} };
  mapAt(ARENA,ARENA_SZ); mapAt(SHADOW,ARENA_SZ*4); mapAt(GRAN,ARENA_SZ/4);
  resFd=open(out.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(resFd<0){ perror("efsym: out"); return 2; }
  for(auto&l:libs) if(!dlopen(l.c_str(),RTLD_NOW|RTLD_GLOBAL)){ fprintf(stderr,"efsym: dlopen %s\n",dlerror()); return 2; }
  SMDiagnostic err; M=parseIRFile(bc,err,Ctx); if(!M){ err.print("efsym",errs()); return 2; } DL=&M->getDataLayout();
  z=new Z(T,P); initBuiltins(); mpiInit(); extern void mpiStrictOn(); if(M->getFunction("sym_bare")) mpiStrictOn(); if(M->getFunction("sym_real_ints")) realInts=true; // the harness starts MPI itself
  for(auto&Fn:*M) info(&Fn); bindIntrinsics(); nativeOkInit();
  pid_t root=fork(); // everything below runs in a child so that failures before the first path are reported
  if(root==0){ setpgid(0,0); prctl(PR_SET_PDEATHSIG,SIGKILL);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onSegv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; static char alt[1<<20]; stack_t ss{alt,0,sizeof alt}; sigaltstack(&ss,nullptr); sigaction(SIGSEGV,&sa,nullptr); sigaction(SIGBUS,&sa,nullptr);
    if(!verbose){ int dn=open("/dev/null",O_RDWR); dup2(dn,1); dup2(dn,0); }
    for(auto&g:M->globals()) if(!g.isDeclaration()&&!g.getName().starts_with("llvm.")){ uint64_t sz=DL->getTypeAllocSize(g.getValueType()); uint64_t al=std::max<uint64_t>(16,g.getAlign().valueOrOne().value()); 
        gaddr[&g]=heapAlloc(sz,O_GLOBAL,g.getName().data(),al); memset((void*)gaddr[&g],0,sz); }
    for(auto&g:M->globals()) if(!g.isDeclaration()&&!g.getName().starts_with("llvm.")) initMem(gaddr[&g],g.getInitializer());
    Function* F=M->getFunction(entry); if(!F) engineError("no entry "+entry);
    try{
      if(auto gc=M->getGlobalVariable("llvm.global_ctors")) if(auto ca=dyn_cast<ConstantArray>(gc->getInitializer())){ std::vector<std::pair<uint64_t,Function*>> cs; for(auto&o:ca->operands()){ auto s=cast<ConstantStruct>(o); if(auto fn=dyn_cast<Function>(s->getOperand(1))) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(),fn}); } std::stable_sort(cs.begin(),cs.end(),[](auto&x,auto&y){return x.first<y.first;}); for(auto&c:cs){ std::vector<Val> a; callFn(info(c.second),a,nullptr); } }
      std::vector<Val> a; callFn(info(F),a,nullptr);
    } catch(IThrow& e){ std::string nm=e.e->ti?demangle(e.e->ti->name()):"?"; std::string what; if(e.e->ti){ void* p=e.e->obj; if(typeid(std::exception).__do_catch(e.e->ti,&p,1)) what=((std::exception*)p)->what(); }
      fail("exception","uncaught exception "+nm+": "+what); }
    finish();
  }
  setpgid(root,root); int st=0; double stopAt=0; bool killed=false;
  for(;;){ pid_t w=waitpid(root,&st,WNOHANG); if(w==root) break; if(w<0&&errno!=EINTR) break; usleep(20000); if(const char* sf=getenv("EFSYM_STOP")) if(!SH->stop&&access(sf,F_OK)==0) SH->stop=3; // another entry has a confirmed counterexample
    if(SH->stop&&!stopAt) stopAt=now(); // counterexamples are in, or the time is up: queries still running are cut off
    if((stopAt&&now()-stopAt>5)||now()>deadline+10){ killed=true; if(!SH->stop){ SH->stop=2; SH->errors++; emit("{\"kind\":\"error\",\"msg\":\"time limit\"}"); } kill(-root,SIGKILL); waitpid(root,&st,0); break; } }
  bool dead=!killed&&!(WIFEXITED(st)&&WEXITSTATUS(st)==0); if(dead){ SH->errors++; emit("{\"kind\":\"error\",\"msg\":\"root path process died: status "+std::to_string(st)+"\"}"); }
  // functions executed (names from a decode-order replay are not available here: recover by scanning the module in id order)
  std::string s="{\"kind\":\"summary\",\"entry\":\""+esc(entry)+"\""; auto F=[&](const char*n,uint64_t v){ s+=std::string(",\"")+n+"\":"+std::to_string(v); };
  F("paths",SH->paths);F("infeasible",SH->infeasible);F("forks",SH->forks);F("instrs",SH->instrs);F("obligations",SH->obligations);F("trivial",SH->trivial);F("equalities",SH->eqs);F("queries",SH->queries);F("nonlinear_queries",SH->nlq);F("fails",SH->fails);F("errors",SH->errors);F("concretized",SH->concretized);F("max_monomials",SH->polymax);F("stopped",SH->stop);
  { std::string fl; uint64_t nf=0,nr=0; for(auto f:fns) if(usedFns[f->id&0xFFFF]&&f->F&&!f->F->isDeclaration()){ nf++; std::string d=demangle(f->name); if(d.find("EllipticForest::")!=std::string::npos){ nr++; if(nr<=400){ if(d.size()>160) d=d.substr(0,160); if(!fl.empty()) fl+=","; fl+="\""+esc(d)+"\""; } } } F("functions_executed",nf); F("repo_functions",nr); s+=",\"functions\":["+fl+"]"; }
  char b[96]; snprintf(b,96,",\"solver_s\":%.3f,\"wall_s\":%.3f",SH->secs_us/1e6,now()-tstart); s+=b; s+="}"; emit(s);
  return SH->errors?2:SH->fails?1:0; }
