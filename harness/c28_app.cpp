// @title The application object times the work and starts and ends the libraries once
// @bounds Timer histories of up to 3 (thorough 5) operations on two timers with arbitrary times between them; every stage of a solve on 4 patches, run once or twice, with arbitrary time passing in every call of a user function and between the stages; applications on two ranks, constructed before or after MPI and PETSc are initialised, with and without options, destroyed before or after MPI is finalised; log lines from one and two ranks.
// @stubs std::chrono::steady_clock::now: a clock the harness advances; MPI and PETSc start and end: models that reject a second MPI_Init or MPI_Finalize and MPI calls outside; p4est, PETSc and MPI models for the stages.
// @outside The resolution of real clocks; rounding of sums of times; two applications at once; the text printed at the end beyond the timers' names and times.
// @entry t_history reach=done
// @entry t_names reach=done
// @entry t_stages reach=done
// @entry a_life ranks=2 reach=done
// @entry a_options ranks=2 reach=done
// @entry a_log ranks=2 reach=done
#include "hps.hpp"
#include <chrono>
#include <iostream>
#include <sstream>
#include <fstream>
static long long clk=1000000007ll; // nanoseconds
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clk)); } } } }
static const double NS=1e-9;
extern "C" int sym_real_ints(void){ return 1; }
extern "C" int sym_bare(void){ return 1; } // natively: the entries start MPI themselves
static void begin(){ int f; MPI_Initialized(&f); if(!f){ MPI_Init(NULL,NULL); PetscInitializeNoArguments(); } }
static double sec(long long ns){ return (double)ns/1e9; }
static int days(const char* nm,int i,int hi){ return sym_int(N_(nm,i).c_str(),0,hi); }

ENTRY t_history(){ begin(); EF::Timer t[2]; double acc[2]={0,0},last; int K=sym_choose("operations",1,TH(3,5)); for(int k=0;k<K;k++){ int op=sym_choose(N_("op",k).c_str(),0,3),w=op<3?sym_choose(N_("timer",k).c_str(),0,1):0; long long idle=days("idle",k,1<<20),run=days("run",k,1<<24)*1000ll;
    clk+=idle; if(op==0||op==1){ t[w].start(); clk+=run; if(op==1){ t[1-w].start(); clk+=idle; double o=t[1-w].stop(); sym_check_eq(o,sec(idle),"stop gives the time since its own start"); acc[1-w]+=sec(idle); run+=idle; } last=t[w].stop(); sym_check_eq(last,sec(run),"stop gives the time since start"); acc[w]+=sec(run); } else if(op==2){ t[w].restart(); acc[w]=0; } else { t[0].start(); clk+=run; t[0].start(); clk+=idle; sym_check_eq(t[0].stop(),sec(idle),"started again"); acc[0]+=sec(idle); }
    clk+=5; sym_check_eq(t[0].time(),acc[0],"accumulated time"); sym_check_eq(t[1].time(),acc[1],"accumulated time of the other timer"); } sym_reach("done"); }
ENTRY t_names(){ begin(); auto& app=EF::EllipticForestApp::getInstance(); const char* nm[]={"a","b","ab",""}; int x=sym_choose("first",0,3),y=sym_choose("second",0,3); long long d=sym_int("d",0,1<<24),e=sym_int("e",0,1<<24); app.addTimer(nm[x]); app.timers[nm[x]].start(); clk+=d; app.timers[nm[x]].stop(); clk+=3; if(x!=y){ app.addTimer(nm[y]); sym_check_eq(app.timers[nm[y]].time(),0,"a new timer starts at zero"); app.timers[nm[y]].start(); clk+=e; EF::EllipticForestApp::getInstance().timers[nm[y]].stop(); sym_check_eq(app.timers[nm[y]].time(),sec(e),"second timer"); }
  sym_check_eq(EF::EllipticForestApp::getInstance().timers[nm[x]].time(),sec(d),"first timer"); sym_check(&EF::EllipticForestApp::getInstance()==&app,"one instance"); sym_reach("done"); }
ENTRY t_stages(){ begin(); int hom=sym_choose("homogeneous",0,1),cb=sym_choose("callbacks",0,1),again=sym_choose("again",0,1); setOpts(hom,false); auto& app=EF::EllipticForestApp::getInstance(); long long idle=sym_int("idle",0,1<<24); World w(rectChoice(1,4),2); w.uniform(1);
  // time passes in every call of a user function (coefficients: d ns, data: e ns) and between the stages
  long nc=0,nd=0; long long d=0,e=0; auto coef=[&](double,double){ clk+=d; nc++; return 1.0; }; auto data=[&]{ clk+=e; nd++; }; w.sol.alpha_function=[&](double,double){ return 1.0; }; w.sol.beta_function=coef; HPS_ H(MPI_COMM_WORLD,w.mesh,w.sol);
  auto stage=[&](const char* nm,const char* msg,bool wantData,std::function<void()> run){ static int k=0; d=sym_int(N_("coefficient",k).c_str(),0,1<<20); e=sym_int(N_("data",k++).c_str(),0,1<<20); nc=nd=0; clk+=idle; run(); clk+=idle; sym_check_eq(app.timers[nm].time(),sec(d*nc+e*nd),msg); if(wantData) sym_check(nd>0,"the data was asked for"); };
  stage("setup-stage","time of the setup stage",false,[&]{ H.setupStage(); }); for(int k=0;k<=again;k++){ stage("build-stage","time of the build stage",false,[&]{ H.buildStage(); }); sym_check(k||nc>0,"the operator was asked for"); double b=app.timers["build-stage"].time();
    for(int m=0;m<=again;m++){ if(!hom) stage("upwards-stage","time of the upwards stage",true,[&]{ if(cb) H.upwardsStage(std::function<void(Patch_&)>([&](Patch_& p){ data(); p.vectorF()=Vec_(4,1.0); })); else H.upwardsStage(std::function<double(double,double)>([&](double,double){ data(); return 1.0; })); });
      stage("solve-stage","time of the solve stage",true,[&]{ if(cb) H.solveStage(std::function<void(Patch_&)>([&](Patch_& p){ data(); p.vectorG()=Vec_(16,2.0); })); else H.solveStage(std::function<double(int,double,double,double*,double*)>([&](int,double,double,double* a,double* bb){ data(); *a=1; *bb=0; return 2.0; })); }); }
    sym_check_eq(app.timers["build-stage"].time(),b,"time of the build stage, later"); } sym_check_eq(app.timers["setup-stage"].time(),0,"time of the setup stage, later"); sym_reach("done"); }
static int ranks(){ return sym_ranks(2); } // sym_ranks before MPI has started
static std::string runApp(int mpiFirst,int mpiGone,int nargs,const char* const* args,std::function<void(EF::EllipticForestApp&)> body){ // one application's life; returns what it prints
  std::vector<std::string> st; st.push_back("prog"); for(int i=0;i<nargs;i++) st.push_back(args[i]); std::vector<char*> av; for(auto& x:st) av.push_back((char*)x.c_str()); av.push_back(nullptr); int argc=(int)st.size(); char** argv=av.data(); if(mpiFirst>0) MPI_Init(&argc,&argv); if(mpiFirst>1) PetscInitialize(&argc,&argv,NULL,NULL); std::ostringstream out; auto old=std::cout.rdbuf(out.rdbuf());
  { EF::EllipticForestApp app(&argc,&argv); int f; PetscBool p; MPI_Initialized(&f); sym_check(f,"MPI is initialised"); PetscInitialized(&p); sym_check(p,"PETSc is initialised"); MPI_Finalized(&f); sym_check(!f,"MPI is not finalised"); sym_check(&EF::EllipticForestApp::getInstance()==&app,"the application is the one instance"); body(app); if(mpiGone){ PetscFinalize(); MPI_Finalize(); } }
  std::cout.rdbuf(old); int f; PetscBool p; MPI_Finalized(&f); sym_check(f,"MPI is finalised"); PetscFinalized(&p); sym_check(p,"PETSc is finalised"); return out.str(); }
ENTRY a_life(){ int first=sym_choose("initialised",0,2),gone=sym_choose("finalised",0,1),me=ranks(); std::string o=runApp(first,gone,0,nullptr,[&](EF::EllipticForestApp& app){ int f; MPI_Comm_rank(MPI_COMM_WORLD,&f); app.addTimer("some-name"); app.timers["some-name"].start(); clk+=2500000000ll; EF::EllipticForestApp::getInstance().timers["some-name"].stop(); clk+=1250000000ll; });
  if(me) { sym_reach("done"); return; }
  sym_check(o.find("some-name")!=std::string::npos,"the end reports the timers"); size_t a=o.find("some-name"),b=o.find("app-lifetime"); sym_check(b!=std::string::npos,"the life of the application is timed"); if(a!=std::string::npos) sym_check(o.substr(a,o.find('\n',a)-a).find("2.5")!=std::string::npos,"the end reports the times"); if(b!=std::string::npos) sym_check(o.substr(b,o.find('\n',b)-b).find("3.75")!=std::string::npos,"the time of the whole life"); sym_reach("done"); }
ENTRY a_options(){ int k=sym_choose("options",0,3),first=sym_choose("initialised",0,2); ranks(); const char* A0[]={"--min-level=3","--flag"}; const char* A1[]={"--x=0.5","-out=run/two"}; const char* A2[]={"--cache-operators=true","--name=run one","--min-level=12"}; const char* const* A[]={A0,A1,A2,nullptr}; int n[]={2,2,3,0};
  runApp(first,0,n[k],A[k],[&](EF::EllipticForestApp&){ auto& o=EF::EllipticForestApp::getInstance().options;
    if(k==0){ sym_check(std::get<int>(o["min-level"])==3,"an integer option"); sym_check(std::holds_alternative<std::string>(o["flag"]),"a flag"); } if(k==1){ sym_check_eq(std::get<double>(o["x"]),0.5,"a number option"); sym_check(std::get<std::string>(o["out"])=="run/two","a short option"); } if(k==2){ sym_check(std::get<bool>(o["cache-operators"]),"a truth option"); sym_check(std::get<std::string>(o["name"])=="run one","a text option"); sym_check(std::get<int>(o["min-level"])==12,"an integer option"); } }); sym_reach("done"); }
ENTRY a_log(){ int n=sym_choose("number",-1,12),head=sym_choose("head",0,1),two=sym_choose("lines",1,2),len=sym_choose("length",0,2)*150; int me=ranks(); begin(); sym_own_dir(); fflush(stdout); std::string fn=std::string(sym_native()&&getenv("SYM_WORKDIR")?getenv("SYM_WORKDIR"):".")+"/log"+std::to_string(me); if(!freopen(fn.c_str(),"w",stdout)) { sym_check(0,"freopen"); return; } EF::EllipticForestApp& app=EF::EllipticForestApp::getInstance(); std::string text="boundary"+std::string(len,'x'); const char* word=text.c_str(); double x=2.25; for(int i=0;i<two;i++) if(head) app.logHead("step %d of %s at %.2f",n+i,word,x); else app.log("step %d of %s at %.2f",n+i,word,x); fflush(stdout);
   FILE* f=fopen(fn.c_str(),"r"); sym_check(f!=nullptr,"log file"); char buf[1024]; int got=0; while(f&&fgets(buf,1024,f)){ std::string l(buf),want="step "+std::to_string(n+got)+" of "+text+" at 2.25"; size_t at=l.find(want); sym_check(at!=std::string::npos,"the formatted message"); sym_check(l.substr(0,at).find(std::to_string(me))!=std::string::npos,"the line names the rank"); got++; } sym_check(got==(head&&me?0:two),"one line per message on the ranks that print it"); sym_reach("done"); }
