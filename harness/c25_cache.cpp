// @title Caching never changes results
// @bounds Caches: every sequence of 3 (thorough 4) operations (store, overwrite, query, read, copy) over four keys (two of equal length differing only at the end, a prefix of both, the empty key) with arbitrary real values, for scalars and matrices, starting empty or from an existing map. Operator caching: uniform meshes of 1 and 4 patches (2 to 3 cells per side) and adaptive meshes of 7 leaves (3 cells per side), built once and twice, arbitrary right-hand sides and boundary values, two sets of coefficients that do not vary over the domain.
// @stubs p4est: model over the real data structures; PETSc KSP/Mat solve and dgesv: exact rational solution (coefficients are constants); MPI: one rank.
// @outside Larger meshes; operator caching with coefficients that vary over the domain (one operator is shared by patches of equal size, which is what the option asks for); changing the solver between builds; rounding error.
// @entry q_sequence reach=done
// @entry q_matrix reach=done
// @entry q_uniform reach=done
// @entry q_adaptive reach=done
// @entry q_rebuild reach=done
#include "hps.hpp"
#include <DataCache.hpp>
static const char* KEYS[4]={"T_leaf_level_1","T_leaf_level_2","T_leaf",""};
template<class C,class V> static void agrees(C& c,std::map<std::string,V>& ref,const char* m){ for(int k=0;k<4;k++) sym_check(c.contains(KEYS[k])==(ref.count(KEYS[k])>0),M_("%s: contains(key %d)",m,k)); }
ENTRY q_sequence(){ EF::DataCache<double> c; std::map<std::string,double> ref; if(sym_choose("start",0,1)){ ref["T_leaf"]=sym_double("init"); ref["x"]=2; c=EF::DataCache<double>(ref); sym_check(c.contains("x"),"initial key"); } agrees(c,ref,"start");
  for(int i=0;i<TH(3,4);i++){ int op=sym_choose(N_("op",i).c_str(),0,3),k=sym_choose(N_("key",i).c_str(),0,TH(2,3)); 
    if(op==0){ double v=symd("v",i); c[KEYS[k]]=v; ref[KEYS[k]]=v; }
    else if(op==1){ bool has=c.contains(KEYS[k]); sym_check(has==(ref.count(KEYS[k])>0),"contains"); }
    else if(op==2){ if(ref.count(KEYS[k])) sym_check_eq(c[KEYS[k]],ref[KEYS[k]],"value read back"); else continue; }
    else { EF::DataCache<double> d=c; double v=symd("w",i); d[KEYS[k]]=v; sym_check_eq(d[KEYS[k]],v,"value stored in a copy"); }
    agrees(c,ref,"sequence"); for(auto& kv:ref) sym_check_eq(c[kv.first],kv.second,"stored value"); } sym_reach("done"); }
ENTRY q_matrix(){ EF::DataCache<Mat_> c; RM A=symRM("A",2,3),B=symRM("B",3,1); c["a"]=toM(A); Mat_ x=c["a"]; c["b"]=toM(B); eqM(c["a"],A,"first matrix"); eqM(c["b"],B,"second matrix"); x(0,0)=5; eqM(c["a"],A,"entry after changing a copy"); c["a"]=toM(B); eqM(c["a"],B,"overwritten matrix"); eqM(c["b"],B,"other matrix"); sym_check(c.contains("a")&&c.contains("b")&&!c.contains("c")&&!c.contains("ab"),"keys"); sym_reach("done"); }
static void mk(World& w,int shape,int co){ if(co==0) w.sol=solverOf([](double,double){return 1.0;},[](double,double){return 1.0;},[](double,double){return 0.0;}); else w.sol=solverOf([](double,double){return 0.5;},[](double,double){return 3.0;},[](double,double){return -2.0;});
  if(shape<0) w.uniform(-shape-1); else w.refine([&](double x,double y){ double xm=(w.r.xl+w.r.xu)/2,ym=(w.r.yl+w.r.yu)/2; bool L=x<xm,B=y<ym; return shape==0?L&&B:shape==1?!L&&!B:shape==2?!L&&B:L&&!B; },1,2); }
static void both(int n,int shape,int rc,int co,int builds){ int lv=shape<0?-shape-1:2; Rect r=rectChoice(rc,n<<lv); World a(r,n),b(r,n); mk(a,shape,co); mk(b,shape,co); HPS_ HA(MPI_COMM_WORLD,a.mesh,a.sol),HB(MPI_COMM_WORLD,b.mesh,b.sol); SymFn f; f.nm="f"; BC bc(2);
  setOpts(false,true); for(int k=0;k<builds;k++) runBuild(HA); setOpts(false,false); runBuild(HB); auto LA=leavesOf(a.mesh),LB=leavesOf(b.mesh); sym_check(LA.size()==LB.size(),"same mesh"); if(LA.size()!=LB.size()) return;
  for(size_t i=0;i<LA.size();i++){ RM T=getM(LB[i].p->matrixT()); eqM(LA[i].p->matrixT(),T,M_("operator of leaf %s",LA[i].path.c_str())); } RM T=getM(b.mesh.quadtree.root().matrixT()); eqM(a.mesh.quadtree.root().matrixT(),T,"root operator");
  setOpts(false,true); runUp(HA,f); runSolve(HA,bc); setOpts(false,false); runUp(HB,f); runSolve(HB,bc); for(size_t i=0;i<LA.size();i++){ RV u=getV(LB[i].p->vectorU()); eqV(LA[i].p->vectorU(),u,M_("solution on leaf %s",LA[i].path.c_str())); } sym_reach("done"); }
ENTRY q_uniform(){ int level=sym_choose("level",0,1); both(sym_choose("n",2,3),-level-1,sym_choose("rect",0,2),sym_choose("coefficients",0,1),1); }
ENTRY q_adaptive(){ both(3,sym_choose("shape",0,3),1,sym_choose("coefficients",0,1),1); }
ENTRY q_rebuild(){ both(3,sym_choose("shape",-2,0),2,sym_choose("coefficients",0,1),2); }
