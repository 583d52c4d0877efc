// @title Traversals visit every local node exactly once in the promised order
// @bounds Every forest shape of up to two levels and every single branch of three (thorough four) levels for each of the six traversals; every history of two (thorough three) traversals over two trees, of one forest or of two; every early stop; two ranks with every contiguous partition that leaves no rank without leaves (traversals without communication).
// @stubs p4est: model of 2.3.6 over the real data structures, p4est_search_reorder included (the installed library does not have it).
// @outside Bushier trees of three and more levels; starting a traversal of a tree from inside one of the same tree's visitors.
// @entry t_shapes reach=done
// @entry t_branch reach=done
// @entry t_stop reach=done
// @entry t_history reach=done
// @entry t_same reach=done
// @entry t_ranks ranks=2 reach=done
#include "tree.hpp"
struct Ev { std::string path; bool family; };
static std::vector<Ev> expected(Forest_& f,int kind,int me,const std::string& stop){ // kinds: 0 pre, 1 pre data, 2 post, 3 post data, 4 merge, 5 split
  std::vector<Ev> o; std::vector<QInfo*> st; bool post=kind==2||kind==3||kind==4; auto put=[&](QInfo* q){ o.push_back({q->path,kind>=4&&!q->leaf}); };
  for(auto&q:f.q){ if(!shared(q,me)) continue; if(stop.size()&&q.path.size()>stop.size()&&q.path.compare(0,stop.size(),stop)==0) continue; if(!post){ put(&q); continue; } while(st.size()&&!(q.path.size()>st.back()->path.size()&&q.path.compare(0,st.back()->path.size(),st.back()->path)==0)){ put(st.back()); st.pop_back(); } st.push_back(&q); } while(st.size()){ put(st.back()); st.pop_back(); } return o; }
static const char* KN[6]={"pre-order","pre-order over data","post-order","post-order over data","merge","split"};
static void walk(Tree_& t,Forest_& f,int kind,const std::string& stop,const char* m){ int me; MPI_Comm_rank(MPI_COMM_WORLD,&me); std::vector<Ev> want=expected(f,kind,me,stop); std::vector<Ev> got; std::vector<Node_*> nodes; const char* kn=KN[kind];
  std::map<std::string,Node_*> held; for(auto&kv:t.map) if(kv.second) held[kv.first]=kv.second;
  std::function<int(Node_*)> vn=[&](Node_* n){ got.push_back({n->path,false}); nodes.push_back(n); return n->path==stop?0:1; };
  std::function<void(Patch_&)> vd=[&](Patch_& d){ std::string p="?"; Node_* w=nullptr; for(auto&kv:held) if(&kv.second->data==&d){ p=kv.first; w=kv.second; } got.push_back({p,false}); nodes.push_back(w); };
  std::function<int(Node_*,std::vector<Node_*>)> vf=[&](Node_* n,std::vector<Node_*> c){ got.push_back({n->path,true}); nodes.push_back(n); std::string pp=n->path; sym_check(c.size()==4,M_("%s, %s: four children of %s",m,kn,pp.c_str())); for(size_t i=0;i<c.size()&&i<4;i++){ auto it=held.find(pp+(char)('0'+i)); sym_check(it!=held.end()&&c[i]==it->second,M_("%s, %s: child %d of %s",m,kn,(int)i,pp.c_str())); } return n->path==stop?0:1; };
  int mark=0; f.p->user_pointer=&mark; if(kind==0) t.traversePreOrder(vn); else if(kind==1) t.traversePreOrder(vd); else if(kind==2) t.traversePostOrder(vn); else if(kind==3) t.traversePostOrder(vd); else if(kind==4) t.merge(vn,vf); else t.split(vn,vf);
  sym_check(f.p->user_pointer==&mark,M_("%s, %s: the forest's user pointer is as before",m,kn)); f.p->user_pointer=nullptr;
  sym_check(got.size()==want.size(),M_("%s, %s: %d visits instead of %d",m,kn,(int)got.size(),(int)want.size())); for(size_t i=0;i<got.size()&&i<want.size();i++){ sym_check(got[i].path==want[i].path,M_("%s, %s: visit %d is %s instead of %s",m,kn,(int)i,std::string(got[i].path).c_str(),std::string(want[i].path).c_str())); sym_check(got[i].family==want[i].family,M_("%s, %s: visit %d is of the wrong sort",m,kn,(int)i)); auto it=held.find(want[i].path); sym_check(it!=held.end()&&nodes[i]==it->second,M_("%s, %s: visit %d is of a node of another tree",m,kn,(int)i)); }
  int now=0; for(auto&kv:t.map) if(kv.second){ now++; auto it=held.find(kv.first); sym_check(it!=held.end()&&it->second==kv.second,M_("%s, %s: the tree's nodes are unchanged",m,kn)); } sym_check(now==(int)held.size(),M_("%s, %s: the tree's nodes are unchanged",m,kn)); }
static Rect unitR(){ return Rect{0,1,-1,1}; }
ENTRY t_shapes(){ Shape s=pickShape(2); int k=sym_choose("traversal",0,5); Forest_ f=plan(s,unitR(),1); ranges(f); grow(f,s); Patch_ root=rootPatch(unitR(),1,1); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); Tree_ t(MPI_COMM_WORLD,f.p,root,fac); walk(t,f,k,"","tree"); fell(f); sym_reach("done"); }
ENTRY t_branch(){ Shape s=pickBranch(TH(3,4)); int k=sym_choose("traversal",0,5); Forest_ f=plan(s,unitR(),1); ranges(f); grow(f,s); Patch_ root=rootPatch(unitR(),1,1); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); Tree_ t(MPI_COMM_WORLD,f.p,root,fac); walk(t,f,k,"","branch"); fell(f); sym_reach("done"); }
ENTRY t_stop(){ // a visitor that returns zero keeps a pre-order traversal or a split from descending below that node, and no more than that
  Shape s=pickShape(2); int k=sym_choose("split",0,1)?5:0; Forest_ f=plan(s,unitR(),1); ranges(f); grow(f,s); Patch_ root=rootPatch(unitR(),1,1); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); Tree_ t(MPI_COMM_WORLD,f.p,root,fac); int at=sym_choose("stop at",0,(int)f.q.size()-1); walk(t,f,k,f.q[at].path,"stopped"); walk(t,f,k,"","after a stopped one"); fell(f); sym_reach("done"); }
ENTRY t_history(){ // two trees over forests of their own
  Shape s1,s2; s1.maxl=2; s1.split={"0",std::string("0")+(char)('0'+sym_choose("first",0,3))}; s2.maxl=1; if(sym_choose("second",0,1)) s2.split={"0"}; Forest_ f=plan(s1,unitR(),1),g=plan(s2,unitR(),1); ranges(f); ranges(g); grow(f,s1); grow(g,s2); Patch_ ra=rootPatch(unitR(),1,1),rb=rootPatch(unitR(),1,1); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); Tree_ a(MPI_COMM_WORLD,f.p,ra,fac),b(MPI_COMM_WORLD,g.p,rb,fac);
  for(int i=0;i<TH(2,3);i++){ int w=sym_choose(N_("tree",i).c_str(),0,1),k=sym_choose(N_("traversal",i).c_str(),0,5); if(w) walk(b,g,k,"",M_("step %d, second tree",i)); else walk(a,f,k,"",M_("step %d, first tree",i)); } fell(f); fell(g); sym_reach("done"); }
ENTRY t_same(){ // two trees over one forest, and a tree moved into another
  Shape s=pickShape(1); Forest_ f=plan(s,unitR(),1); ranges(f); grow(f,s); Patch_ ra=rootPatch(unitR(),1,1),rb=rootPatch(unitR(),1,1); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); Tree_ a(MPI_COMM_WORLD,f.p,ra,fac),b(MPI_COMM_WORLD,f.p,rb,fac);
  for(int i=0;i<2;i++){ int w=sym_choose(N_("tree",i).c_str(),0,1),k=sym_choose(N_("traversal",i).c_str(),0,5); walk(w?b:a,f,k,"",M_("step %d, %s tree of one forest",i,w?"second":"first")); } Tree_ c; c=std::move(a); int k=sym_choose("traversal last",0,5); walk(c,f,k,"","moved"); fell(f); sym_reach("done"); }
ENTRY t_ranks(){ Shape s=pickShape(TH(2,2)); if(s.split.empty()) sym_assume(0); int k=sym_choose("traversal",0,3); Forest_ f=plan(s,unitR(),2); pickPartition(f,false); sym_ranks(2); grow(f,s); Patch_ root=rootPatch(unitR(),1,1); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); Tree_ t(MPI_COMM_WORLD,f.p,root,fac); walk(t,f,k,"","ranks"); fell(f); sym_reach("done"); }
