// @title The quadtree mirrors the forest, one node per quadrant tiling the domain
// @bounds Every forest shape of up to two levels (17 shapes) and every single branch of three (thorough four) levels, on a rectangle with arbitrary real bounds, 1 to 4 cells per side; one rank, and every contiguous partition over two and three ranks, ranks without leaves included; building, moving and rebuilding a tree.
// @stubs p4est: model of 2.3.6 over the real data structures (shape given by the refinement callback); MPI: simulated ranks with the standard's matching rules.
// @outside Bushier trees of three and more levels; more than three ranks; rounding of the rectangle bounds.
// @entry t_shapes reach=done
// @entry t_branch reach=done
// @entry t_again reach=done
// @entry t_mesh reach=done
// @entry t_two ranks=2 reach=done
// @entry t_three ranks=3 reach=done
#include "tree.hpp"
static void tiles(Forest_& f,Tree_& t){ long n=0; for(auto&q:f.q) if(q.leaf){ Node_* nd=t.map[q.path]; if(nd&&nd->leaf) n++; } int nl=0; for(auto&kv:t.map) if(kv.second&&kv.second->leaf) nl++; sym_check(nl==n,"every leaf node is a leaf of the forest"); }
static void one(Shape& s,int nx,int ny,const char* m){ Rect r=symRectR(); Forest_ f=plan(s,r,1); ranges(f); grow(f,s); Patch_ root=rootPatch(r,nx,ny); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); int mark=0; f.p->user_pointer=&mark; Tree_ t(MPI_COMM_WORLD,f.p,root,fac); sym_check(f.p->user_pointer==&mark,"the forest's user pointer is restored"); mirrors(t,f,nx,ny,true,m); tiles(f,t); sym_check(t.p4est==f.p,"the tree refers to its forest"); eqRect(root.grid(),r,nx,ny,"the prototype is unchanged"); fell(f); }
ENTRY t_shapes(){ Shape s=pickShape(2); one(s,sym_choose("nx",1,2),sym_choose("ny",1,2),"tree"); sym_reach("done"); }
ENTRY t_branch(){ Shape s=pickBranch(TH(3,4)); one(s,4,3,"branch"); sym_reach("done"); }
ENTRY t_again(){ // a tree moved into another, and a second tree over a second forest
  Rect r=symRectR(); Shape s1=pickShape(1),s2; s2.maxl=2; s2.split={"0",std::string("0")+(char)('0'+sym_choose("second",0,3))}; Forest_ f=plan(s1,r,1),g=plan(s2,r.child(1),1); ranges(f); ranges(g); grow(f,s1); grow(g,s2); Patch_ ra=rootPatch(r,2,2),rb=rootPatch(r.child(1),3,2); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD);
  Tree_ a(MPI_COMM_WORLD,f.p,ra,fac),b(MPI_COMM_WORLD,g.p,rb,fac); mirrors(a,f,2,2,true,"first"); mirrors(b,g,3,2,true,"second"); Tree_ c; c=std::move(a); mirrors(c,f,2,2,true,"moved"); mirrors(b,g,3,2,true,"second after moving the first"); c=Tree_(MPI_COMM_WORLD,g.p,rb,fac); mirrors(c,g,3,2,true,"replaced"); sym_check(c.p4est==g.p,"the tree refers to its new forest"); fell(f); fell(g); sym_reach("done"); }
ENTRY t_mesh(){ // through the mesh: shapes chosen by the refinement criterion
  int n=2,cell=sym_choose("cell",0,15); World w(symRectR(),n); double hx=(w.r.xu-w.r.xl)/4,hy=(w.r.yu-w.r.yl)/4; (void)hx; (void)hy; int k=0; w.refine([&](double,double){ return k++==cell; },1,2); int lv=0; for(auto&kv:w.mesh.quadtree.map) if(kv.second&&kv.second->leaf){ Rect r=w.r; for(size_t i=1;i<kv.first.size();i++) r=r.child(kv.first[i]-'0'); eqRect(kv.second->data.grid(),r,n,n,"leaf of the mesh"); sym_check(kv.second->path==kv.first&&kv.second->level==(int)kv.first.size()-1,"leaf path and level"); lv+=kv.second->level==1?4:1; } sym_check(lv==16,"the leaves tile the domain"); sym_reach("done"); }
static void many(int P,bool bushy){ Shape s; if(bushy) s=pickShape(2); else { s.maxl=2; s.split={"0"}; int c=sym_choose("split child",0,4); if(c<4) s.split.push_back(std::string("0")+(char)('0'+c)); } Rect r=symRectR(); Forest_ f=plan(s,r,P); pickPartition(f,true); sym_ranks(P); grow(f,s); Patch_ root=rootPatch(r,2,3); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); Tree_ t(MPI_COMM_WORLD,f.p,root,fac); mirrors(t,f,2,3,true,"ranks"); fell(f); sym_reach("done"); }
ENTRY t_two(){ many(2,true); }
ENTRY t_three(){ many(3,false); }
