// Forests of symbolic shape over a symbolic partition, and what the quadtree built from them must contain.
#pragma once
#include "hps.hpp"
#include <p4est_extended.h>
#include <p4est_bits.h>
#include <p4est_algorithms.h>
typedef EF::Quadtree<Patch_> Tree_;
#define sym_ranks(n) (sym_mpi_sync(),sym_ranks(n)) // every simulated run uses the weakest progress MPI promises
// shape: which quadrants are split; path-indexed
struct Shape { std::vector<std::string> split; int maxl; bool has(const std::string& p) const { for(auto&s:split) if(s==p) return true; return false; } };
static inline void pickRec(Shape& s,const std::string& p,int full){ int l=(int)p.size()-1; if(l>=s.maxl) return; bool v; if(l<full) v=sym_choose(("split "+p).c_str(),0,1); else v=false; if(v){ s.split.push_back(p); for(int c=0;c<4;c++) pickRec(s,p+(char)('0'+c),full); } }
// every shape of at most `full` levels
static inline Shape pickShape(int full){ Shape s; s.maxl=full; pickRec(s,"0",full); return s; }
// one branch refined down to depth levels (branch index free at each level), the rest uniform at level base
static inline Shape pickBranch(int depth){ Shape s; s.maxl=depth; std::string p="0"; for(int l=0;l<depth;l++){ s.split.push_back(p); p+=(char)('0'+sym_choose(("branch "+std::to_string(l)).c_str(),0,3)); } return s; }
struct QInfo { std::string path; int level,x,y; bool leaf; long lo,hi; int pfirst,plast; Rect r; }; // in pre-order; [lo,hi) = its leaves
static inline void listRec(const Shape& s,const std::string& p,Rect r,int x,int y,std::vector<QInfo>& o,long& nl){ QInfo q; q.path=p; q.level=(int)p.size()-1; q.x=x; q.y=y; q.r=r; q.lo=nl; q.leaf=!s.has(p); size_t k=o.size(); o.push_back(q); if(q.leaf) nl++; else { int h=P4EST_QUADRANT_LEN(q.level+1); for(int c=0;c<4;c++) listRec(s,p+(char)('0'+c),r.child(c),x+(c&1?h:0),y+(c&2?h:0),o,nl); } o[k].hi=nl; }
struct Forest_ { std::vector<QInfo> q; long leaves=0; std::vector<long> first; p4est_connectivity_t* conn=nullptr; p4est_t* p=nullptr; int P=1; };
static inline Forest_ plan(const Shape& s,Rect r,int P){ Forest_ f; f.P=P; listRec(s,"0",r,0,0,f.q,f.leaves); f.first.assign(P+1,0); f.first[P]=f.leaves; return f; }
static inline void ranges(Forest_& f){ for(auto&q:f.q){ int a=0; while(f.first[a+1]<=q.lo) a++; int b=a; while(f.first[b+1]<q.hi) b++; q.pfirst=a; q.plast=b; } }
// any contiguous partition; emptyOk: ranks may be without leaves
static inline void pickPartition(Forest_& f,bool emptyOk){ int e=emptyOk?0:1; for(int r=1;r<f.P;r++){ long lo=f.first[r-1]+e,hi=f.leaves-(f.P-r)*e; if(lo>hi) sym_assume(0); f.first[r]=sym_choose(("first leaf of rank "+std::to_string(r)).c_str(),(int)lo,(int)hi); } ranges(f); }
static inline void evenPartition(Forest_& f){ for(int r=1;r<f.P;r++) f.first[r]=f.leaves*r/f.P; ranges(f); }
static const Shape* gShape=nullptr;
static inline std::string pathAt(int x,int y,int l){ std::string p="0"; for(int k=1;k<=l;k++) p+=(char)('0'+((x>>(P4EST_MAXLEVEL-k))&1)+2*((y>>(P4EST_MAXLEVEL-k))&1)); return p; }
static inline void grow(Forest_& f,const Shape& s){ // every rank calls it
  f.conn=p4est_connectivity_new_unitsquare(); f.p=p4est_new_ext(MPI_COMM_WORLD,f.conn,0,0,1,0,NULL,NULL); gShape=&s;
  p4est_refine_ext(f.p,1,-1,[](p4est_t*,p4est_topidx_t,p4est_quadrant_t* q)->int{ return gShape->has(pathAt(q->x,q->y,q->level)); },NULL,NULL);
  std::vector<p4est_locidx_t> num(f.P); for(int r=0;r<f.P;r++) num[r]=f.first[r+1]-f.first[r]; p4est_partition_given(f.p,num.data()); int me; MPI_Comm_rank(MPI_COMM_WORLD,&me); sym_check(f.p->local_num_quadrants==num[me],"forest partition"); }
static inline void fell(Forest_& f){ p4est_destroy(f.p); p4est_connectivity_destroy(f.conn); }
static inline bool shared(const QInfo& q,int rank){ return q.pfirst<=rank&&rank<=q.plast; }
static inline void eqRect(EF::FiniteVolumeGrid& g,Rect r,int nx,int ny,const char* m){ sym_check((int)g.nx()==nx&&(int)g.ny()==ny,M_("%s: cell counts",m)); sym_check_eq(g.xLower(),r.xl,M_("%s: x lower",m)); sym_check_eq(g.xUpper(),r.xu,M_("%s: x upper",m)); sym_check_eq(g.yLower(),r.yl,M_("%s: y lower",m)); sym_check_eq(g.yUpper(),r.yu,M_("%s: y upper",m)); sym_check_eq(g.dx()*nx,r.xu-r.xl,M_("%s: x spacing",m)); sym_check_eq(g.dy()*ny,r.yu-r.yl,M_("%s: y spacing",m)); }
static inline Rect symRectR(){ Rect r; r.xl=sym_double("xl"); r.xu=sym_double("xu"); r.yl=sym_double("yl"); r.yu=sym_double("yu"); sym_assume(r.xl<r.xu); sym_assume(r.yl<r.yu); return r; }
static inline Patch_ rootPatch(Rect r,int nx,int ny){ EF::FiniteVolumeGrid g(MPI_COMM_WORLD,nx,r.xl,r.xu,ny,r.yl,r.yu); return Patch_(MPI_COMM_WORLD,g); }
// the tree holds exactly the quadrants this rank shares
static inline void mirrors(Tree_& t,Forest_& f,int nx,int ny,bool comms,const char* m){ int me; MPI_Comm_rank(MPI_COMM_WORLD,&me); int held=0; for(auto&kv:t.map) if(kv.second) held++; int want=0;
  for(auto&q:f.q){ std::string ps=q.path; auto it=t.map.find(ps); Node_* nd=it==t.map.end()?nullptr:it->second; if(!shared(q,me)){ sym_check(nd==nullptr,M_("%s: rank %d holds a node for %s, which it does not share",m,me,ps.c_str())); continue; } want++;
    sym_check(nd!=nullptr,M_("%s: rank %d has no node for %s",m,me,ps.c_str())); if(!nd) continue;
    sym_check(nd->path==q.path,M_("%s: path of %s",m,ps.c_str())); sym_check(nd->level==q.level,M_("%s: level of %s",m,ps.c_str())); sym_check(nd->pfirst==q.pfirst&&nd->plast==q.plast,M_("%s: rank range of %s is %d..%d instead of %d..%d",m,ps.c_str(),nd->pfirst,nd->plast,q.pfirst,q.plast)); sym_check((nd->leaf!=0)==q.leaf,M_("%s: leaf flag of %s",m,ps.c_str())); eqRect(nd->data.grid(),q.r,nx,ny,M_("%s: patch of %s",m,ps.c_str()));
    if(comms&&nd->node_comm_set){ int sz,rk; MPI_Comm_size(nd->node_comm,&sz); MPI_Comm_rank(nd->node_comm,&rk); sym_check(sz==q.plast-q.pfirst+1&&rk==me-q.pfirst,M_("%s: communicator of %s",m,ps.c_str())); } else if(comms) sym_check(0,M_("%s: %s has no communicator",m,ps.c_str())); }
  sym_check(held==want,M_("%s: rank %d holds %d nodes instead of %d",m,me,held,want)); if(f.first[me+1]>f.first[me]){ Node_* r=t.map["0"]; if(r) sym_check(&t.root()==&r->data,"root data"); } }
