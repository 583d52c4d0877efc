// Model of the parts of p4est 2.3.6 the library uses: one tree, unit square, any rectangle; real struct layouts.
#include "sym.h"
#include <p4est.h>
#include <p4est_bits.h>
#include <p4est_extended.h>
#include <p4est_search.h>
#include <p4est_vtk.h>
#include <p4est_algorithms.h>
#include <vector>
#include <cstring>
#include <mpi.h>
typedef p4est_quadrant_t Q_;
namespace { struct Forest : p4est_t { std::vector<Q_> leaves; std::vector<long> first; p4est_tree_t tree; sc_array_t arr; };
Q_ mkq(int x,int y,int l){ Q_ q; memset(&q,0,sizeof q); q.x=x; q.y=y; q.level=l; q.p.which_tree=0; return q; }
int len(int l){ return P4EST_QUADRANT_LEN(l); }
void sync(Forest* f){ // publish the local part in the real structures
  int P=f->mpisize,r=f->mpirank; long a=f->first[r],b=f->first[r+1]; f->local_num_quadrants=b-a; f->global_num_quadrants=f->leaves.size(); f->first_local_tree=b>a?0:-1; f->last_local_tree=b>a?0:-2;
  if(f->global_first_quadrant) free(f->global_first_quadrant); f->global_first_quadrant=(p4est_gloidx_t*)malloc(sizeof(p4est_gloidx_t)*(P+1)); for(int i=0;i<=P;i++) f->global_first_quadrant[i]=f->first[i];
  free(f->tree.quadrants.array); memset(&f->tree,0,sizeof f->tree); f->tree.quadrants.elem_size=sizeof(Q_); f->tree.quadrants.elem_count=b-a; f->tree.quadrants.array=(char*)malloc((b-a)*sizeof(Q_)+1); for(long i=a;i<b;i++){ memcpy(f->tree.quadrants.array+(i-a)*sizeof(Q_),&f->leaves[i],sizeof(Q_)); f->tree.quadrants_per_level[f->leaves[i].level]++; if(f->leaves[i].level>f->tree.maxlevel) f->tree.maxlevel=f->leaves[i].level; }
  f->arr.elem_size=sizeof(p4est_tree_t); f->arr.elem_count=1; f->arr.array=(char*)&f->tree; f->trees=&f->arr; f->revision++; }
void exchange(Forest* f,const std::vector<Q_>& mine){ // every rank learns all leaves
  int P=f->mpisize; if(P==1){ f->leaves=mine; f->first={0,(long)mine.size()}; sync(f); return; }
  std::vector<int> cnt(P),dis(P); int n=mine.size()*3; MPI_Allgather(&n,1,MPI_INT,cnt.data(),1,MPI_INT,f->mpicomm); int tot=0; for(int i=0;i<P;i++){ dis[i]=tot; tot+=cnt[i]; } std::vector<int> s(n+1),r(tot+1); for(size_t i=0;i<mine.size();i++){ s[3*i]=mine[i].x; s[3*i+1]=mine[i].y; s[3*i+2]=mine[i].level; }
  MPI_Allgatherv(s.data(),n,MPI_INT,r.data(),cnt.data(),dis.data(),MPI_INT,f->mpicomm); f->leaves.clear(); f->first.assign(P+1,0); for(int i=0;i<tot/3;i++) f->leaves.push_back(mkq(r[3*i],r[3*i+1],r[3*i+2])); for(int i=0;i<P;i++) f->first[i+1]=f->first[i]+cnt[i]/3; sync(f); }
void evenly(Forest* f){ int P=f->mpisize; long N=f->leaves.size(); f->first.assign(P+1,0); for(int i=0;i<=P;i++) f->first[i]=N*i/P; sync(f); }
void uniform(std::vector<Q_>& out,Q_ q,int l){ if(q.level==l){ out.push_back(q); return; } int h=len(q.level+1); for(int c=0;c<4;c++) uniform(out,mkq(q.x+((c&1)?h:0),q.y+((c&2)?h:0),q.level+1),l); }
void refineRec(Forest* f,std::vector<Q_>& out,Q_ q,bool rec,int maxl,p4est_refine_t fn,bool test,bool& any){ if(test&&q.level<maxl&&fn(f,0,&q)){ any=true; int h=len(q.level+1); for(int c=0;c<4;c++) refineRec(f,out,mkq(q.x+((c&1)?h:0),q.y+((c&2)?h:0),q.level+1),rec,maxl,fn,rec,any); return; } out.push_back(q); }
bool touch(const Q_&a,const Q_&b,bool corner){ int la=len(a.level),lb=len(b.level); int ox=std::min(a.x+la,b.x+lb)-std::max(a.x,b.x),oy=std::min(a.y+la,b.y+lb)-std::max(a.y,b.y); if(ox<0||oy<0) return false; if(ox==0&&oy==0) return corner; return true; } 
bool inside(const Q_&k,const Q_&q){ int h=len(q.level); return k.x>=q.x&&k.x<q.x+h&&k.y>=q.y&&k.y<q.y+h; } }
extern "C" {
p4est_connectivity_t* p4est_connectivity_new_copy(p4est_topidx_t nv,p4est_topidx_t nt,p4est_topidx_t nc,const double* v,const p4est_topidx_t* ttv,const p4est_topidx_t* ttt,const int8_t* ttf,const p4est_topidx_t* ttc,const p4est_topidx_t* co,const p4est_topidx_t* ctt,const int8_t* ctc){
  if(co){ sym_check(co[0]==0,"p4est: the corner offsets start at zero"); for(int i=0;i<nc;i++) sym_check(co[i]<=co[i+1],"p4est: corner offsets"); sym_check(!(nc==0&&co[0]>0),"p4est: corners without corners"); }
  sym_check(nt==1,"p4est model: one tree"); auto c=(p4est_connectivity_t*)calloc(1,sizeof(p4est_connectivity_t)); c->num_vertices=nv; c->num_trees=nt; c->num_corners=nc; c->vertices=(double*)malloc(sizeof(double)*3*nv); for(int i=0;i<3*nv;i++) c->vertices[i]=v[i]; c->tree_to_vertex=(p4est_topidx_t*)malloc(4*nt*sizeof(p4est_topidx_t)); c->tree_to_tree=(p4est_topidx_t*)malloc(4*nt*sizeof(p4est_topidx_t)); c->tree_to_face=(int8_t*)malloc(4*nt); for(int i=0;i<4*nt;i++){ c->tree_to_vertex[i]=ttv[i]; c->tree_to_tree[i]=ttt[i]; c->tree_to_face[i]=ttf[i]; sym_check(ttt[i]==i/4&&ttf[i]==i%4,"p4est model: the tree has no neighbours"); } return c; }
p4est_connectivity_t* p4est_connectivity_new_unitsquare(void){ static const double v[12]={0,0,0,1,0,0,0,1,0,1,1,0}; static const p4est_topidx_t ttv[4]={0,1,2,3},ttt[4]={0,0,0,0}; static const int8_t ttf[4]={0,1,2,3}; return p4est_connectivity_new_copy(4,1,0,v,ttv,ttt,ttf,nullptr,nullptr,nullptr,nullptr); }
void p4est_connectivity_destroy(p4est_connectivity_t* c){ free(c->vertices); free(c->tree_to_vertex); free(c->tree_to_tree); free(c->tree_to_face); free(c); }
p4est_t* p4est_new_ext(sc_MPI_Comm comm,p4est_connectivity_t* conn,p4est_locidx_t minq,int minl,int fill,size_t ds,p4est_init_t init,void* up){
  auto f=new Forest(); f->mpicomm=comm; MPI_Comm_size(comm,&f->mpisize); MPI_Comm_rank(comm,&f->mpirank); f->user_pointer=up; f->connectivity=conn; f->global_first_quadrant=nullptr; memset(&f->tree,0,sizeof f->tree); f->revision=-1;
  int l=minl<0?0:minl; while(!fill&&false) l++; if(!fill){ long need=(long)minq*f->mpisize; while(((long)1<<(2*l))<need) l++; } uniform(f->leaves,mkq(0,0,0),l); evenly(f); return f; }
p4est_t* p4est_new(sc_MPI_Comm comm,p4est_connectivity_t* conn,size_t ds,p4est_init_t init,void* up){ return p4est_new_ext(comm,conn,0,0,1,ds,init,up); }
void p4est_destroy(p4est_t* p){ auto f=(Forest*)p; free(f->global_first_quadrant); free(f->tree.quadrants.array); delete f; }
void p4est_refine_ext(p4est_t* p,int rec,int maxl,p4est_refine_t fn,p4est_init_t init,p4est_replace_t rep){ auto f=(Forest*)p; if(maxl<0||maxl>P4EST_QMAXLEVEL) maxl=P4EST_QMAXLEVEL; std::vector<Q_> out; bool any=false; std::vector<Q_> mine(f->leaves.begin()+f->first[f->mpirank],f->leaves.begin()+f->first[f->mpirank+1]); for(auto&q:mine) refineRec(f,out,q,rec,maxl,fn,true,any); exchange(f,out); }
void p4est_refine(p4est_t* p,int rec,p4est_refine_t fn,p4est_init_t init){ p4est_refine_ext(p,rec,-1,fn,init,nullptr); }
void p4est_coarsen_ext(p4est_t* p,int rec,int orphans,p4est_coarsen_t fn,p4est_init_t init,p4est_replace_t rep){ auto f=(Forest*)p; std::vector<Q_> m(f->leaves.begin()+f->first[f->mpirank],f->leaves.begin()+f->first[f->mpirank+1]); bool again=true; while(again){ again=false; for(size_t i=0;i+4<=m.size();i++){ int h=len(m[i].level); bool fam=m[i].level>0&&!(m[i].x&h)&&!(m[i].y&h); for(int c=1;c<4&&fam;c++) fam=m[i+c].level==m[i].level&&m[i+c].x==m[i].x+((c&1)?h:0)&&m[i+c].y==m[i].y+((c&2)?h:0); if(!fam) continue; Q_* fq[4]={&m[i],&m[i+1],&m[i+2],&m[i+3]}; if(fn(f,0,fq)){ m[i].level--; m.erase(m.begin()+i+1,m.begin()+i+4); if(rec) again=true; } } } exchange(f,m); }
void p4est_coarsen(p4est_t* p,int rec,p4est_coarsen_t fn,p4est_init_t init){ p4est_coarsen_ext(p,rec,0,fn,init,nullptr); }
void p4est_balance_ext(p4est_t* p,p4est_connect_type_t bt,p4est_init_t init,p4est_replace_t rep){ auto f=(Forest*)p; bool corner=bt==P4EST_CONNECT_CORNER; std::vector<Q_> L=f->leaves,own; std::vector<int> ow; for(int r=0;r<f->mpisize;r++) for(long i=f->first[r];i<f->first[r+1];i++) ow.push_back(r); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<L.size()&&!ch;i++) for(size_t j=0;j<L.size()&&!ch;j++) if(L[j].level>L[i].level+1&&touch(L[i],L[j],corner)){ Q_ q=L[i]; int h=len(q.level+1),o=ow[i]; L.erase(L.begin()+i); ow.erase(ow.begin()+i); for(int c=3;c>=0;c--){ L.insert(L.begin()+i,mkq(q.x+((c&1)?h:0),q.y+((c&2)?h:0),q.level+1)); ow.insert(ow.begin()+i,o); } ch=true; } }
  f->leaves=L; f->first.assign(f->mpisize+1,0); for(int o:ow) f->first[o+1]++; for(int r=0;r<f->mpisize;r++) f->first[r+1]+=f->first[r]; sync(f); }
void p4est_balance(p4est_t* p,p4est_connect_type_t bt,p4est_init_t init){ p4est_balance_ext(p,bt,init,nullptr); }
p4est_gloidx_t p4est_partition_ext(p4est_t* p,int coarse,p4est_weight_t w){ sym_check(!w&&!coarse,"p4est model: uniform partition only"); evenly((Forest*)p); return 0; }
void p4est_partition(p4est_t* p,int coarse,p4est_weight_t w){ p4est_partition_ext(p,coarse,w); }
p4est_gloidx_t p4est_partition_given(p4est_t* p,const p4est_locidx_t* num){ auto f=(Forest*)p; f->first.assign(f->mpisize+1,0); for(int r=0;r<f->mpisize;r++) f->first[r+1]=f->first[r]+num[r]; sym_check(f->first[f->mpisize]==(long)f->leaves.size(),"p4est model: partition covers all leaves"); sync(f); return 0; }
static int p4all(Forest* f,Q_ q,long lo,long hi,int post,p4est_search_all_t fn){ if(lo>=hi) return 0; int r=f->mpirank; int pf=0; while(f->first[pf+1]<=lo) pf++; int pl=pf; while(f->first[pl+1]<hi) pl++; Q_* arg=&q; int num=-1; bool mine=pf==r&&pl==r; if(mine&&hi==lo+1&&f->leaves[lo].level==q.level){ num=lo-f->first[r]; arg=(Q_*)f->tree.quadrants.array+num; }
  // an unsplit remote quadrant's structure is not visible; p4est stops there
  int go=fn(f,0,arg,pf,pl,num,nullptr); bool desc=go&&num<0&&(pf<pl||mine);
  if(desc){ int h=len(q.level+1); for(int c=0;c<4;c++){ Q_ k=mkq(q.x+((c&1)?h:0),q.y+((c&2)?h:0),q.level+1); long a=lo; while(a<hi&&!inside(f->leaves[a],k)) a++; long b=a; while(b<hi&&inside(f->leaves[b],k)) b++; p4all(f,k,a,b,post,fn); } }
  if(post&&go) fn(f,0,arg,pf,pl,num,nullptr); return 0; }
void p4est_search_all(p4est_t* p,int post,p4est_search_all_t fn,p4est_search_all_t pt,sc_array_t* points){ auto f=(Forest*)p; sym_check(!points&&!pt,"p4est model: quadrant search only"); p4all(f,mkq(0,0,0),0,f->leaves.size(),post,fn); }
int p4est_quadrant_ancestor_id(const Q_* q,int l){ sym_check(0<=l&&l<=q->level,"p4est_quadrant_ancestor_id: level"); if(l==0) return 0; int b=P4EST_MAXLEVEL-l; return ((q->x>>b)&1)|(((q->y>>b)&1)<<1); }
int p4est_quadrant_child_id(const Q_* q){ return p4est_quadrant_ancestor_id(q,q->level); }
void p4est_quadrant_parent(const Q_* q,Q_* r){ sym_check(q->level>0,"p4est_quadrant_parent of the root"); int h=len(q->level); Q_ t=mkq(q->x&~h,q->y&~h,q->level-1); memcpy(r,&t,sizeof t); }
void p4est_quadrant_ancestor(const Q_* q,int l,Q_* r){ int m=~(len(l)-1); Q_ t=mkq(q->x&m,q->y&m,l); memcpy(r,&t,sizeof t); }
void p4est_quadrant_child(const Q_* q,Q_* r,int c){ int h=len(q->level+1); Q_ t=mkq(q->x|((c&1)?h:0),q->y|((c&2)?h:0),q->level+1); memcpy(r,&t,sizeof t); }
int p4est_quadrant_is_equal(const Q_* a,const Q_* b){ return a->level==b->level&&a->x==b->x&&a->y==b->y; }
int p4est_quadrant_is_ancestor(const Q_* a,const Q_* b){ return a->level<b->level&&((b->x^a->x)&~(len(a->level)-1))==0&&((b->y^a->y)&~(len(a->level)-1))==0; }
void p4est_qcoord_to_vertex(p4est_connectivity_t* c,p4est_topidx_t t,p4est_qcoord_t x,p4est_qcoord_t y,double v[3]){ const p4est_topidx_t* vi=c->tree_to_vertex+4*t; double ex=(double)x/P4EST_ROOT_LEN,ey=(double)y/P4EST_ROOT_LEN; double wx[2]={1-ex,ex},wy[2]={1-ey,ey}; for(int d=0;d<3;d++){ double s=0; for(int j=0;j<2;j++) for(int i=0;i<2;i++) s+=wy[j]*wx[i]*c->vertices[3*vi[2*j+i]+d]; v[d]=s; } }
int p4est_is_balanced(p4est_t* p,p4est_connect_type_t bt){ auto f=(Forest*)p; for(auto&a:f->leaves) for(auto&b:f->leaves) if(b.level>a.level+1&&touch(a,b,bt==P4EST_CONNECT_CORNER)) return 0; return 1; }
p4est_vtk_context_t* p4est_vtk_context_new(p4est_t* p,const char* fn){ char* c=(char*)malloc(256); snprintf(c,256,"%s",fn); return (p4est_vtk_context_t*)c; }
void p4est_vtk_context_set_scale(p4est_vtk_context_t* c,double s){ sym_check(sym_live(c),"vtk context is live"); }
p4est_vtk_context_t* p4est_vtk_write_header(p4est_vtk_context_t* c){ sym_check(sym_live(c),"vtk context is live"); return c; }
int p4est_vtk_write_footer(p4est_vtk_context_t* c){ sym_check(sym_live(c),"vtk context is live"); free(c); return 0; }
void p4est_vtk_context_destroy(p4est_vtk_context_t* c){ free(c); }
void p4est_vtk_write_file(p4est_t*,p4est_geometry_t*,const char*){}
}
#include "p4_search.inc"
