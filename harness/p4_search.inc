// p4est_search_reorder over a real or model p4est_t (single tree): visits every quadrant overlapping the local leaves from the root down;
// the pre callback may stop the descent, the post callback runs after the children.
static int p4m_skip=0; // a nonzero skip_levels lets the search skip to the nearest common ancestor of the local leaves below a quadrant
static int p4m_rec(p4est_t* p,p4est_quadrant_t q,p4est_quadrant_t* lq,int lo,int hi,p4est_search_local_t pre,p4est_search_local_t post,void* point){
  if(lo>=hi) return 0; if(p4m_skip) for(;;){ int in=0; if(q.level>=lq[lo].level) break; int h=P4EST_QUADRANT_LEN(q.level+1); p4est_qcoord_t x=lq[lo].x&~(h-1),y=lq[lo].y&~(h-1); for(int i=lo;i<hi;i++) in+=lq[i].x>=x&&lq[i].x<x+h&&lq[i].y>=y&&lq[i].y<y+h; if(in<hi-lo) break; q.level++; q.x=x; q.y=y; } p4est_quadrant_t* arg=&q; int num=-1; if(hi==lo+1&&lq[lo].level==q.level){ arg=&lq[lo]; num=lo; }
  int go=1; if(pre) go=pre(p,0,arg,num,point);
  if(go&&num<0){ int h=P4EST_QUADRANT_LEN(q.level+1); for(int c=0;c<4;c++){ p4est_quadrant_t k=q; k.level=q.level+1; k.x+=(c&1)?h:0; k.y+=(c&2)?h:0; int a=lo; while(a<hi&&!(lq[a].x>=k.x&&lq[a].x<k.x+h&&lq[a].y>=k.y&&lq[a].y<k.y+h)) a++; int b=a; while(b<hi&&lq[b].x>=k.x&&lq[b].x<k.x+h&&lq[b].y>=k.y&&lq[b].y<k.y+h) b++; p4m_rec(p,k,lq,a,b,pre,post,point); } }
  if(post) post(p,0,arg,num,point); return 0; }
extern "C" void p4est_search_reorder(p4est_t* p,int skip_levels,void* reorder,p4est_search_local_t pre,p4est_search_local_t post,void* point,sc_array_t* points){
  if(p->first_local_tree<0||p->local_num_quadrants==0) return; p4est_tree_t* t=p4est_tree_array_index(p->trees,0); p4est_quadrant_t r; memset(&r,0,sizeof r); p4m_skip=skip_levels; r.p.which_tree=0; p4m_rec(p,r,(p4est_quadrant_t*)t->quadrants.array,0,(int)t->quadrants.elem_count,pre,post,point); }
