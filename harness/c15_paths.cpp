// @title Quadrant paths identify quadrants uniquely and encode ancestry
// @bounds Every quadrant position (symbolic 32-bit coordinates) at every level 0..18 (thorough 0..29, the library maximum) for the encoding; every pair of quadrants with levels 0..7 (thorough 0..12) for uniqueness and ancestry.
// @stubs p4est_quadrant_ancestor_id / child_id: executed from a model of p4est 2.3.6 (coordinate bits); the replay uses the real library.
// @assume Quadrants are valid: coordinates inside the unit tree and aligned to their level.
// @entry q_path reach=done
// @entry q_pair reach=same,ancestor,unrelated
#include "common.hpp"
#include <P4est.hpp>
static p4est_quadrant_t quad(const char* nm,int level){ p4est_quadrant_t q; memset(&q,0,sizeof q); q.level=level; int hi=P4EST_ROOT_LEN-1; q.x=sym_int(N_(nm,0).c_str(),0,hi); q.y=sym_int(N_(nm,1).c_str(),0,hi); int m=level?P4EST_QUADRANT_LEN(level)-1:P4EST_ROOT_LEN-1; sym_assume((q.x&m)==0); sym_assume((q.y&m)==0); return q; }
ENTRY q_path(){ int l=sym_choose("level",0,TH(18,29)); auto q=quad("q",l); auto o=q; std::string s=EF::p4est::p4est_quadrant_path(&q); sym_check((int)s.size()==l+1,"path has one character more than the level"); if((int)s.size()!=l+1) return; sym_check(s[0]=='0',"path starts at the root");
  for(int k=1;k<=l;k++){ int xb=(q.x>>(P4EST_MAXLEVEL-k))&1,yb=(q.y>>(P4EST_MAXLEVEL-k))&1; sym_check(s[k]=='0'+xb+2*yb,M_("path character %d is the child index at that level",k)); } sym_check(q.x==o.x&&q.y==o.y&&q.level==o.level,"quadrant unchanged"); sym_reach("done"); }
static bool prefixOf(const std::string& a,const std::string& b){ if(a.size()>b.size()) return false; bool r=true; for(size_t i=0;i<a.size();i++) r=r&(a[i]==b[i]); return r; }
ENTRY q_pair(){ int la=sym_choose("la",0,TH(7,12)),lb=sym_choose("lb",la,TH(7,12)); auto a=quad("a",la),b=quad("b",lb); std::string pa=EF::p4est::p4est_quadrant_path(&a),pb=EF::p4est::p4est_quadrant_path(&b); int m=la?~(P4EST_QUADRANT_LEN(la)-1):0; bool anc=((b.x&m)==(a.x&m))&((b.y&m)==(a.y&m)); bool pre=prefixOf(pa,pb);
  sym_check(anc==pre,"path is a prefix exactly when the quadrant is an ancestor or the same quadrant"); if(pre) sym_reach(la==lb?"same":"ancestor"); else sym_reach("unrelated"); if(la==lb) sym_check(pre==((a.x==b.x)&(a.y==b.y)),"equal paths only for the same quadrant"); }
