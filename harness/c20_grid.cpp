// @title Grid geometry and patch families are consistent
// @bounds Rectangles with arbitrary real bounds; 1..4 (thorough 8) cells per side independently; every child index; paths of up to four levels.
// @outside Rounding error; ranks other than one (the rank range is passed through as given).
// @entry grid reach=done,invalid
// @entry children reach=done
// @entry parent reach=done
// @entry patch reach=done
#include "common.hpp"
#include <Patches/FiniteVolume/FiniteVolume.hpp>
struct R4 { double xl,xu,yl,yu; };
static R4 symRect(){ R4 r{sym_double("xl"),sym_double("xu"),sym_double("yl"),sym_double("yu")}; sym_assume(r.xl<r.xu); sym_assume(r.yl<r.yu); return r; }
static void checkGrid(EF::FiniteVolumeGrid& g,int nx,int ny,R4 r,const char* m){
  sym_check(g.nx()==(size_t)nx&&g.ny()==(size_t)ny,M_("%s: cell counts",m)); sym_check_eq(g.xLower(),r.xl,M_("%s: x lower",m)); sym_check_eq(g.xUpper(),r.xu,M_("%s: x upper",m)); sym_check_eq(g.yLower(),r.yl,M_("%s: y lower",m)); sym_check_eq(g.yUpper(),r.yu,M_("%s: y upper",m));
  sym_check_eq(g.dx(),(r.xu-r.xl)/nx,M_("%s: dx",m)); sym_check_eq(g.dy(),(r.yu-r.yl)/ny,M_("%s: dy",m));
  for(int i=0;i<nx;i++){ double w=r.xl+(r.xu-r.xl)*(2*i+1)/(2*nx); sym_check_eq(g(0,i),w,M_("%s: x centre %d",m,i)); sym_check_eq(g.point(EF::DimensionIndex::X,i),w,M_("%s: x point %d",m,i)); }
  for(int i=0;i<ny;i++){ double w=r.yl+(r.yu-r.yl)*(2*i+1)/(2*ny); sym_check_eq(g(1,i),w,M_("%s: y centre %d",m,i)); sym_check_eq(g.point(EF::DimensionIndex::Y,i),w,M_("%s: y point %d",m,i)); } }
static R4 quad(R4 r,int c){ double xm=(r.xl+r.xu)/2,ym=(r.yl+r.yu)/2; return R4{c%2?xm:r.xl,c%2?r.xu:xm,c/2?ym:r.yl,c/2?r.yu:ym}; }
static void checkFresh(EF::FiniteVolumePatch& p,const char* m){ sym_check(p.n_coarsens==0&&p.vectorU().size()==0&&p.vectorF().size()==0&&p.vectorG().size()==0&&p.vectorH().size()==0&&p.matrixT().nrows()==0,M_("%s: a new patch carries no data",m)); }
static void mkPath(std::string& s,int lv){ s="0"; for(int i=0;i<lv;i++) s+=(char)('0'+sym_choose(N_("path",i).c_str(),0,3)); }
ENTRY grid(){ int nx=sym_choose("nx",1,TH(4,8)),ny=sym_choose("ny",1,TH(4,8)); R4 r=symRect(); EF::FiniteVolumeGrid g(MPI_COMM_SELF,nx,r.xl,r.xu,ny,r.yl,r.yu); checkGrid(g,nx,ny,r,"grid"); EF::FiniteVolumeGrid h=g; checkGrid(h,nx,ny,r,"copy"); EF::FiniteVolumeGrid k; k=g; checkGrid(k,nx,ny,r,"assigned"); checkGrid(g,nx,ny,r,"source of a copy");
  bool threw=false; try{ g.point((EF::DimensionIndex)2,0); }catch(std::exception&){ threw=true; } sym_check(threw,"unknown dimension is rejected"); sym_reach("invalid"); sym_reach("done"); }
typedef EF::Node<EF::FiniteVolumePatch> ND;
ENTRY children(){ int nx=sym_choose("nx",1,4),ny=sym_choose("ny",1,4),lv=sym_choose("level",0,TH(1,3)),c=sym_choose("child",0,3); R4 r=symRect(); std::string path; mkPath(path,lv);
  EF::FiniteVolumeGrid g(MPI_COMM_WORLD,nx,r.xl,r.xu,ny,r.yl,r.yu); EF::FiniteVolumePatch P(MPI_COMM_WORLD,g); EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); int p0=sym_int("p0",0,100),p1=sym_int("p1",0,100);
  ND* n=fac.createNode(P,path,lv,p0,p1); sym_check(n->path==path&&n->level==lv,"createNode path and level"); sym_check(n->pfirst==p0,"createNode first rank"); sym_check(n->plast==p1,"createNode last rank"); checkGrid(n->data.grid(),nx,ny,r,"createNode");
  int q0=sym_int("q0",0,100),q1=sym_int("q1",0,100); ND* k=fac.createChildNode(n,c,q0,q1); checkGrid(k->data.grid(),nx,ny,quad(r,c),M_("child %d",c)); sym_check(k->path==path+(char)('0'+c),"child path"); sym_check(k->level==lv+1,"child level"); sym_check(k->pfirst==q0,"child first rank"); sym_check(k->plast==q1,"child last rank"); checkFresh(k->data,"child");
  checkGrid(n->data.grid(),nx,ny,r,"parent after creating a child"); delete k; delete n; sym_reach("done"); }
ENTRY parent(){ int nx=sym_choose("nx",1,4),ny=sym_choose("ny",1,4),lv=sym_choose("level",0,TH(1,3)); R4 r=symRect(); std::string path; mkPath(path,lv);
  EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); std::vector<ND*> ch; for(int c=0;c<4;c++){ R4 s=quad(r,c); EF::FiniteVolumeGrid g(MPI_COMM_WORLD,nx,s.xl,s.xu,ny,s.yl,s.yu); ch.push_back(fac.createNode(EF::FiniteVolumePatch(MPI_COMM_WORLD,g),path+(char)('0'+c),lv+1,0,0)); }
  int p0=sym_int("p0",0,100),p1=sym_int("p1",0,100); ND* n=fac.createParentNode(ch,p0,p1); checkGrid(n->data.grid(),nx,ny,r,"parent"); sym_check(n->path==path,"parent path"); sym_check(n->level==lv,"parent level"); sym_check(n->pfirst==p0,"parent first rank"); sym_check(n->plast==p1,"parent last rank"); checkFresh(n->data,"parent");
  for(int c=0;c<4;c++){ ND* k=fac.createChildNode(n,c,0,0); checkGrid(k->data.grid(),nx,ny,quad(r,c),M_("child %d of the recovered parent",c)); sym_check(k->path==ch[c]->path&&k->level==ch[c]->level,"child of the recovered parent: path and level"); checkGrid(ch[c]->data.grid(),nx,ny,quad(r,c),"sibling unchanged"); delete k; } for(auto*x:ch) delete x; delete n; sym_reach("done"); }
ENTRY patch(){ int n=sym_choose("n",1,TH(8,16)),k=sym_choose("coarsens",0,3); R4 r=symRect(); EF::FiniteVolumeGrid g(MPI_COMM_WORLD,n,r.xl,r.xu,n,r.yl,r.yu); EF::FiniteVolumePatch P(MPI_COMM_WORLD,g); checkGrid(P.grid(),n,n,r,"patch"); checkFresh(P,"patch"); P.n_coarsens=k; sym_check(P.size()==n>>k,"patch size after coarsening"); EF::FiniteVolumePatch Q=P; sym_check(Q.n_coarsens==k,"copy keeps the coarsening count"); checkGrid(Q.grid(),n,n,r,"patch copy"); sym_reach("done"); }
