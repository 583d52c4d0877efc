// @title Mesh refinement follows the criterion and its arrays describe the cells
// @bounds Any criterion over the cell centres for patches of 1x1, 2x1 and 1x2 cells with minimum level 0..2 and maximum level up to 2; criteria that hold along one branch of up to three (thorough four) levels, or two branches (thorough), with 1x1 to 2x3 cells; minimum levels above the maximum; every domain rectangle with real bounds in the arbitrary-criterion entries; one and two ranks; building the mesh again with another criterion, size and domain; writing it.
// @stubs p4est: model of 2.3.6 (refinement, corner balance, uniform partition, search) over the real data structures; the p4est_vtk output is not modelled.
// @outside Arbitrary criteria over more than two levels; more than two ranks; rounding of cell positions; the p4est_vtk file.
// @entry m_any reach=done
// @entry m_rect reach=done
// @entry m_branch reach=done
// @entry m_two_branches reach=done tier=thorough
// @entry m_again reach=done
// @entry m_functions reach=done
// @entry m_vtk reach=done
// @entry m_ranks ranks=2 reach=done
#include "tree.hpp"
#include "xmlread.hpp"
#include <map>
#include <tuple>
struct Cell { int l,i,j; }; // cell column and row over the whole domain at level l
static int parts(double x,double lo,double hi,int m){ int k=0; // how many of the points lo+(hi-lo)*i/m, i=1..m, are <= x
  double w=hi-lo; while(k<m&&x*m>=lo*m+w*(k+1)) k++; return k; }
struct Crit { Rect r; int nx,ny,maxl; std::map<std::tuple<int,int,int>,bool> val; std::function<bool(Cell)> decide; bool bad=false;
  bool at(Cell c){ auto k=std::make_tuple(c.l,c.i,c.j); auto it=val.find(k); if(it!=val.end()) return it->second; bool v=decide(c); val[k]=v; return v; }
  Cell find(double x,double y){ Cell c{-1,0,0}; // a centre is an odd multiple of half a cell of its level
    for(int l=0;l<=maxl;l++){ int mx=nx<<(l+1),my=ny<<(l+1); int a=parts(x,r.xl,r.xu,mx),b=parts(y,r.yl,r.yu,my); if(a%2==1&&b%2==1&&x*mx==r.xl*mx+(r.xu-r.xl)*a&&y*my==r.yl*my+(r.yu-r.yl)*b){ c.l=l; c.i=a/2; c.j=b/2; break; } } return c; }
  bool operator()(double x,double y){ Cell c=find(x,y); if(c.l<0){ bad=true; return false; } return at(c); } };
struct Quad_ { int l,x,y; }; // index at its own level
static bool near_(const Quad_& a,const Quad_& b){ int L=a.l>b.l?a.l:b.l; long ax=(long)a.x<<(L-a.l),ay=(long)a.y<<(L-a.l),as=1L<<(L-a.l),bx=(long)b.x<<(L-b.l),by=(long)b.y<<(L-b.l),bs=1L<<(L-b.l); return ax<=bx+bs&&bx<=ax+as&&ay<=by+bs&&by<=ay+as; }
static std::vector<Quad_> expectedLeaves(Crit& c,int minl){ std::vector<Quad_> out,todo; for(int y=0;y<1<<minl;y++) for(int x=0;x<1<<minl;x++) todo.push_back({minl,x,y});
  while(todo.size()){ Quad_ q=todo.back(); todo.pop_back(); bool hot=false; if(q.l<c.maxl) for(int i=0;i<c.nx&&!hot;i++) for(int j=0;j<c.ny&&!hot;j++) if(c.at(Cell{q.l,q.x*c.nx+i,q.y*c.ny+j})) hot=true; if(!hot){ out.push_back(q); continue; } for(int k=0;k<4;k++) todo.push_back({q.l+1,2*q.x+(k&1),2*q.y+(k>>1)}); }
  for(bool any=true;any;){ any=false; for(size_t a=0;a<out.size()&&!any;a++) for(size_t b=0;b<out.size()&&!any;b++) if(out[b].l>out[a].l+1&&near_(out[a],out[b])){ Quad_ q=out[a]; out.erase(out.begin()+a); for(int k=0;k<4;k++) out.push_back({q.l+1,2*q.x+(k&1),2*q.y+(k>>1)}); any=true; } } // smallest 2:1 balanced refinement
  return out; }
static std::string pathOf(const Quad_& q){ std::string p="0"; for(int k=q.l-1;k>=0;k--) p+=(char)('0'+((q.x>>k)&1)+2*((q.y>>k)&1)); return p; }
static Rect quadRect(const Rect& r,const Quad_& q){ double n=1<<q.l,w=r.xu-r.xl,h=r.yu-r.yl; return Rect{r.xl+w*q.x/n,r.xl+w*(q.x+1)/n,r.yl+h*q.y/n,r.yl+h*(q.y+1)/n}; }
struct MW { Rect r; Patch_ root; EF::FiniteVolumeNodeFactory fac; Crit c; MW(Rect r,int nx,int ny):r(r),root(rootPatch(r,nx,ny)),fac(MPI_COMM_WORLD){ c.r=r; c.nx=nx; c.ny=ny; } void refine(Mesh_& m,int lo,int hi){ c.maxl=hi; m.refineByFunction([this](double x,double y){ return c(x,y); },1.0,lo,hi,root,fac); sym_check(!c.bad,"the criterion is asked at cell centres only"); } };
// leaves in path order = pre-order, the part of this rank
static std::vector<Quad_> mine(std::vector<Quad_> L,int P,int me){ std::sort(L.begin(),L.end(),[](const Quad_&a,const Quad_&b){ return pathOf(a)<pathOf(b); }); long n=L.size(); return std::vector<Quad_>(L.begin()+n*me/P,L.begin()+n*(me+1)/P); }
static void treeIs(Mesh_& m,MW& w,const std::vector<Quad_>& L,const char* t){ size_t leaves=0; for(auto&kv:m.quadtree.map) if(kv.second&&kv.second->leaf) leaves++; sym_check(leaves==L.size(),M_("%s: %d leaves instead of %d",t,(int)leaves,(int)L.size())); for(auto&q:L){ std::string p=pathOf(q); auto it=m.quadtree.map.find(p); bool ok=it!=m.quadtree.map.end()&&it->second&&it->second->leaf; sym_check(ok,M_("%s: leaf %s is missing",t,p.c_str())); if(ok) eqRect(it->second->data.grid(),quadRect(w.r,q),w.c.nx,w.c.ny,M_("%s: leaf %s",t,p.c_str())); } }
static void arraysAre(Mesh_& m,MW& w,const std::vector<Quad_>& L,const char* t){ int nx=w.c.nx,ny=w.c.ny; int N=(int)L.size()*nx*ny; sym_check(m.ncells==N&&m.npoints==4*N,M_("%s: counts %d cells %d points for %d cells",t,m.ncells,m.npoints,N)); sym_check(m.getNumberOfCells()==std::to_string(N)&&m.getNumberOfPoints()==std::to_string(4*N),M_("%s: counts as texts",t)); sym_check((int)m.points.size()==12*N&&(int)m.connectivity.size()==4*N&&(int)m.offsets.size()==N&&(int)m.types.size()==N,M_("%s: array lengths %d %d %d %d for %d cells",t,(int)m.points.size(),(int)m.connectivity.size(),(int)m.offsets.size(),(int)m.types.size(),N)); if((int)m.points.size()!=12*N||(int)m.connectivity.size()!=4*N||(int)m.offsets.size()!=N||(int)m.types.size()!=N) return;
  int k=0; for(auto&q:L){ Rect r=quadRect(w.r,q); double dx=(r.xu-r.xl)/nx,dy=(r.yu-r.yl)/ny; for(int i=0;i<nx;i++) for(int j=0;j<ny;j++,k++){ sym_check(m.offsets[k]==4*(k+1),M_("%s: offset of cell %d",t,k)); sym_check(m.types[k]==9,M_("%s: type of cell %d",t,k)); for(int c=0;c<4;c++){ int v=m.connectivity[4*k+c]; sym_check(v==4*k+c,M_("%s: connectivity of cell %d",t,k)); if(v<0||v>=4*N) return; int a=(c==1||c==2),b=(c>=2); sym_check_eq(m.points[3*v],r.xl+(i+a)*dx,M_("%s: x of corner %d of cell %d",t,c,k)); sym_check_eq(m.points[3*v+1],r.yl+(j+b)*dy,M_("%s: y of corner %d of cell %d",t,c,k)); sym_check_eq(m.points[3*v+2],0,M_("%s: z of corner %d of cell %d",t,c,k)); } } } }
static void walks(Mesh_& m,MW& w,const std::vector<Quad_>& L,const char* t){ int nx=w.c.nx,ny=w.c.ny; size_t k=0; m.iteratePatches([&](Patch_& p){ if(k<L.size()) eqRect(p.grid(),quadRect(w.r,L[k]),nx,ny,M_("%s: patch %d visited",t,(int)k)); k++; }); sym_check(k==L.size(),M_("%s: %d patches visited",t,(int)k)); int c=0,per=nx*ny; m.iterateCells([&](double x,double y){ if(c/per<(int)L.size()){ Rect r=quadRect(w.r,L[c/per]); int i=(c%per)/ny,j=(c%per)%ny; sym_check_eq(x*2*nx,r.xl*2*nx+(2*i+1)*(r.xu-r.xl),M_("%s: x of cell %d visited",t,c)); sym_check_eq(y*2*ny,r.yl*2*ny+(2*j+1)*(r.yu-r.yl),M_("%s: y of cell %d visited",t,c)); } c++; }); sym_check(c==per*(int)L.size(),M_("%s: %d cells visited",t,c)); }
static void whole(Mesh_& m,MW& w,int minl,const char* t,int P=1,int me=0){ auto L=mine(expectedLeaves(w.c,minl),P,me); if(P==1) treeIs(m,w,L,t); arraysAre(m,w,L,t); walks(m,w,L,t); }
static void anyCrit(Crit& c){ c.decide=[](Cell k){ char b[48]; snprintf(b,48,"hot %d %d %d",k.l,k.i,k.j); return sym_choose(b,0,1)==1; }; }
ENTRY m_any(){ static const int S[3][2]={{1,1},{2,1},{1,2}}; int s=sym_choose("size",0,2); Rect r=rectChoice(sym_choose("rect",0,2),1); MW w(r,S[s][0],S[s][1]); anyCrit(w.c); int lo=sym_choose("min",0,2),hi=sym_choose("max",0,2); Mesh_ m; w.refine(m,lo,hi); whole(m,w,lo,"mesh"); sym_reach("done"); }
ENTRY m_rect(){ MW w(symRectR(),1,sym_choose("ny",1,2)); anyCrit(w.c); int lo=sym_choose("min",0,1); Mesh_ m; w.refine(m,lo,lo+1); whole(m,w,lo,"mesh"); sym_reach("done"); }
static void branchCrit(Crit& c,std::vector<std::string> ps,int cell){ int nx=c.nx,ny=c.ny; c.decide=[=](Cell k){ if((k.i%nx)*ny+k.j%ny!=cell) return false; std::string p=pathOf(Quad_{k.l,k.i/nx,k.j/ny}); for(auto&b:ps) if(b.compare(0,p.size(),p)==0) return true; return false; }; }
static std::string branch(const char* nm,int d){ std::string p="0"; for(int i=0;i<d;i++) p+=(char)('0'+sym_choose(N_(nm,i).c_str(),0,3)); return p; }
ENTRY m_branch(){ int D=TH(3,4),nx=sym_choose("nx",1,2),ny=nx==1?1:3,cell=sym_choose("cell",0,nx*ny-1); std::string b=branch("branch",D); MW w(rectChoice(1,1),nx,ny); branchCrit(w.c,{b},cell); Mesh_ m; w.refine(m,0,D); whole(m,w,0,"mesh"); sym_reach("done"); }
ENTRY m_two_branches(){ std::string a=branch("first",3),b=branch("second",3); MW w(rectChoice(1,1),1,1); branchCrit(w.c,{a,b},0); Mesh_ m; w.refine(m,0,3); whole(m,w,0,"mesh"); sym_reach("done"); }
ENTRY m_again(){ Mesh_ m; MW w1(rectChoice(0,1),1,1),w2(rectChoice(2,1),sym_choose("nx",1,2),1); anyCrit(w1.c); anyCrit(w2.c); int l1=sym_choose("first min",0,1),l2=sym_choose("second min",0,1); w1.refine(m,l1,1); whole(m,w1,l1,"first mesh"); w2.refine(m,l2,1); whole(m,w2,l2,"second mesh"); if(sym_choose("set again",0,1)){ m.setMeshFromQuadtree(); whole(m,w2,l2,"arrays set again"); } w1.refine(m,l1,1); whole(m,w1,l1,"first mesh again"); sym_reach("done"); }
ENTRY m_functions(){ MW w(rectChoice(sym_choose("rect",0,2),1),sym_choose("nx",1,2),sym_choose("ny",1,3)); std::string b=branch("branch",2); branchCrit(w.c,{b},0); Mesh_ m; w.refine(m,0,2); auto L=mine(expectedLeaves(w.c,0),1,0); SymFn f,h; f.nm="f"; h.nm="h"; m.addMeshFunction([&](double x,double y){ return f.at(x,y); },"first"); RV own=symRV("own",3); Vec_ mv=toV(own); mv.name()="own"; m.addMeshFunction(mv); m.addMeshFunction([&](double x,double y){ return h.at(x,y); },"second"); sym_check(m.mesh_functions.size()==3,"three mesh functions"); if(m.mesh_functions.size()!=3) return; sym_check(m.mesh_functions[0]->name()=="first"&&m.mesh_functions[2]->name()=="second","names of mesh functions"); sym_check(m.mesh_functions[1]==&mv,"a vector is referred to"); int nx=w.c.nx,ny=w.c.ny;
  for(int q=0;q<3;q+=2){ Vec_& v=*m.mesh_functions[q]; sym_check(v.size()==L.size()*nx*ny,"one value per cell"); if(v.size()!=L.size()*nx*ny) return; int k=0; for(auto&l:L){ Rect r=quadRect(w.r,l); for(int i=0;i<nx;i++) for(int j=0;j<ny;j++,k++) sym_check_eq(v[k],(q?h:f).at(r.xl+(i+0.5)*((r.xu-r.xl)/nx),r.yl+(j+0.5)*((r.yu-r.yl)/ny)),M_("mesh function %d at cell %d",q,k)); } }
  m.clearMeshFunctions(); sym_check(m.mesh_functions.empty(),"mesh functions are cleared"); sym_reach("done"); }
ENTRY m_vtk(){ MW w(Rect{0,1,-1,1},1,2); std::string b=branch("branch",2); branchCrit(w.c,{b},1); Mesh_ m; w.refine(m,0,2); auto L=mine(expectedLeaves(w.c,0),1,0); int N=(int)L.size()*2; int num=sym_choose("numbered",0,1)?7:-1; auto f=[](double x,double y){ return 8*x+y*y-0.5; }; m.addMeshFunction(f,"first"); sym_own_dir(); m.toVTK("run",num); const char* pv=num<0?"run-mesh.pvtu":"run-mesh-0007.pvtu"; const char* vu=num<0?"run-mesh_0000.vtu":"run-mesh-0007_0000.vtu";
  auto g=readXML(pv,"parallel file"); if(!g) return; auto us=g->all("PUnstructuredGrid"); sym_check(us.size()==1,"one grid"); if(us.size()!=1) return; auto ps=us[0]->all("Piece"); sym_check(ps.size()==1&&ps[0]->get("Source")&&*ps[0]->get("Source")==vu,"the piece is named");
  auto h=readXML(vu,"piece"); if(!h) return; auto u=h->all("UnstructuredGrid"); sym_check(u.size()==1,"one grid in the piece"); if(u.size()!=1) return; auto p=u[0]->all("Piece"); sym_check(p.size()==1,"one piece"); if(p.size()!=1) return; sym_check(p[0]->get("NumberOfCells")&&*p[0]->get("NumberOfCells")==std::to_string(N)&&p[0]->get("NumberOfPoints")&&*p[0]->get("NumberOfPoints")==std::to_string(4*N),"counts in the file"); auto cs=p[0]->all("Cells"),pt=p[0]->all("Points"),cd=p[0]->all("CellData"); sym_check(cs.size()==1&&pt.size()==1&&cd.size()==1,"sections"); if(cs.size()!=1||pt.size()!=1||cd.size()!=1) return;
  for(auto&k:cs[0]->kids){ auto nm=k->get("Name"); if(!nm) continue; RV want; for(int i=0;i<N;i++){ if(*nm=="offsets") want.push_back(4*(i+1)); else if(*nm=="types") want.push_back(9); else for(int c=0;c<4;c++) want.push_back(4*i+c); } numsAre(k->data,want,M_("array %s",std::string(*nm).c_str())); } RV xyz; for(auto&q:L){ Rect r=quadRect(w.r,q); double dy=(r.yu-r.yl)/2; for(int j=0;j<2;j++) for(int c=0;c<4;c++){ xyz.push_back((c==1||c==2)?r.xu:r.xl); xyz.push_back(r.yl+(j+(c>=2))*dy); xyz.push_back(0); } } sym_check(pt[0]->kids.size()==1,"one point array"); if(pt[0]->kids.size()==1) numsAre(pt[0]->kids[0]->data,xyz,"points in the file");
  RV fv; for(auto&q:L){ Rect r=quadRect(w.r,q); for(int j=0;j<2;j++) fv.push_back(f((r.xl+r.xu)/2,r.yl+(j+0.5)*((r.yu-r.yl)/2))); } sym_check(cd[0]->kids.size()==1,"one cell array"); if(cd[0]->kids.size()==1) numsAre(cd[0]->kids[0]->data,fv,"cell values in the file"); sym_reach("done"); }
ENTRY m_ranks(){ MW* w; int lo=sym_choose("min",0,1); std::string b=branch("branch",2); sym_choose("pad",0,0); int me=sym_ranks(2); w=new MW(rectChoice(1,1),1,2); branchCrit(w->c,{b},1); Mesh_ m; w->refine(m,lo,2); whole(m,*w,lo,"rank's mesh",2,me); sym_reach("done"); }
