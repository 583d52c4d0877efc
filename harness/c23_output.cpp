// @title XML and VTK output is well formed and carries the data given
// @bounds XML: every tree shape of up to 4 (thorough 5) nodes, 0..2 attributes per node, names, attribute texts and data of symbolic characters, writing once or twice. VTK: grids with 0..2 point and cell arrays of 0..3 arbitrary values each, with and without each coordinate array, one and two ranks, writing once or twice.
// @stubs None beyond the engine's token representation: a symbolic number or character written to a file stands for its printed form.
// @outside Markup characters (< > & ") inside names, attribute texts or data; printed precision of numbers; file-system errors.
// @entry x_tree reach=done
// @entry x_text reach=done
// @entry v_rect reach=done
// @entry v_again reach=done
// @entry v_copied reach=done
// @entry v_unstr reach=done
// @entry v_reject reach=done
// @entry v_par1 reach=done
// @entry v_par2 reach=done ranks=2
#include "xmlread.hpp"
#include <XMLTree.hpp>
#include <VTK.hpp>
#include <sys/stat.h>
using EF::XMLNode; using EF::DataArrayNodeBase;
static void same(const XN& got,const XMLNode& want,const char* m){
  std::string nm=rend(want.name); sym_check(got.name==nm,M_("%s: element name %s",m,nm.c_str())); sym_check(got.data==trimmed(rend(want.data)),M_("%s: data of %s",m,nm.c_str()));
  sym_check(got.attr.size()==want.attributes.size(),M_("%s: attribute count of %s",m,nm.c_str())); for(auto&a:want.attributes){ int hits=0; for(auto&b:got.attr) if(b.first==rend(a.first)){ hits++; sym_check(b.second==rend(a.second),M_("%s: attribute %s of %s",m,rend(a.first).c_str(),nm.c_str())); } sym_check(hits==1,M_("%s: attribute %s of %s appears once",m,rend(a.first).c_str(),nm.c_str())); }
  sym_check(got.kids.size()==want.children.size(),M_("%s: child count of %s",m,nm.c_str())); for(size_t i=0;i<got.kids.size()&&i<want.children.size();i++) same(*got.kids[i],*want.children[i],m); }
static std::string txt(const char* nm,int i,int len,const char* set){ std::string s; for(int k=0;k<len;k++) s+=sym_char(N_(nm,i,k).c_str(),set); return s; }
ENTRY x_tree(){ // all shapes
  int n=sym_choose("nodes",1,TH(4,5)); std::vector<std::unique_ptr<XMLNode>> ns; for(int i=0;i<n;i++){ ns.emplace_back(new XMLNode("n"+std::to_string(i))); int na=sym_choose(N_("attrs",i).c_str(),0,i<2?1:0); for(int k=0;k<na;k++) ns[i]->addAttribute("a"+std::to_string(k),txt("val",i,1,"az09 .")); if(sym_choose(N_("data",i).c_str(),0,1)) ns[i]->data=txt("dat",i,2,"xy0"); }
  for(int i=1;i<n;i++){ int p=sym_choose(N_("parent",i).c_str(),0,i-1); if(sym_choose(N_("byptr",i).c_str(),0,i<2?1:0)) ns[p]->addChild(ns[i].get()); else ns[p]->addChild(*ns[i]); }
  EF::XMLTree t(*ns[0]); sym_own_dir(); t.write("t.xml"); auto g=readXML("t.xml","tree"); if(g) same(*g,*ns[0],"tree"); sym_reach("done"); }
ENTRY x_text(){ // symbolic texts, written twice
  XMLNode r("root"+txt("rn",0,1,"abZ_-")),a(txt("an",0,2,"abZ")),b("b"); int na=sym_choose("attrs",0,3),l=sym_choose("len",0,3); for(int k=0;k<na;k++) r.addAttribute("k"+std::to_string(k),txt("v",k,l,"a 0;:'=/.-")); if(na>0) a.addAttribute(txt("key",0,2,"kK"),""); r.data=txt("d",0,l,"09ab.+-"); a.data=" "+txt("d",1,1,"0x=\"'/")+" "; r.addChild(a); r.addChild(&b); b.addChild(new XMLNode("c"));
  EF::XMLTree t(r); sym_own_dir(); t.write("t.xml"); auto g=readXML("t.xml","first write"); if(g) same(*g,r,"first write"); sym_own_dir(); t.write("t2.xml"); auto h=readXML("t2.xml","second write"); if(h) same(*h,r,"second write"); sym_own_dir(); t.write("t2.xml"); auto k=readXML("t2.xml","overwritten file"); if(k) same(*k,r,"overwritten file"); EF::XMLTree copy(t); sym_own_dir(); copy.write("t3.xml"); auto c=readXML("t3.xml","copied tree"); if(c) same(*c,r,"copied tree"); sym_reach("done"); }
struct Arr { Vec_ v; RV want; std::string name; void init(const char* nm,int n){ name=nm; want=symRV(nm,n); v=toV(want); v.name()=nm; } };
static XN* only(const XN* n,const char* k,const char* m){ if(!n) return nullptr; auto a=n->all(k); sym_check(a.size()==1,M_("%s: exactly one %s element, found %d",m,k,(int)a.size())); return a.size()==1?a[0]:nullptr; }
static void attrIs(const XN* n,const char* k,const std::string& v,const char* m){ auto p=n->get(k); sym_check(p!=nullptr,M_("%s: attribute %s of %s",m,k,n->name.c_str())); if(p) sym_check(trimmed(*p)==trimmed(rend(v)),M_("%s: attribute %s of %s is %s",m,k,n->name.c_str(),p->c_str())); }
static void arrIs(const XN* n,const RV& v,const std::string& name,const std::string& type,const std::string& comps,const char* m,const char* tag="DataArray"){
  sym_check(n->name==tag,M_("%s: element %s",m,n->name.c_str())); attrIs(n,"Name",name,m); attrIs(n,"type",type,m); attrIs(n,"NumberOfComponents",comps,m); attrIs(n,"format","ascii",m); 
  if(std::string(tag)=="PDataArray"){ sym_check(n->data.empty(),M_("%s: metadata array holds no values",m)); return; } numsAre(n->data,v,M_("%s: array %s",m,name.c_str()));
  auto lo=n->get("RangeMin"),hi=n->get("RangeMax"); if(lo&&hi&&!v.empty()){ double a=v[0],b=v[0]; for(double x:v){ if(x<a) a=x; if(b<x) b=x; } numIs(*lo,a,M_("%s: range minimum of %s",m,name.c_str())); numIs(*hi,b,M_("%s: range maximum of %s",m,name.c_str())); } }
static void sect(const XN* piece,const char* tag,std::vector<Arr*> as,const char* m,const char* at="DataArray"){
  auto s=piece->all(tag); if(as.empty()){ sym_check(s.empty()||(s.size()==1&&s[0]->kids.empty()),M_("%s: no %s arrays",m,tag)); return; } sym_check(s.size()==1,M_("%s: one %s element",m,tag)); if(s.size()!=1) return;
  sym_check(s[0]->kids.size()==as.size(),M_("%s: number of arrays in %s",m,tag)); std::string names; for(auto*a:as) names+=a->name+" "; attrIs(s[0],"Scalars",names,m); for(size_t i=0;i<as.size()&&i<s[0]->kids.size();i++) arrIs(s[0]->kids[i].get(),as[i]->want,as[i]->name,as[i]->v.getType(),"1",m,at); }
struct RMesh : EF::RectilinearGridNodeBase { std::string w,e; std::string getWholeExtent(){ return w; } std::string getExtent(){ return e; } };
static void checkRect(const char* fn,RMesh& mesh,std::vector<Arr*> cs,std::vector<Arr*> cd,std::vector<Arr*> pd){
  auto g=readXML(fn,"rectilinear"); if(!g) return; sym_check(g->name=="VTKFile","root element"); attrIs(g.get(),"type","RectilinearGrid","rectilinear"); sym_check(g->kids.size()==1,"one grid in the file"); auto r=only(g.get(),"RectilinearGrid","rectilinear"); if(!r) return; attrIs(r,"WholeExtent",mesh.w,"rectilinear"); auto p=only(r,"Piece","rectilinear"); if(!p) return; attrIs(p,"Extent",mesh.e,"rectilinear");
  sect(p,"CellData",cd,"cell data"); sect(p,"PointData",pd,"point data"); auto c=only(p,"Coordinates","rectilinear"); if(!c) return; sym_check(c->kids.size()==3,"three coordinate arrays"); for(int i=0;i<3&&i<(int)c->kids.size();i++) if(cs[i]) arrIs(c->kids[i].get(),cs[i]->want,cs[i]->name,cs[i]->v.getType(),"1","coordinates"); else { sym_check(c->kids[i]->name=="DataArray","empty coordinate array"); numsAre(c->kids[i]->data,{0.0},"empty coordinate array"); } }
ENTRY v_rect(){ RMesh mesh; mesh.w="0 "+std::to_string(sym_int("w",0,99))+" 0 1 0 0"; mesh.e="0 "+std::to_string(sym_int("e",0,99))+" 0 1 0 0"; int mask=sym_choose("coords",0,7),nc=sym_choose("cells",0,2),np=sym_choose("points",0,2); Arr c[3],cd[2],pd[2]; const char* cn[]={"x","y","z"}; for(int i=0;i<3;i++) c[i].init(cn[i],i==2?1:2); for(int i=0;i<2;i++){ cd[i].init(i?"c1":"c0",2-i); pd[i].init(i?"p1":"p0",i?2:1); }
  EF::RectilinearGridVTK v; std::vector<Arr*> cs(3),cdv,pdv; for(int i=0;i<3;i++) if(mask>>i&1) cs[i]=&c[i]; v.buildMesh(mesh,cs[0]?&c[0].v:nullptr,cs[1]?&c[1].v:nullptr,cs[2]?&c[2].v:nullptr); for(int i=0;i<nc;i++){ v.addCellData(cd[i].v); cdv.push_back(&cd[i]); } for(int i=0;i<np;i++){ v.addPointData(pd[i].v); pdv.push_back(&pd[i]); }
  sym_own_dir(); v.toVTK("r.vtr"); checkRect("r.vtr",mesh,cs,cdv,pdv); sym_own_dir(); v.toVTK("r2.vtr"); checkRect("r2.vtr",mesh,cs,cdv,pdv); sym_reach("done"); }
struct UMesh : EF::UnstructuredGridNodeBase { int np,nc; Vec_ pts; EF::Vector<int> con,off,typ; RV wp,wc,wo,wt; std::string getNumberOfPoints(){ return std::to_string(np); } std::string getNumberOfCells(){ return std::to_string(nc); } DataArrayNodeBase& getPoints(){ return pts; } DataArrayNodeBase& getConnectivity(){ return con; } DataArrayNodeBase& getOffsets(){ return off; } DataArrayNodeBase& getTypes(){ return typ; }
  static EF::Vector<int> iv(RV& w,const char* nm,int n,int lo){ EF::Vector<int> v(n); for(int i=0;i<n;i++){ v[i]=lo+i*3; w.push_back(lo+i*3); } return v; } static void lab(EF::Vector<int>& v,const char* nm){ v.name()=nm; v.setType("Int64"); }
  void init(int n,const char* tag){ np=n; nc=n; wp=symRV(tag,3*n>3?3:3*n); pts=toV(wp); pts.name()="points"; pts.setNumberOfComponents("3"); con=iv(wc,"connectivity",n+1,0); off=iv(wo,"offsets",n,4); typ=iv(wt,"types",n,9); lab(con,"connectivity"); lab(off,"offsets"); lab(typ,"types"); } };
static void checkU(const char* fn,UMesh& m,std::vector<Arr*> cd,std::vector<Arr*> pd){
  auto g=readXML(fn,"unstructured"); if(!g) return; sym_check(g->name=="VTKFile","root element"); attrIs(g.get(),"type","UnstructuredGrid","unstructured"); sym_check(g->kids.size()==1,"one grid in the file"); auto u=only(g.get(),"UnstructuredGrid","unstructured"); auto p=only(u,"Piece","unstructured"); if(!p) return; attrIs(p,"NumberOfPoints",std::to_string(m.np),"unstructured"); attrIs(p,"NumberOfCells",std::to_string(m.nc),"unstructured");
  auto pt=only(p,"Points","unstructured"); if(pt){ sym_check(pt->kids.size()==1,"one point array"); if(pt->kids.size()==1) arrIs(pt->kids[0].get(),m.wp,"points",m.pts.getType(),"3","points"); }
  auto c=only(p,"Cells","unstructured"); if(c){ sym_check(c->kids.size()==3,"three cell arrays"); struct { const char* n; RV* w; } x[]={{"connectivity",&m.wc},{"offsets",&m.wo},{"types",&m.wt}}; for(auto&e:x){ int hits=0; for(auto&k:c->kids) if(k->get("Name")&&*k->get("Name")==e.n){ hits++; arrIs(k.get(),*e.w,e.n,"Int64","1","cells"); } sym_check(hits==1,M_("cell array %s appears once",e.n)); } }
  sect(p,"CellData",cd,"cell data"); sect(p,"PointData",pd,"point data"); }
static void fill(Arr* cd,Arr* pd,int nc,int np,std::vector<Arr*>& cdv,std::vector<Arr*>& pdv,int len=2){ for(int i=0;i<2;i++){ cd[i].init(i?"c1":"c0",i?1:len); pd[i].init(i?"p1":"p0",i?len:1); } for(int i=0;i<nc;i++) cdv.push_back(&cd[i]); for(int i=0;i<np;i++) pdv.push_back(&pd[i]); }
ENTRY v_unstr(){ UMesh m; m.init(sym_choose("n",0,2),"pt"); int nc=sym_choose("cells",0,2),np=sym_choose("points",0,2); Arr cd[2],pd[2]; std::vector<Arr*> cdv,pdv; fill(cd,pd,nc,np,cdv,pdv,sym_choose("len",0,2)); EF::UnstructuredGridVTK v; v.buildMesh(m); for(auto*a:cdv) v.addCellData(a->v); for(auto*a:pdv) v.addPointData(a->v);
  sym_own_dir(); v.toVTK("u.vtu"); checkU("u.vtu",m,cdv,pdv); if(np==0&&nc<2){ Arr x; x.init("late",1); v.addPointData(x.v); pdv.push_back(&x); sym_own_dir(); v.toVTK("u.vtu"); checkU("u.vtu",m,cdv,pdv); } sym_reach("done"); }
template<class F> static bool rejects(F f){ try{ f(); }catch(std::invalid_argument&){ return true; }catch(...){ return false; } return false; }
ENTRY v_reject(){ EF::RectilinearGridVTK r; EF::UnstructuredGridVTK u; Arr a; a.init("a",1); r.addCellData(a.v); u.addPointData(a.v); sym_check(rejects([&]{ r.toVTK("none.vtr"); }),"rectilinear output without a mesh is rejected"); sym_check(rejects([&]{ u.toVTK("none.vtu"); }),"unstructured output without a mesh is rejected"); sym_check(slurp("none.vtr").empty()&&slurp("none.vtu").empty(),"nothing is written"); sym_reach("done"); }
static void par(int ranks){ int nc=sym_choose("cells",0,2),np=sym_choose("points",0,2),n0=sym_choose("n",0,1),rep=ranks==1?sym_choose("repeat",0,1):0; UMesh ms[2]; Arr cd[2][2],pd[2][2]; std::vector<Arr*> cdv[2],pdv[2]; for(int r=0;r<ranks;r++){ ms[r].init(r+n0,r?"pb":"pa"); fill(cd[r],pd[r],nc,np,cdv[r],pdv[r],1); if(ranks>1) for(int k=0;k+1<(int)ms[r].wp.size();k++) sym_assume(ms[r].wp[k]<ms[r].wp[k+1]); }
  static const char* BN[]={"out","sub/out","50%n-%s"}; std::string base=BN[(nc+np)%3==0?sym_choose("base",0,2):0]; sym_own_dir(); if(base.find('/')!=std::string::npos) mkdir("sub",0755); int r=ranks>1?sym_ranks(ranks):0; EF::PUnstructuredGridVTK v(MPI_COMM_WORLD); v.buildMesh(ms[r]); for(auto*a:cdv[r]) v.addCellData(a->v); for(auto*a:pdv[r]) v.addPointData(a->v); v.toVTK(base); if(rep) v.toVTK(base); MPI_Barrier(MPI_COMM_WORLD);
  if(r==0){ auto g=readXML((base+".pvtu").c_str(),"parallel"); if(!g) return; sym_check(g->name=="VTKFile","root element"); sym_check(g->kids.size()==1,"one grid in the file"); auto u=only(g.get(),"PUnstructuredGrid","parallel"); if(!u) return; auto pp=only(u,"PPoints","parallel"); if(pp){ sym_check(pp->kids.size()==1,"one point array"); if(pp->kids.size()==1) arrIs(pp->kids[0].get(),{},"points",ms[0].pts.getType(),"3","points","PDataArray"); }
    sect(u,"PCellData",cdv[0],"parallel cell data","PDataArray"); sect(u,"PPointData",pdv[0],"parallel point data","PDataArray"); auto ps=u->all("Piece"); sym_check((int)ps.size()==ranks,"one piece per rank"); for(int k=0;k<(int)ps.size()&&k<ranks;k++){ auto s=ps[k]->get("Source"); sym_check(s!=nullptr,"piece names its file"); if(s){ std::string at=base.substr(0,base.rfind('/')+1)+*s; if(base.find('/')!=std::string::npos&&s->size()&&(*s)[0]=='/') at=*s; checkU(at.c_str(),ms[k],cdv[k],pdv[k]); } } sym_reach("done"); } }
ENTRY v_par1(){ par(1); }
ENTRY v_par2(){ par(2); }
ENTRY v_again(){ // a writer given another mesh writes that one only
  int m1=sym_choose("coords1",0,7),m2=sym_choose("coords2",0,7),wr=sym_choose("written between",0,1); RMesh a,b; a.w="0 3 0 1 0 0"; a.e="0 1 0 1 0 0"; b.w="0 "+std::to_string(sym_int("w",0,99))+" 0 1 0 0"; b.e="0 5 0 1 0 0"; Arr c[6]; const char* cn[]={"x","y","z","x2","y2","z2"}; for(int i=0;i<6;i++) c[i].init(cn[i],i!=4); auto P=[&](int m,int o,int i)->Vec_*{ return m>>i&1?&c[o+i].v:nullptr; };
  EF::RectilinearGridVTK v; v.buildMesh(a,P(m1,0,0),P(m1,0,1),P(m1,0,2)); sym_own_dir(); if(wr) v.toVTK("a.vtr"); v.buildMesh(b,P(m2,3,0),P(m2,3,1),P(m2,3,2)); sym_own_dir(); v.toVTK("b.vtr"); std::vector<Arr*> cs(3); for(int i=0;i<3;i++) if(m2>>i&1) cs[i]=&c[3+i]; checkRect("b.vtr",b,cs,{},{});
  UMesh x,y; x.init(1,"ua"); y.init(0,"ub"); EF::UnstructuredGridVTK u; u.buildMesh(x); sym_own_dir(); if(wr) u.toVTK("a.vtu"); u.buildMesh(y); sym_own_dir(); u.toVTK("b.vtu"); checkU("b.vtu",y,{},{}); sym_reach("done"); }
ENTRY v_copied(){ // a copied writer writes the same file, also after its source is gone
  int mask=sym_choose("coords",0,7),wr=sym_choose("written before",0,1),as=sym_choose("assigned",0,1); RMesh mesh; mesh.w="0 1 0 1 0 0"; mesh.e="0 1 0 1 0 0"; Arr c[3],d; const char* cn[]={"x","y","z"}; for(int i=0;i<3;i++) c[i].init(cn[i],1); d.init("c0",1); auto v=std::make_unique<EF::RectilinearGridVTK>(); std::vector<Arr*> cs(3); for(int i=0;i<3;i++) if(mask>>i&1) cs[i]=&c[i]; v->buildMesh(mesh,cs[0]?&c[0].v:nullptr,cs[1]?&c[1].v:nullptr,cs[2]?&c[2].v:nullptr); v->addCellData(d.v); sym_own_dir(); if(wr) v->toVTK("r.vtr");
  EF::RectilinearGridVTK w=as?EF::RectilinearGridVTK():*v; if(as) w=*v; v.reset(); sym_own_dir(); w.toVTK("w.vtr"); checkRect("w.vtr",mesh,cs,{&d},{}); UMesh m; m.init(1,"u"); auto u=std::make_unique<EF::UnstructuredGridVTK>(); u->buildMesh(m); u->addPointData(d.v); sym_own_dir(); if(wr) u->toVTK("u.vtu"); EF::UnstructuredGridVTK y(*u); u.reset(); sym_own_dir(); y.toVTK("y.vtu"); checkU("y.vtu",m,{},{&d}); sym_reach("done"); }
