// @title Options and command-line or file settings are parsed to the intended type
// @bounds Setting texts of length 0..4 (thorough 6) whose characters are arbitrary over a 20-letter alphabet; up to three command-line arguments with symbolic names and values; files of four lines with symbolic values and arbitrary section layout.
// @stubs strtol/strtod/isdigit/isspace and std::getline are models of the C++ library's documented behaviour; a symbolic decimal text denotes an exact rational.
// @outside Numbers that do not fit int or double; characters outside the alphabet; carriage returns.
// @entry o_text reach=bool,int,double,text
// @entry o_words reach=true,false,text
// @entry o_numbers reach=done
// @entry o_cmdline reach=done
// @entry o_twice reach=done
// @entry o_file reach=done,other
// @entry o_file_value reach=done
// @entry o_set reach=done
// @entry o_reject reach=done
#include "common.hpp"
#include "vfile.hpp"
#include <Options.hpp>
#include <InputParser.hpp>
using OT=EF::Options::OptionTypes;
static std::string symText(const char* nm,int len,const char* set){ std::string s; for(int i=0;i<len;i++) s+=sym_char(N_(nm,i).c_str(),set); return s; }
// reference reading of a setting text: 0 text, 1 bool, 2 int, 3 double
struct Want { int kind; bool b=false; long i=0; double d=0; std::string s; };
static bool dig(char c){ return c>='0'&&c<='9'; }
static Want readText(const std::string& t){
  Want w{0}; w.s=t; size_t n=t.size(); if(t=="true"||t=="false"){ w.kind=1; w.b=t.size()==4; return w; }
  size_t p=0; bool neg=false; if(p<n&&(t[p]=='+'||t[p]=='-')){ neg=t[p]=='-'; p++; }
  long m=0; int nd=0,fr=0; bool pt=false,ex=false; for(;p<n&&dig(t[p]);p++,nd++) m=m*10+(t[p]-'0');
  if(p<n&&t[p]=='.'){ pt=true; for(p++;p<n&&dig(t[p]);p++,nd++,fr++) m=m*10+(t[p]-'0'); }
  if(!nd) return w; long e=0; if(p<n&&(t[p]=='e'||t[p]=='E')){ ex=true; p++; bool en=false; if(p<n&&(t[p]=='+'||t[p]=='-')){ en=t[p]=='-'; p++; } if(p==n) return w; for(;p<n&&dig(t[p]);p++) e=e*10+(t[p]-'0'); if(en) e=-e; }
  if(p!=n) return w;
  if(!pt&&!ex){ w.kind=2; w.i=neg?-m:m; return w; }
  e=sym_split(e); w.kind=3; int k=(int)e-fr; if(k>250||k<-250) { sym_assume(0); } double v=(double)m; for(;k>0;k--) v*=10.0; for(;k<0;k++) v/=10.0; w.d=neg?-v:v; return w; }
static bool same(const std::string& a,const std::string& b){ if(a.size()!=b.size()) return false; bool r=true; for(size_t i=0;i<a.size();i++) r=r&(a[i]==b[i]); return r; }
static void expect(const OT& v,const Want& w,const char* m){
  static const char* kn[]={"text","bool","int","double"}; sym_check((int)v.index()==w.kind,M_("%s: %s stored as %s",m,kn[w.kind],v.index()<4?kn[v.index()]:"?")); if((int)v.index()!=w.kind) return;
  switch(w.kind){ case 0: sym_check(same(std::get<std::string>(v),w.s),M_("%s: text differs",m)); sym_reach("text"); break; case 1: sym_check(std::get<bool>(v)==w.b,M_("%s: boolean value",m)); sym_reach("bool"); sym_reach(w.b?"true":"false"); break; case 2: sym_check(std::get<int>(v)==w.i,M_("%s: integer value",m)); sym_reach("int"); break; case 3: sym_check_eq(std::get<double>(v),w.d,M_("%s: floating-point value",m)); sym_reach("double"); break; } }
static void expectCL(EF::Options& o,const std::string& t,const char* m){ // given as a long option
  std::string arg="--key="+t; std::vector<char> a(arg.begin(),arg.end()); a.push_back(0); char prog[]="prog"; char* argv[]={prog,a.data(),nullptr}; int argc=2; char** av=argv; EF::InputParser p(argc,av); p.parse(o);
  sym_check(o.optionExists("key"),M_("%s: option exists",m)); sym_check(o.optionsMap.size()==1,M_("%s: exactly one option",m)); expect(o["key"],readText(t),m); }
#define GUARD(...) try { __VA_ARGS__ } catch(std::exception& e_){ sym_fail(M_("parser threw: %s",e_.what())); }
ENTRY o_text(){ int n=sym_choose("len",0,TH(4,6)); std::string t=symText("c",n,TH(n<4?"0179.+-eEtrufx_ =,":"09.-etruf","019.+-eEtruf")); GUARD( EF::Options o; expectCL(o,t,"setting"); if(t=="1"||n==4) sym_reach("bool"); ) }
ENTRY o_words(){ int k=sym_choose("word",0,3); static const char* ws[]={"true","false","True","yes.no"}; std::string t=ws[k]; int p=sym_choose("pos",0,(int)t.size()-1); t[p]=sym_char("c","truefalsT01. "); GUARD( EF::Options o; expectCL(o,t,"word"); ) }
ENTRY o_numbers(){ static const char* ws[]={"2147483647","-2147483648","0","007","-0","1e-3","1.5e3","-2.5E+2",".5","5.","1e5","3.14159","1.2.3","1e","e5","--1","+","-",".","0x10","1,000","12 ","inf","nan","1-2","1e5.0"}; int k=sym_choose("k",0,sizeof ws/sizeof*ws-1); GUARD( EF::Options o; expectCL(o,ws[k],M_("number text %s",ws[k])); sym_reach("done"); ) }
struct Arg { int form; std::string name,val; std::string text() const { switch(form){ case 0: return "--"+name+"="+val; case 1: return "--"+name; case 2: return "-"+name+"="+val; case 3: return "-"+name; default: return name+"="+val; } } };
static void apply(std::map<std::string,Want>& m,const Arg& a){ switch(a.form){ case 0: m[a.name]=readText(a.val); break; case 2: m[a.name]=Want{0,false,0,0,a.val}; break; case 1: case 3: m[a.name]=Want{0,false,0,0,""}; break; } }
static void run(const std::vector<Arg>& as,EF::Options& o,std::map<std::string,Want>& w){
  std::vector<std::vector<char>> bufs; char prog[]="prog"; std::vector<char*> av{prog}; for(auto&a:as){ std::string s=a.text(); bufs.emplace_back(s.begin(),s.end()); bufs.back().push_back(0); } for(auto&b:bufs) av.push_back(b.data()); av.push_back(nullptr);
  int argc=as.size()+1; char** p=av.data(); EF::InputParser ip(argc,p); ip.parse(o); for(auto&a:as) apply(w,a);
  sym_check(o.optionsMap.size()==w.size(),"number of options after parsing"); for(auto&[k,v]:w){ sym_check(o.optionExists(k),"given option exists"); if(o.optionExists(k)) expect(o[k],v,"option"); } sym_check(!o.optionExists("never"),"option that was not given"); sym_check(o.optionsMap.size()==w.size(),"looking up options adds none"); }
ENTRY o_cmdline(){ int n=sym_choose("args",0,2); std::vector<Arg> as; for(int i=0;i<n;i++){ Arg a; a.form=sym_choose(N_("form",i).c_str(),0,4); a.name=std::string(1,sym_char(N_("name",i).c_str(),"nk")); int l=sym_choose(N_("len",i).c_str(),0,i?1:2); a.val=symText(N_("val",i).c_str(),l,"05-.=x"); as.push_back(a); } GUARD( EF::Options o; std::map<std::string,Want> w; run(as,o,w); sym_reach("done"); ) }
ENTRY o_twice(){ std::vector<Arg> as; for(int i=0;i<TH(3,4);i++){ Arg a; a.form=0; a.name=i==1?"other":"patch-size"; a.val=symText(N_("val",i).c_str(),i==0?1:2,"19-.x"); as.push_back(a); } GUARD( EF::Options o; o.setOption("preset",true); std::map<std::string,Want> w; w["preset"]=Want{1,true}; run(as,o,w); sym_reach("done"); ) }
static std::string pad(int at,int where,int kind){ static const char* p[]={" ","\t"," \t "}; return at==where?p[kind]:""; }
ENTRY o_file(){ // four lines of arbitrary kinds
  std::string f; std::map<std::string,Want> w; bool on=false; for(int i=0;i<TH(4,5);i++){ int k=sym_choose(N_("kind",i).c_str(),0,6); switch(k){
    case 0: f+="[EllipticForest]\n"; on=true; break; case 1: f+="[Other]\n"; on=false; break; case 2: f+=" ; n = 3\n"; break; case 3: f+=" \t\n"; break;
    case 4: f+="n = 1"; f+=(char)('0'+i); f+="\n"; if(on) w["n"]=Want{2,false,10+i}; break; case 5: f+="\tname=text\n"; if(on) w["name"]=Want{0,false,0,0,"text"}; break; case 6: f+="no setting here\n"; break; } }
  if(sym_choose("lastnl",0,1)==0) f.pop_back();
  GUARD( vf_open("opts.ini",f); EF::Options o; o.setFromFile("opts.ini"); sym_check(o.optionsMap.size()==w.size(),"number of options read from the file"); for(auto&[k,v]:w){ sym_check(o.optionExists(k),M_("option %s read from the file",k.c_str())); if(o.optionExists(k)) expect(o[k],v,M_("file option %s",k.c_str())); } sym_reach(w.empty()?"other":"done"); ) }
ENTRY o_file_value(){ // symbolic value text with white space around and inside every part
  int n=sym_choose("len",1,TH(3,5)); int wh=sym_choose("where",0,7),kd=sym_choose("kind",0,2); std::string t=symText("c",n,TH(n<3?"059.-ex=":"09.-x","059.-ex=")), f=pad(0,wh,kd)+"[EllipticForest]"+pad(1,wh,kd)+"\n"+pad(2,wh,kd)+"my"+pad(6,wh,kd)+"-key"+pad(3,wh,kd)+"="+pad(4,wh,kd)+t.substr(0,(n+1)/2)+pad(7,wh,kd)+t.substr((n+1)/2)+pad(5,wh,kd)+"\nlast=true";
  GUARD( vf_open("opts.ini",f); EF::Options o; o.setOption("kept",7); o.setFromFile("opts.ini"); sym_check(o.optionsMap.size()==3,"number of options"); expect(o["my-key"],readText(t),"file value"); expect(o["last"],Want{1,true},"last line"); expect(o["kept"],Want{2,false,7},"option set before"); sym_reach("done"); ) }
ENTRY o_set(){ EF::Options o; int k1=sym_choose("k1",0,3),k2=sym_choose("k2",0,3); int iv=sym_int("iv",-2147483647,2147483647); double dv=sym_double("dv"); std::string sv=symText("s",2,"ab"); bool bv=sym_choose("bv",0,1);
  auto val=[&](int k)->OT{ switch(k){ case 0: return sv; case 1: return bv; case 2: return iv; default: return dv; } }; auto want=[&](int k){ Want w{k}; w.s=sv; w.b=bv; w.i=iv; w.d=dv; return w; };
  sym_check(!o.optionExists("a"),"unset option does not exist"); o.setOption("a",val(k1)); expect(o["a"],want(k1),"set"); o.setOption("b",val(k2)); expect(o["a"],want(k1),"set earlier"); expect(o["b"],want(k2),"set later"); o["a"]=val(k2); expect(o["a"],want(k2),"overwritten"); sym_check(o.optionsMap.size()==2,"two options");
  EF::Options c(o.optionsMap); expect(c["a"],want(k2),"copied"); expect(c["b"],want(k2),"copied"); sym_reach("done"); }
ENTRY o_reject(){ static const char* fn[]={"settings.txt","settings.in","settingsini_","noextension"}; int k=sym_choose("k",0,3); EF::Options o; bool threw=false; try{ o.setFromFile(fn[k]); }catch(std::invalid_argument&){ threw=true; } sym_check(threw,M_("file name %s is rejected",fn[k])); sym_check(o.optionsMap.empty(),"nothing stored"); sym_reach("done"); }
