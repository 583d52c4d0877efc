// Independent reader of the XML subset the library writes; numbers and characters may be efsym tokens.
#pragma once
#include "common.hpp"
#include <memory>
static inline std::string slurp(const char* fn){ FILE* f=fopen(fn,"r"); if(!f) return ""; std::string s; char b[512]; size_t n; while((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
static inline std::string rend(const std::string& s){ std::vector<char> b(s.size()*24+8); long n=sym_render(s.data(),(long)s.size(),b.data()); return std::string(b.data(),n); }
struct XN { std::string name,data; std::vector<std::pair<std::string,std::string>> attr; std::vector<std::unique_ptr<XN>> kids;
  const std::string* get(const char* k) const { for(auto&a:attr) if(a.first==k) return &a.second; return nullptr; }
  std::vector<XN*> all(const char* k) const { std::vector<XN*> r; for(auto&c:kids) if(c->name==k) r.push_back(c.get()); return r; } };
static inline bool xsp(char c){ return c==' '||c=='\n'||c=='\t'||c=='\r'; }
static inline std::string trimmed(const std::string& s){ size_t a=0,b=s.size(); while(a<b&&xsp(s[a])) a++; while(b>a&&xsp(s[b-1])) b--; return s.substr(a,b-a); }
struct XReader { const std::string& t; size_t p=0; std::string err; XReader(const std::string& t):t(t){}
  void sp(){ while(p<t.size()&&xsp(t[p])) p++; }
  std::unique_ptr<XN> elem(){ // at '<'
    std::unique_ptr<XN> n(new XN); if(p>=t.size()||t[p]!='<'){ err="element expected"; return n; } p++; while(p<t.size()&&!xsp(t[p])&&t[p]!='>'&&t[p]!='/'&&t[p]!='<') n->name+=t[p++];
    for(;;){ size_t q=p; sp(); if(p>=t.size()){ err="text ends inside a tag"; return n; } if(t[p]=='>'){ p++; break; } if(t[p]=='/'&&p+1<t.size()&&t[p+1]=='>'){ p+=2; return n; } if(q==p){ err="attributes not separated"; return n; }
      std::string k,v; while(p<t.size()&&t[p]!='='&&!xsp(t[p])&&t[p]!='>') k+=t[p++]; if(p+1>=t.size()||t[p]!='='||t[p+1]!='"'){ err="attribute without value: "+k; return n; } p+=2; while(p<t.size()&&t[p]!='"') v+=t[p++]; if(p>=t.size()){ err="attribute value not closed"; return n; } p++; n->attr.push_back({k,v}); }
    for(;;){ while(p<t.size()&&t[p]!='<') n->data+=t[p++]; if(p+1>=t.size()){ err="element "+n->name+" not closed"; return n; }
      if(t[p+1]=='/'){ p+=2; std::string e; while(p<t.size()&&t[p]!='>') e+=t[p++]; if(p>=t.size()){ err="end tag not closed"; return n; } p++; if(trimmed(e)!=n->name) err="end tag "+e+" closes "+n->name; n->data=trimmed(n->data); return n; }
      n->kids.push_back(elem()); if(!err.empty()) return n; } }
  std::unique_ptr<XN> doc(){ sp(); if(t.compare(p,5,"<?xml")!=0){ err="no XML declaration"; return nullptr; } while(p+1<t.size()&&!(t[p]=='?'&&t[p+1]=='>')) p++; p+=2; sp(); auto n=elem(); sp(); if(err.empty()&&p!=t.size()) err="text after the root element"; return n; } };
static inline std::unique_ptr<XN> readXML(const char* fn,const char* m){ std::string s=slurp(fn); sym_check(!s.empty(),M_("%s: file %s was written",m,fn)); XReader r(s); auto n=r.doc(); sym_check(r.err.empty(),M_("%s: %s is not well formed: %s",m,fn,r.err.c_str())); if(!r.err.empty()) return nullptr; return n; }
static inline void numIs(const std::string& t,double v,const char* m){ if(sym_is_symbolic(v)){ char b[64]; long n=sym_token(v,b); sym_check(t==std::string(b,n),m); return; } char* e; double w=strtod(t.c_str(),&e); sym_check(!t.empty()&&*e==0,m); double d=w-v; if(d<0) d=-d; double s=v<0?-v:v; sym_check(d<=2e-6*(s>1?s:1),m); }
static inline std::vector<std::string> words(const std::string& s){ std::vector<std::string> r; size_t p=0; for(;;){ while(p<s.size()&&xsp(s[p])) p++; if(p>=s.size()) break; std::string w; while(p<s.size()&&!xsp(s[p])) w+=s[p++]; r.push_back(w); } return r; }
static inline void numsAre(const std::string& s,const std::vector<double>& v,const char* m){ auto w=words(s); sym_check(w.size()==v.size(),M_("%s: %d values written, %d expected",m,(int)w.size(),(int)v.size())); for(size_t i=0;i<w.size()&&i<v.size();i++) numIs(w[i],v[i],M_("%s: value %d",m,(int)i)); }
