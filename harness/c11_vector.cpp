// @title Vector operations compute their elementwise and segment definitions
// @bounds Vectors of length 0..4 (thorough 0..6); permutations of up to 3 (thorough 4) blocks of 0..2 entries; all entries arbitrary reals.
// @outside Rounding error; longer vectors; division by zero.
// @stubs sqrt is the exact nonnegative root, pow(x,2) is x*x.
// @entry v_ctor reach=done
// @entry v_arith reach=done
// @entry v_scalar reach=done
// @entry v_segment reach=done
// @entry v_append reach=done
// @entry v_range reach=done
// @entry v_indexset reach=done
// @entry v_permute reach=done
// @entry v_norms reach=done
// @entry v_vectorrange reach=done
// @entry v_self reach=done
#include "common.hpp"
static const int L=TH(4,6);
ENTRY v_ctor(){
  int n=sym_choose("n",0,L); RV x=symRV("x",n); double v=sym_double("v"); Vec_ a(x); eqV(a,x,"from std::vector"); Vec_ z(n,v); eqV(z,RV(n,v),"(size,value)"); Vec_ s((std::size_t)n); sym_check(s.size()==(size_t)n&&s.data().size()==(size_t)n,"(size)"); Vec_ d; sym_check(d.size()==0&&d.data().empty(),"default");
  Vec_ b(a); eqV(b,x,"copy"); const Vec_& ca=a; Vec_ c(ca); eqV(c,x,"const copy"); d=a; eqV(d,x,"assignment"); d=d; eqV(d,x,"self assignment"); if(n){ b[0]=v; c(n-1)=v; d[0]=v; } eqV(a,x,"source after its copies were written"); Vec_ i={v,v+1}; sym_check(i.size()==2,"initializer list"); sym_check_eq(i[1],v+1,"initializer list entry");
  for(int k=0;k<n;k++){ sym_check_eq(a[k],x[k],"[]"); sym_check_eq(a(k),x[k],"()"); sym_check_eq(ca[k],x[k],"const []"); sym_check_eq(a.getEntry(k),x[k],"getEntry"); } if(n){ int j=sym_int("j",0,n-1); a[j]=v; x[j]=v; eqV(a,x,"write through []"); } sym_reach("done"); }
ENTRY v_arith(){
  int n=sym_choose("n",0,L); RV x=symRV("x",n),y=symRV("y",n),s(n),m(n),p(n),q(n),g(n); double dot=0; for(int i=0;i<n;i++){ s[i]=x[i]+y[i]; m[i]=x[i]-y[i]; p[i]=x[i]*y[i]; g[i]=-x[i]; dot+=x[i]*y[i]; }
  Vec_ a=toV(x),b=toV(y); Vec_ r=a+b; eqV(r,s,"a+b"); Vec_ r2=a-b; eqV(r2,m,"a-b"); Vec_ r3=-a; eqV(r3,g,"-a"); eqV(a,x,"a after a+b"); eqV(b,y,"b after a+b"); Vec_ t=a; Vec_& rt=(t+=b); eqV(t,s,"a+=b"); sym_check(&rt==&t,"+= target"); t=a; t-=b; eqV(t,m,"a-=b");
  double d=a*b; sym_check_eq(d,dot,"dot product"); Vec_ e=EF::operator*(a,b); eqV(e,p,"elementwise product"); t=a; t+=t; for(int i=0;i<n;i++) s[i]=x[i]+x[i]; eqV(t,s,"a+=a");
  for(int i=0;i<n;i++){ sym_assume(y[i]!=0); } Vec_ w=a/b; RV W=getV(w); sym_check((int)W.size()==n,"a/b length"); for(int i=0;i<n&&i<(int)W.size();i++) sym_check_eq(W[i]*y[i],x[i],"elementwise quotient"); sym_reach("done"); }
ENTRY v_scalar(){
  int n=sym_choose("n",0,L); RV x=symRV("x",n),s(n),m(n),p(n); double v=sym_double("v"); for(int i=0;i<n;i++){ s[i]=x[i]+v; m[i]=x[i]-v; p[i]=v*x[i]; } Vec_ a=toV(x); Vec_ r=a+v; eqV(r,s,"a+v"); Vec_ r2=a-v; eqV(r2,m,"a-v"); Vec_ t=a; t+=v; eqV(t,s,"a+=v"); t=a; t-=v; eqV(t,m,"a-=v"); t=a; t*=v; eqV(t,p,"a*=v"); Vec_ q=v*a; eqV(q,p,"v*a"); eqV(a,x,"a after v*a");
  sym_assume(v!=0); t=a; t/=v; RV T=getV(t); for(int i=0;i<n;i++) sym_check_eq(T[i]*v,x[i],"a/=v"); sym_reach("done"); }
ENTRY v_segment(){
  int n=sym_choose("n",0,L); RV x=symRV("x",n); Vec_ a=toV(x); int s=sym_choose("s",0,n),l=sym_choose("l",0,n-s); Vec_ g=a.getSegment(s,l); eqV(g,RV(x.begin()+s,x.begin()+s+l),"getSegment"); RV y=symRV("y",l); Vec_ b=toV(y); a.setSegment(s,b); for(int i=0;i<l;i++) x[s+i]=y[i]; eqV(a,x,"setSegment"); eqV(b,y,"setSegment argument"); sym_reach("done"); }
ENTRY v_append(){
  int n=sym_choose("n",0,3),m=sym_choose("m",0,3),k=sym_choose("k",0,2); RV x=symRV("x",n),y=symRV("y",m),z=symRV("z",k); Vec_ a=toV(x),b=toV(y),c=toV(z); RV w=x; w.insert(w.end(),y.begin(),y.end()); Vec_ t=a; t.append(b); eqV(t,w,"append"); if(n+m) sym_check_eq(t[n+m-1],w[n+m-1],"entry after append"); RV w2=w; w2.insert(w2.end(),z.begin(),z.end()); std::vector<Vec_> all; all.push_back(a); all.push_back(b); all.push_back(c); Vec_ u=EF::concatenate(all); eqV(u,w2,"concatenate(vector)"); Vec_ u2=EF::concatenate({a,b,c}); eqV(u2,w2,"concatenate(list)"); eqV(a,x,"source of concatenate"); sym_reach("done"); }
ENTRY v_range(){
  int n=sym_choose("n",1,L); RV x=symRV("x",n); Vec_ a=toV(x); int s=sym_choose("s",0,n-1),e=sym_choose("e",s,n-1); RV w(x.begin()+s,x.begin()+e+1); Vec_ g=a.getRange(s,e); eqV(g,w,"getRange"); Vec_ h=a(s,e); eqV(h,w,"a(s,e)"); sym_reach("done"); }
ENTRY v_indexset(){
  int n=sym_choose("n",1,3); RV x=symRV("x",n); Vec_ a=toV(x); int m=sym_choose("m",0,n); IVec_ I(m); RV w(m); for(int k=0;k<m;k++){ int v=sym_choose(N_("I",k).c_str(),0,n-1); I[k]=v; w[k]=x[v]; } Vec_ g=a.getFromIndexSet(I); eqV(g,w,"getFromIndexSet"); Vec_ h=a(I); eqV(h,w,"a(I)"); sym_reach("done"); }
ENTRY v_permute(){
  int nb=sym_choose("nb",1,TH(3,4)); std::vector<int> p; std::vector<char> used(nb,0); for(int k=0;k<nb;k++){ int v=sym_choose(N_("perm",k).c_str(),0,nb-1); sym_assume(!used[v]); used[v]=1; p.push_back(v); } std::vector<int> sz; int tot=0; for(int k=0;k<nb;k++){ sz.push_back(sym_choose(N_("size",k).c_str(),0,2)); tot+=sz.back(); } RV x=symRV("x",tot); Vec_ a=toV(x); IVec_ I(p),S(sz); Vec_ g=a.blockPermute(I,S);
  RV w; for(int b:p){ int o=0; for(int k=0;k<b;k++) o+=sz[k]; for(int k=0;k<sz[b];k++) w.push_back(x[o+k]); } eqV(g,w,"blockPermute"); eqV(a,x,"vector after blockPermute"); sym_reach("done"); }
ENTRY v_norms(){
  int n=sym_choose("n",0,TH(3,4)); RV x=symRV("x",n),y=symRV("y",n); Vec_ a=toV(x),b=toV(y); double g=EF::vectorInfNorm(a,b),mx=0; for(int i=0;i<n;i++){ double d=x[i]-y[i]; if(d<0) d=-d; if(d>mx) mx=d; } sym_check_eq(g,mx,"vectorInfNorm is the largest difference"); double l=EF::vectorL2Norm(a,b),ss=0; for(int i=0;i<n;i++) ss+=(x[i]-y[i])*(x[i]-y[i]); sym_check(l>=0,"vectorL2Norm is negative"); sym_check_eq(l*l,ss,"vectorL2Norm squared"); sym_reach("done"); }
ENTRY v_vectorrange(){
  int s=sym_choose("s",-2,2),e=sym_choose("e",-2,4); sym_assume(e>=s-1); IVec_ v=EF::vectorRange(s,e); sym_check((int)v.size()==e-s+1,"vectorRange length"); for(int i=0;i<(int)v.size();i++) sym_check(v[i]==s+i,"vectorRange entry"); sym_reach("done"); }
ENTRY v_self(){ // an operand that is the vector itself, or one of its entries
  int n=sym_choose("n",1,L),k=sym_choose("k",0,n-1),op=sym_choose("op",0,9); RV x=symRV("x",n),w(n); Vec_ a=toV(x); auto& ca=a; double dot=0; for(double e:x) dot+=e*e;
  if(op==0){ a*=a[k]; for(int i=0;i<n;i++) w[i]=x[i]*x[k]; eqV(a,w,"a*=a[k]"); } else if(op==1){ sym_assume(x[k]!=0); a/=ca(k); RV q=getV(a); sym_check((int)q.size()==n,"a/=a[k] length"); for(int i=0;i<n&&i<(int)q.size();i++) sym_check_eq(q[i]*x[k],x[i],"a/=a[k]"); } else if(op==2){ a-=a[k]; for(int i=0;i<n;i++) w[i]=x[i]-x[k]; eqV(a,w,"a-=a[k]"); } else if(op==3){ a+=a[k]; for(int i=0;i<n;i++) w[i]=x[i]+x[k]; eqV(a,w,"a+=a[k]"); }
  else if(op==4){ a-=a; eqV(a,RV(n,0.0),"a-=a"); } else if(op==5){ double d=a*a; sym_check_eq(d,dot,"a*a"); a=a+a; for(int i=0;i<n;i++) w[i]=2*x[i]; eqV(a,w,"a=a+a"); } else if(op==6){ a=a[k]*a; for(int i=0;i<n;i++) w[i]=x[i]*x[k]; eqV(a,w,"a=a[k]*a"); } else if(op==7){ a=a.getSegment(k,n-k); eqV(a,RV(x.begin()+k,x.end()),"a=a.getSegment"); }
  else if(op==8){ a=EF::concatenate({a,a}); w=x; w.insert(w.end(),x.begin(),x.end()); eqV(a,w,"a=concatenate(a,a)"); } else { a.setSegment(0,a); eqV(a,x,"a.setSegment(0,a)"); a=a(k,n-1); eqV(a,RV(x.begin()+k,x.end()),"a=a(k,n-1)"); } sym_reach("done"); }
