//@ mock: regex
//@ bounds: up to 2 (3 thorough) rules and 2 tags, keys of 0-1, rule values of 1-2 and tag values of 0-2 arbitrary non-NUL bytes, every combination of rule results, value wildcard and default; regular expressions are an abstract whole-text predicate
//@ reach: key,keyvalue,regex,accepted,rejected,default
//@ variant thorough: len -DVR=1 -DVT=2 -DVL=3
//@ variant quick: q -DVR=2 -DVT=1 -DVL=2
//@ variant quick: two -DVR=1 -DVT=2 -DVL=1
//@ variant thorough: t -DVR=3 -DVT=2 -DVL=2
#include "sym.h"
#include <osmium/tags/key_filter.hpp>
#include <osmium/tags/key_value_filter.hpp>
#include <osmium/tags/regex_filter.hpp>
#include <osmium/utils/filter_and_accumulate.hpp>
using namespace Osmium::OSM;
struct S { char b[4]; };
static S str(const char* n){ S s; int l=sym_choice("len",0,1); sym_str(n,s.b,l); s.b[l+1]=0; if(!l) s.b[1]=0; return s; }
static bool eq(const S& a,const S& b){ return (a.b[0]==b.b[0])&(a.b[1]==b.b[1]); }
static const Tag* g_first;
struct Count { int* order; int* n; Count(int* o,int* k):order(o),n(k){} int operator()(int acc,const Tag& t) const { order[(*n)++]=(int)(&t-g_first); return acc+1; } };
template <class F,class A> static void go(int kind,A add){
  bool def=sym_flip("default"); F f(def); int nr=sym_choice("rules",0,VR); S rk[VR],rv[VR]; bool res[VR]; bool wild[VR];
  for(int i=0;i<nr;i++){ res[i]=sym_flip("result"); rk[i]=str("rkey"); wild[i]=true; if(kind){ wild[i]=sym_flip("wild"); if(!wild[i]){ int l=sym_choice("rvlen",1,VL); sym_str("rval",rv[i].b,l); for(int q=l+1;q<4;q++) rv[i].b[q]=0; } } add(f,res[i],rk[i].b,wild[i]?0:rv[i].b); }
  TagList tl; S k[VT]; char v[VT][4]; bool exp[VT];
  for(int j=0;j<VT;j++){ k[j]=str("key"); { int l=sym_choice("vlen",0,VL); sym_str("val",v[j],l); for(int q=l+1;q<4;q++) v[j][q]=0; } tl.add(k[j].b,v[j]);
    exp[j]=def; bool hit=false; for(int i=0;i<nr;i++){ bool m=eq(rk[i],k[j]); if(!wild[i]) m=m&(rv[i].b[0]==v[j][0])&(rv[i].b[1]==v[j][1])&(rv[i].b[2]==v[j][2])&(rv[i].b[3]==v[j][3]); exp[j]=(!hit&m)?res[i]:exp[j]; hit=hit|m; } if(!hit) sym_reach("default"); }
  int want=0,ord[VT]; for(int j=0;j<VT;j++){ bool r=f(tl[j]); sym_assert(r==exp[j],"the first matching rule decides, else the default"); if(r){ sym_reach("accepted"); ord[want++]=j; } else sym_reach("rejected"); sym_observe(r); }
  // filtered iteration
  typename F::iterator it(f,tl.begin(),tl.end()), end(f,tl.end(),tl.end()); int n=0; for(;it!=end&&n<=VT;++it){ sym_assert(n<want&&&*it==&tl[ord[n]],"filtered iteration visits the accepted tags in order"); n++; } sym_assert(n==want,"filtered iteration visits every accepted tag");
  g_first=&tl[0]; int order[VT+1],cnt=0; int r=Osmium::filter_and_accumulate(tl,f,100,Count(order,&cnt)); sym_assert(r==100+want&&cnt==want,"accumulation over the accepted tags"); for(int j=0;j<want;j++) sym_assert(order[j]==ord[j],"accumulation order");
}
extern "C" void harness_main(){
  using namespace Osmium::Tags;
  switch(sym_choice("kind",0,2)){
  case 0: sym_reach("key"); go<KeyFilter>(0,[](KeyFilter& f,bool r,const char* k,const char*){ f.add(r,k); }); break;
  case 1: sym_reach("keyvalue"); go<KeyValueFilter>(1,[](KeyValueFilter& f,bool r,const char* k,const char* v){ if(v) f.add(r,k,v); else f.add(r,k); }); break;
  default: sym_reach("regex"); go<RegexFilter>(1,[](RegexFilter& f,bool r,const char* k,const char* v){ if(v) f.add(r,k,v); else f.add(r,k); }); }
}
