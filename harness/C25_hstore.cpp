//@ bounds: tag lists of up to 2 tags (3 thorough), keys and values of 0-2 arbitrary non-NUL bytes; generic operator with an arbitrary 2 character escape set
//@ reach: hstore,keyval,escaped,two
//@ variant quick: q -DVT=2
//@ variant thorough: t -DVT=3
#include "sym.h"
#include <numeric>
#include <osmium/tags/to_string.hpp>
#include <osmium/osm/tag_list.hpp>
using namespace Osmium::OSM;
// reader for the hstore text format: "k"=>"v" pairs separated by commas, backslash escapes one character
static int rd(const std::string& s,size_t& p,char* out){ int n=0; if(p>=s.size()||s[p]!='"') return -1; p++; for(;;){ if(p>=s.size()) return -1; char c=s[p++]; if(c=='"') return n; if(c=='\\'){ if(p>=s.size()) return -1; c=s[p++]; sym_reach("escaped"); } if(n>=8) return -1; out[n++]=c; } }
extern "C" void harness_main(){
  TagList tl; int n=sym_choice("n",0,VT); char k[VT][4],v[VT][4]; int kl[VT],vl[VT];
  for(int i=0;i<n;i++){ kl[i]=sym_choice("kl",0,2-(i>0)); sym_str("k",k[i],kl[i]); vl[i]=sym_choice("vl",0,2-(i>0)); sym_str("v",v[i],vl[i]); tl.add(k[i],v[i]); }
  if(sym_flip("hstore")){ sym_reach("hstore"); Osmium::Tags::TagToHStoreStringOp op; std::string s=std::accumulate(tl.begin(),tl.end(),std::string(),op);
    size_t p=0; for(int i=0;i<n;i++){ char o[8]; if(i){ sym_reach("two"); sym_assert(p<s.size()&&s[p]==',',"pairs are separated by a comma"); p++; }
      int l=rd(s,p,o); sym_assert(l==kl[i],"key length"); for(int j=0;j<kl[i];j++) sym_assert(o[j]==k[i][j],"key text");
      sym_assert(p+1<s.size()&&s[p]=='='&&s[p+1]=='>',"arrow"); p+=2; l=rd(s,p,o); sym_assert(l==vl[i],"value length"); for(int j=0;j<vl[i];j++) sym_assert(o[j]==v[i][j],"value text"); }
    sym_assert(p==s.size(),"nothing follows the last pair"); for(char c: s) sym_observe((unsigned char)c);
  } else { sym_reach("keyval"); Osmium::Tags::TagToKeyEqualsValueStringOp op(";"); std::string s=std::accumulate(tl.begin(),tl.end(),std::string(),op); std::string e; for(int i=0;i<n;i++){ if(i) e+=";"; e+=k[i]; e+="="; e+=v[i]; } sym_assert(s==e,"key=value text"); }
}
