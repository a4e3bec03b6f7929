//@ bounds: one tag with key and value of 0-2 arbitrary non-NUL bytes, an arbitrary escape character next to the backslash, arbitrary one character prefix/infix/suffix/join
//@ reach: esc
#include "sym.h"
#include <osmium/tags/to_string.hpp>
#include <osmium/osm/tag_list.hpp>
extern "C" void harness_main(){
  char esc[3]={'\\',(char)sym_u8("esc",1),0}; char pre[2]={(char)sym_u8("pre",1),0},inf[2]={(char)sym_u8("inf",1),0},suf[2]={(char)sym_u8("suf",1),0},join[2]={(char)sym_u8("join",1),0};
  char k[4],v[4]; int kl=sym_choice("kl",0,2),vl=sym_choice("vl",0,2); sym_str("k",k,kl); sym_str("v",v,vl); bool second=sym_flip("second");
  Osmium::Tags::TagToStringOp op(esc,pre,inf,suf,join); std::string out; if(second) out="x"; Osmium::OSM::Tag t(k,v); std::string& r=op(out,t); sym_assert(&r==&out,"returns the output string");
  // reference
  std::string e; if(second){ e="x"; e+=join; } e+=pre; for(int i=0;i<kl;i++){ if(k[i]=='\\'||k[i]==esc[1]){ e+='\\'; sym_reach("esc"); } e+=k[i]; } e+=inf; for(int i=0;i<vl;i++){ if(v[i]=='\\'||v[i]==esc[1]) e+='\\'; e+=v[i]; } e+=suf;
  sym_assert(out==e,"every character of the escape set and only those is escaped");
}
