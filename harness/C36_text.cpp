//@ bounds: text of up to 2 arbitrary characters of every length (1 to 4 bytes) into and out of script strings that hold 2 characters, and up to 3 through a stream; up to 5 arbitrary bytes, and up to 4 arbitrary units of UTF-16, malformed ones included; ICU (as documented) and V8 are stand-ins
//@ reach: full,kept,malformed,too long,written
//@ mock: v8
//@ variant both: in -DMODE=0
//@ variant both: out -DMODE=1
//@ variant both: bytes -DMODE=2
//@ variant both: units -DMODE=3
#include "sym.h"
#include <string.h>
#include <cstdlib>
#include <new>
#include <string>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <v8.h>
#include <osmium/javascript/unicode.hpp>
enum { N=2 };
// a character of a chosen length in bytes in both encodings
static void chr(std::string& s,std::vector<uint16_t>& u,int kind){ static const uint32_t LO[]={1,0x80,0x800,0xe000,0x10000}, HI[]={0x7f,0x7ff,0xd7ff,0xffff,0x10ffff}; uint32_t c=sym_u32("character",LO[kind],HI[kind]); if(kind==0) s.push_back((char)c); else if(kind==1){ s.push_back((char)(0xc0|c>>6)); s.push_back((char)(0x80|(c&63))); } else if(kind<4){ s.push_back((char)(0xe0|c>>12)); s.push_back((char)(0x80|((c>>6)&63))); s.push_back((char)(0x80|(c&63))); } else { s.push_back((char)(0xf0|c>>18)); s.push_back((char)(0x80|((c>>12)&63))); s.push_back((char)(0x80|((c>>6)&63))); s.push_back((char)(0x80|(c&63))); }
  if(kind<4) u.push_back((uint16_t)c); else { u.push_back((uint16_t)(0xd800+((c-0x10000)>>10))); u.push_back((uint16_t)(0xdc00+((c-0x10000)&1023))); } }
static bool eq(const std::vector<uint16_t>& a,const std::vector<uint16_t>& b){ if(a.size()!=b.size()) return false; bool r=true; for(size_t i=0;i<a.size();i++) r=r&(a[i]==b[i]); return r; }
static bool eqs(const char* a,const std::string& b){ bool r=true; for(size_t i=0;i<b.size();i++){ if(!(a[i]==b[i])) return false; } return r&(a[b.size()]==0); }
extern "C" void harness_main(){
#if MODE<2
  std::string s; std::vector<uint16_t> u; int n=sym_choice("characters",0,MODE==1&&sym_flip("stream")?3:N), wide=0; bool stream=n==3||(MODE==1&&sym_flip("to stream")); for(int i=0;i<n;i++){ int k=sym_choice("kind",0,4); chr(s,u,k); wide+=k==4; } if(n==N&&wide==N) sym_reach("full");
#if MODE==0
  int ec=0; v8::Local<v8::String> v; try { v=Osmium::utf8_to_v8_String<N>(s.c_str()); } catch(const Osmium::UTF8_to_UTF16_Conversion_Error& e){ ec=1; } sym_assert(!ec,"text that fits is passed on"); if(!ec) sym_assert(eq(v->u,u),"text is unchanged"); sym_reach("kept"); sym_reach("malformed"); sym_reach("too long"); sym_reach("written"); sym_observe(s.size());
#else
  v8::Local<v8::String> v=v8::String::New(u.empty()?(const uint16_t*)"\0\0":&u[0],(int)u.size());
  if(stream){ std::ostringstream o; o<<"["; Osmium::v8_String_to_ostream(v,o); o<<"]"; sym_assert(eqs(o.str().c_str(),"["+s+"]"),"text is unchanged"); sym_reach("written"); }
  else { int ec=0; const char* c=0; try { c=Osmium::v8_String_to_utf8<N>(v); } catch(const Osmium::UTF16_to_UTF8_Conversion_Error& e){ ec=1; } sym_assert(!ec,"text that fits is passed on"); if(!ec) sym_assert(eqs(c,s),"text is unchanged"); } sym_observe(s.size());
#endif
#elif MODE==2
  // arbitrary bytes are refused or are what the script string means
  char b[8]; int n=sym_choice("bytes",1,5); sym_str("byte",b,n); int ec=0; v8::Local<v8::String> v; try { v=Osmium::utf8_to_v8_String<N>(b); } catch(const Osmium::Unicode_Conversion_Error& e){ ec=1; if(e.buffer_overflow()) sym_reach("too long"); else sym_reach("malformed"); } if(!ec){ std::string r; for(size_t i=0;i<v->u.size();i++){ uint32_t c=v->u[i]; if(c>=0xd800&&c<0xdc00&&i+1<v->u.size()){ c=0x10000+((c-0xd800)<<10)+(v->u[++i]-0xdc00); r.push_back((char)(0xf0|c>>18)); r.push_back((char)(0x80|((c>>12)&63))); r.push_back((char)(0x80|((c>>6)&63))); r.push_back((char)(0x80|(c&63))); } else if(c<0x80) r.push_back((char)c); else if(c<0x800){ r.push_back((char)(0xc0|c>>6)); r.push_back((char)(0x80|(c&63))); } else { r.push_back((char)(0xe0|c>>12)); r.push_back((char)(0x80|((c>>6)&63))); r.push_back((char)(0x80|(c&63))); } } sym_assert((int)r.size()==n&&eqs(b,r),"text is unchanged"); sym_reach("kept"); } sym_observe(ec);
#else
  uint16_t w[8]; int n=sym_choice("units",0,4); for(int i=0;i<n;i++) w[i]=sym_u16("unit",1); v8::Local<v8::String> v=v8::String::New(w,n); int ec=0; bool stream=sym_flip("stream"); std::string r; try { if(stream){ std::ostringstream o; Osmium::v8_String_to_ostream(v,o); r=o.str(); } else r=Osmium::v8_String_to_utf8<N>(v); } catch(const Osmium::Unicode_Conversion_Error& e){ ec=1; if(!e.buffer_overflow()) sym_reach("malformed"); }
  bool good=true; int i=0; while(i<n){ if(w[i]>=0xd800&&w[i]<0xdc00&&i+1<n&&w[i+1]>=0xdc00&&w[i+1]<0xe000) i+=2; else if(w[i]>=0xd800&&w[i]<0xe000){ good=false; break; } else i++; } if(!good) sym_assert(ec,"malformed text is refused"); else if(stream) sym_assert(!ec,"text that fits is passed on"); sym_observe(ec);
#endif
}
