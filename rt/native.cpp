// Native replay runtime: values come from a trace file (argv[1]): one "value" per line in call order.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <vector>
#include <string>
#include <exception>
static std::vector<uint64_t> vals; static size_t pos=0; static int failed=0; static unsigned long long h=1469598103934665603ull; static size_t nobs=0; static const char* resf=nullptr;
static void result(const char* what,const char* label){ FILE*f=fopen(resf,"a"); if(f){ fprintf(f,"%s\t%s\n",what,label); fclose(f);} }
extern "C" {
uint64_t __sym_var(const char*, int w, uint64_t lo, uint64_t hi, int sg){ uint64_t v= pos<vals.size()? vals[pos++]:lo; if(w<64){ uint64_t m=(1ull<<w)-1; v&=m; if(sg&&(v>>(w-1))&1) v|=~m; } (void)hi; return v; }
uint64_t __sym_conc(uint64_t v){ return v; }
int __sym_isconc(uint64_t){ return 1; }
uint64_t __sym_flo(uint64_t v){ return v; }
uint64_t __sym_fhi(uint64_t v){ return v; }
void __sym_assume(int c){ if(!c){ result("ASSUME",""); _exit(0);} }
void __sym_assert(int c,const char* l){ if(!c){ failed=1; result("ASSERT",l); } }
void __sym_reach(const char*){}
void __sym_observe(uint64_t v){ h^=v; h*=1099511628211ull; nobs++; }
void __sym_print(const char* l,uint64_t v){ fprintf(stderr,"%s %lld\n",l,(long long)v); }
void __sym_done(void){ char b[64]; snprintf(b,64,"%016llx",h); result("DONE",b); fflush(nullptr); _exit(failed?1:0); }
int __sym_native=1;
}
int main(int argc,char**argv){ resf=argc>2?argv[2]:"/dev/stderr"; FILE*f=fopen(argv[1],"r"); if(f){ char b[64]; while(fgets(b,64,f)) vals.push_back(strtoull(b,0,10)); fclose(f); }
  std::set_terminate([]{ result("TERMINATE","uncaught exception or std::terminate"); _exit(3); });
  harness_main(); __sym_done(); }
