// Harness interface. The same harness source is executed symbolically by osym and compiled
// natively (rt/native.cpp) to replay counterexamples and sampled paths against the real code.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t __sym_var(const char* name, int width, uint64_t lo, uint64_t hi, int is_signed);
uint64_t __sym_conc(uint64_t v);
int __sym_isconc(uint64_t v);
// bounds of a double (as bits) that hold on every input; -inf or inf where none is known
uint64_t __sym_flo(uint64_t v);
uint64_t __sym_fhi(uint64_t v);
void __sym_assume(int c);
void __sym_assert(int c, const char* label);
void __sym_reach(const char* label);
void __sym_observe(uint64_t v);
void __sym_done(void) __attribute__((noreturn));
void __sym_print(const char* label, uint64_t v);
void harness_main();
}
static inline uint64_t sym_u64(const char* n, uint64_t lo=0, uint64_t hi=UINT64_MAX){ return __sym_var(n,64,lo,hi,0); }
static inline uint32_t sym_u32(const char* n, uint32_t lo=0, uint32_t hi=UINT32_MAX){ return (uint32_t)__sym_var(n,32,lo,hi,0); }
static inline uint16_t sym_u16(const char* n, uint16_t lo=0, uint16_t hi=UINT16_MAX){ return (uint16_t)__sym_var(n,16,lo,hi,0); }
static inline uint8_t  sym_u8 (const char* n, uint8_t lo=0, uint8_t hi=UINT8_MAX){ return (uint8_t)__sym_var(n,8,lo,hi,0); }
static inline int64_t  sym_i64(const char* n, int64_t lo=INT64_MIN, int64_t hi=INT64_MAX){ return (int64_t)__sym_var(n,64,(uint64_t)lo,(uint64_t)hi,1); }
static inline int32_t  sym_i32(const char* n, int32_t lo=INT32_MIN, int32_t hi=INT32_MAX){ return (int32_t)__sym_var(n,32,(uint64_t)(int64_t)lo,(uint64_t)(int64_t)hi,1); }
// a value that is split into concrete cases (every feasible value is explored on its own path)
static inline int sym_choice(const char* n, int lo, int hi){ return (int)__sym_conc(__sym_var(n,32,(uint64_t)lo,(uint64_t)hi,1)); }
static inline bool sym_bool(const char* n){ return __sym_var(n,8,0,1,0)!=0; }       // symbolic flag
static inline bool sym_flip(const char* n){ return sym_choice(n,0,1)!=0; }          // concrete two-way split
static inline void sym_assume(bool c){ __sym_assume(c); }
static inline void sym_assert(bool c, const char* label){ __sym_assert(c,label); }
static inline void sym_reach(const char* l){ __sym_reach(l); }
static inline void sym_observe(uint64_t v){ __sym_observe(v); }
// fill buf with a NUL-terminated string of concrete length len whose bytes are symbolic in [lo,hi]
static inline void sym_str(const char* n, char* buf, int len, uint8_t lo=1, uint8_t hi=255){ for(int i=0;i<len;i++) buf[i]=(char)sym_u8(n,lo,hi); buf[len]=0; }
// attributes that must not matter: arbitrary values
template<class O> static inline void sym_rest(O& o){ o.visible(sym_bool("visible")); o.changeset(sym_i32("changeset",0)); o.uid(sym_i32("uid",-1)); }
#endif
