// boost::dynamic_bitset without its stream output: a vector of bits
#ifndef VERIF_DYNAMIC_BITSET
#define VERIF_DYNAMIC_BITSET
#include <vector>
#include <cassert>
namespace boost { template<class B=unsigned long> class dynamic_bitset { std::vector<unsigned char> v; public: explicit dynamic_bitset(size_t n=0) : v(n) {} struct reference { unsigned char& b; operator bool() const { return b; } reference& operator=(bool x){ b=x; return *this; } reference& operator=(const reference& x){ b=x.b; return *this; } reference& operator^=(bool x){ b^=x?1:0; return *this; } reference& operator|=(bool x){ b|=x?1:0; return *this; } reference& operator&=(bool x){ b&=x?1:0; return *this; } bool operator~() const { return !b; } reference& flip(){ b^=1; return *this; } };
  reference operator[](size_t i){ assert(i<v.size()); reference r={v[i]}; return r; } bool operator[](size_t i) const { assert(i<v.size()); return v[i]; } bool test(size_t i) const { return v[i]; } dynamic_bitset& set(){ v.assign(v.size(),1); return *this; } dynamic_bitset& reset(){ v.assign(v.size(),0); return *this; } dynamic_bitset& set(size_t i,bool x=true){ v[i]=x; return *this; } dynamic_bitset& reset(size_t i){ v[i]=0; return *this; } dynamic_bitset& flip(size_t i){ v[i]^=1; return *this; } size_t size() const { return v.size(); } size_t count() const { size_t c=0; for(size_t i=0;i<v.size();i++) c+=v[i]; return c; } bool any() const { return count(); } bool none() const { return !count(); } }; }
#endif
