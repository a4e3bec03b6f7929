//@ bounds: sequences of up to 6 values, all values; 64 and 32 bit; clear at any point
//@ reach: i64,i32,clear
#include "sym.h"
#include <osmium/utils/delta.hpp>
template <class T, class U> static void go(T (*val)()){
  Osmium::Delta<T> d; U acc=0;
  for (int i=0;i<6;i++){
    if (i>0 && sym_flip("clear")) { d.clear(); acc=0; sym_reach("clear"); }
    T v=val(); T x=d.update(v); acc=(U)(acc+(U)x); sym_assert((T)acc==v, "decoding restores the value"); sym_observe((uint64_t)acc);
  }
}
static int64_t v64(){ return sym_i64("v"); } static int32_t v32(){ return sym_i32("v"); }
extern "C" void harness_main(){ if (sym_flip("w")) { sym_reach("i64"); go<int64_t,uint64_t>(v64); } else { sym_reach("i32"); go<int32_t,uint32_t>(v32); } }
