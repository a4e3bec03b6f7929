//@ mock: sparse
//@ bounds: sequences of up to 3 (4 thorough) stores with arbitrary ids (64 bit for StlMap and Vector, below 2^40 for SparseTable with every growth step size 1..2^20, up to 8 for FixedArray; non-decreasing for Vector as it documents) and arbitrary 32 bit values, reads of an arbitrary id before, between and after, clear at the end
//@ reach: map,vector,sparse,fixed,hit,miss
//@ variant quick: n3 -DVN=3
//@ variant thorough: n4 -DVN=4
#include "sym.h"
#include <stdlib.h>
#include <assert.h>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
using namespace Osmium::Storage::ById;
struct V { uint32_t v; V():v(0xfeedbeef){} explicit V(uint32_t x):v(x){} };
template<class S> static void go(S& s,uint64_t maxid,bool sorted,bool empties,bool clearable){
  int n=sym_choice("n",0,VN); uint64_t id[VN]; uint32_t val[VN]; uint64_t q=sym_u64("query",0,maxid); bool fin=sym_flip("final"); int when=fin?n:sym_choice("when",0,n); if(!fin) sym_assume(when<n);
  for(int i=0;i<n;i++){ id[i]=sym_u64("id",0,maxid); val[i]=sym_u32("val"); if(sorted&&i) sym_assume(id[i]>=id[i-1]); }
  Base<V>& b=s;
  for(int i=0;i<=n;i++){
    if(i==when){ bool hit=false; uint32_t e=0xfeedbeef; for(int j=0;j<i;j++){ bool m=id[j]==q; hit=hit|m; e=m?val[j]:e; } if(!empties) sym_assume(hit); else if(!fin) sym_assume(i==0||hit);
      V r=fin?s[q]:b[q]; sym_assert(r.v==e,"reading an id gives the value last stored for it or the empty value"); sym_observe(r.v); if(i==0) sym_reach("miss"); else sym_reach("hit"); if(!fin&&i>0) return; }
    if(i<n){ if(i&1) b.set(id[i],V(val[i])); else s.set(id[i],V(val[i])); } }
  b.clear(); if(clearable){ V r=s[q]; sym_assert(r.v==0xfeedbeef,"cleared store is empty"); sym_assert(s.size()==0,"cleared store has no items"); } if(n&1) b.clear();
}
extern "C" void harness_main(){
  switch(sym_choice("store",0,3)){
  case 0: { sym_reach("map"); StlMap<V> s; go(s,UINT64_MAX,false,true,true); break; }
  case 1: { sym_reach("vector"); Vector<V> s; go(s,INT64_MAX,true,true,true); break; }
  case 2: { sym_reach("sparse"); SparseTable<V> s(sym_u64("grow",1,1<<20)); go(s,1ull<<40,false,true,true); break; }
  default: { sym_reach("fixed"); FixedArray<V> s(9); go(s,8,false,false,false); } }
}
