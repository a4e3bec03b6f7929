//@ bounds: three objects of one type, every id (64 bit, except INT64_MIN whose absolute value does not exist), every version
//@ reach: node,way,relation,same id,neg
#include "sym.h"
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/smart_ptr.hpp>
using namespace Osmium::OSM;
template <class T> static void go(const char* name){
  T a, b, c; T* o[3] = {&a,&b,&c}; int64_t id[3]; uint32_t v[3];
  for (int i=0;i<3;i++){ id[i]=sym_i64("id", INT64_MIN+1); v[i]=sym_u32("version"); o[i]->id(id[i]); o[i]->version(v[i]); }
  sym_reach(name);
  bool lt[3][3];
  for (int i=0;i<3;i++) for (int j=0;j<3;j++) lt[i][j] = *o[i] < *o[j];
  sym_assert(!lt[0][0], "irreflexive");
  sym_assert(!(lt[0][1] && lt[1][0]), "asymmetric");
  sym_assert(!(lt[0][1] && lt[1][2]) || lt[0][2], "transitive");
  bool same = id[0]==id[1] && v[0]==v[1];
  sym_assert((!lt[0][1] && !lt[1][0]) == same, "equivalent exactly when id and version are equal");
  uint64_t m0 = id[0]<0 ? 0-(uint64_t)id[0] : (uint64_t)id[0], m1 = id[1]<0 ? 0-(uint64_t)id[1] : (uint64_t)id[1];
  if (m0!=m1) sym_assert(lt[0][1] == (m0<m1), "ordered by absolute id");
  if (id[0]==id[1]) { sym_assert(lt[0][1] == (v[0]<v[1]), "one id is ordered by version"); sym_reach("same id"); }
  if (id[0]<0) sym_reach("neg");
  // the derived comparison operators agree
  sym_assert((*o[0] > *o[1]) == lt[1][0], "operator>");
  sym_assert((*o[0] <= *o[1]) == !lt[1][0], "operator<=");
  sym_assert((*o[0] >= *o[1]) == !lt[0][1], "operator>=");
  sym_observe(lt[0][1]);
  // ordering through shared pointers is the same
  shared_ptr<T> p = make_shared<T>(), q = make_shared<T>(); p->id(id[0]); p->version(v[0]); q->id(id[1]); q->version(v[1]);
  shared_ptr<T const> cp = p, cq = q; bool sp;
  sp = Osmium::OSM::operator<(cp, cq);
  sym_assert(sp == lt[0][1], "ordering of shared pointers equals ordering of objects");
}
extern "C" void harness_main(){
  switch (sym_choice("type",0,2)) { case 0: go<Node>("node"); break; case 1: go<Way>("way"); break; default: go<Relation>("relation"); }
}
