//@ bounds: three positions / three segments, every pair of 32 bit coordinates
//@ reach: pos,seg
#include "sym.h"
#include <osmium/osm/undirected_segment.hpp>
using namespace Osmium::OSM;
static Position sp(){ int32_t x=sym_i32("x"), y=sym_i32("y"); return Position(x,y); }
extern "C" void harness_main(){
  if (sym_flip("what")) {
    Position a=sp(), b=sp(), c=sp(); sym_reach("pos");
    sym_assert((a==b) == (a.x()==b.x() && a.y()==b.y()), "equal exactly when both coordinates are equal");
    sym_assert((a!=b) == !(a==b), "operator!=");
    sym_assert(!(a<a), "irreflexive"); sym_assert(!(a<b && b<a), "asymmetric"); sym_assert(!(a<b && b<c) || a<c, "transitive");
    sym_assert((a<b || b<a) == (a!=b), "total");
    bool ref = a.x()<b.x() || (a.x()==b.x() && a.y()<b.y());
    sym_assert((a<b)==ref, "x first, then y"); sym_assert((a>b) == (b<a) && (a<=b) == !(b<a) && (a>=b) == !(a<b), "derived operators");
  } else {
    Position a=sp(), b=sp(), c=sp(), d=sp(), e=sp(), f=sp(); sym_reach("seg");
    UndirectedSegment s(a,b), t(b,a), u(c,d), w(e,f);
    sym_assert(s==t, "same segment whichever end comes first");
    sym_assert(s.first()==t.first() && s.second()==t.second(), "normalised ends");
    sym_assert((s.first()==a && s.second()==b) || (s.first()==b && s.second()==a), "keeps its two end points");
    sym_assert(!(s.second() < s.first()), "first end is never the larger one");
    bool same = (a==c && b==d) || (a==d && b==c);
    sym_assert((s==u) == same, "equal exactly when the end points are the same");
    sym_assert((s!=u) == !same, "operator!=");
    sym_assert(!(s<s) && !(s<u && u<s), "irreflexive and asymmetric"); sym_assert(!(s<u && u<w) || s<w, "transitive");
    sym_assert((s<u || u<s) == !same, "total");
    sym_assert((s>u) == (u<s) && (s<=u) == !(u<s) && (s>=u) == !(s<u), "derived operators");
    Position lo = b<a ? b : a, hi = b<a ? a : b, lo2 = d<c ? d : c, hi2 = d<c ? c : d;
    sym_assert((s<u) == (lo<lo2 || (lo==lo2 && hi<hi2)), "ordered by the smaller, then by the larger end");
    Segment p(a,b), q(c,d); sym_assert((p==q) == (a==c && b==d), "directed segments"); sym_assert(p.first()==a && p.second()==b, "directed segment keeps direction");
    sym_assert((p!=q) == !(p==q), "directed !=");
  }
}
