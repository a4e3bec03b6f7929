//@ bounds: all 2^32 stored values per coordinate; the conversions are exact for every value
//@ reach: roundtrip,defined,undefined,waynode
#include "sym.h"
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/bounds.hpp>
#include <osmium/osm/segment.hpp>
using namespace Osmium::OSM;
extern "C" void harness_main(){
  const int32_t INV = INT32_MAX;
  int32_t x = sym_i32("x"), y = sym_i32("y");
  Position p(x, y);
  sym_assert(p.x()==x && p.y()==y, "constructor stores both coordinates");
  sym_assert(p.defined() == (x!=INV && y!=INV), "defined exactly when both coordinates were given");
  Position q(p.lon(), p.lat());
  sym_assert(q.x()==x, "longitude survives conversion to degrees and back");
  sym_assert(q.y()==y, "latitude survives conversion to degrees and back");
  sym_reach("roundtrip");
  Position r((int64_t)x, (int64_t)y);
  sym_assert(r==p, "64 bit constructor stores the same position");
  // the setters touch one coordinate each
  Position s; sym_assert(!s.defined(), "default position undefined");
  int32_t a = sym_i32("a"), b = sym_i32("b");
  s.x(a); sym_assert(s.x()==a && s.y()==INV && !s.defined(), "setting x leaves y");
  s.y(b); sym_assert(s.x()==a && s.y()==b, "setting y leaves x");
  sym_assert(s.defined() == (a!=INV && b!=INV), "defined after both set");
  s.lon(p.lon()); sym_assert(s.x()==x && s.y()==b, "setting the longitude leaves the latitude");
  s.lat(p.lat()); sym_assert(s.x()==x && s.y()==y, "setting the latitude leaves the longitude");
  Position t; t.lat(p.lat()); sym_assert(t.x()==INV && t.y()==y && !t.defined(), "only latitude given");
  // nodes
  Node n; sym_assert(!n.position().defined(), "new node has no position");
  n.position(p); sym_assert(n.position()==p, "node stores position");
  Node m; m.lon(n.lon()); sym_assert(m.position().x()==x && m.position().y()==INV, "node lon");
  m.lat(n.lat()); sym_assert(m.position()==p, "node lat");
  // way nodes
  int64_t ref = sym_i64("ref");
  WayNode wn(ref); sym_assert(!wn.has_position() && wn.ref()==ref, "way node without position");
  wn.position(p); sym_assert(wn.position().x()==x && wn.position().y()==y && wn.ref()==ref, "way node stores position");
  sym_assert(wn.has_position() == p.defined(), "way node has_position");
  WayNode wm(ref, Position(wn.lon(), wn.lat())); sym_assert(wm.position()==p && wm.ref()==ref, "way node lon lat");
  sym_reach("waynode");
  Segment sg(p, Position(a,b)); sym_assert(sg.first()==p && sg.second().x()==a && sg.second().y()==b, "segment keeps its ends");
  if (p.defined()) sym_reach("defined"); else sym_reach("undefined");
  sym_observe((uint64_t)q.x()); sym_observe((uint64_t)q.y());
}
