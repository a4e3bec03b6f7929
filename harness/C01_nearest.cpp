//@ bounds: every degree value that is a multiple of 1e-10 degrees with |value| <= 214.7483646 (two free coordinates), computed as one correctly rounded double
//@ reach: neg,pos
#include "sym.h"
#include <osmium/osm/node.hpp>
using namespace Osmium::OSM;
static double deg(int64_t k){ return (double)k / 10000000000.0; }
static void check(int64_t k, int32_t fix, const char* l){ // |fix*1000 - k| <= 500, ties and double rounding may go either way
  int64_t d = (int64_t)fix*1000 - k; sym_assert(d >= -500 && d <= 500, l);
}
extern "C" void harness_main(){
  const int64_t L = 2147483646000LL;
  int64_t k = sym_i64("lon_e10", -L, L), m = sym_i64("lat_e10", -L, L);
  int which = sym_choice("which", 0, 2);
  if (which==0) { Position p(deg(k), deg(m)); check(k, p.x(), "constructor stores the nearest longitude"); check(m, p.y(), "constructor stores the nearest latitude"); sym_observe(p.x()); }
  else if (which==1) { Position p; p.lon(deg(k)); p.lat(deg(m)); check(k, p.x(), "lon() stores the nearest value"); check(m, p.y(), "lat() stores the nearest value"); sym_observe(p.y()); }
  else { Node n; n.lon(deg(k)); n.lat(deg(m)); check(k, n.position().x(), "node lon() stores the nearest value"); check(m, n.position().y(), "node lat() stores the nearest value"); }
  if (k<-500) sym_reach("neg");
  if (k>500) sym_reach("pos");
}
