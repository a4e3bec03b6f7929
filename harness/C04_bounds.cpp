//@ bounds: up to 4 positions (5 thorough), every pair of 32 bit coordinates including undefined ones; through Bounds::extend and through the FindBbox handler
//@ reach: empty,some,undef,handler
//@ variant quick: n4 -DVN=4
//@ variant thorough: n6 -DVN=6
#include "sym.h"
#include <osmium/handler/find_bbox.hpp>
using namespace Osmium::OSM;
extern "C" void harness_main(){
  int n = sym_choice("n",0,VN); bool useh = sym_flip("handler");
  int32_t x[VN], y[VN]; Bounds b, r; Osmium::Handler::FindBbox h; bool any=false;
  int32_t x0=0,x1=0,y0=0,y1=0; bool allin=true;
  for (int i=0;i<n;i++){ x[i]=sym_i32("x"); y[i]=sym_i32("y"); }
  for (int i=0;i<n;i++){
    Position p(x[i],y[i]);
    if (useh) { sym_reach("handler"); shared_ptr<Node> nd=make_shared<Node>(); nd->position(p); h.node(nd); }
    else b.extend(p);
  }
  if (useh) { b = h.bounds(); bool stopped=false; try { h.after_nodes(); } catch (Osmium::Handler::StopReading&) { stopped=true; } sym_assert(stopped, "handler stops after the nodes"); }
  for (int i=n-1;i>=0;i--) r.extend(Position(x[i],y[i]));
  for (int i=0;i<n;i++){
    bool d = x[i]!=INT32_MAX && y[i]!=INT32_MAX; 
    x0 = d ? (any ? (x[i]<x0?x[i]:x0) : x[i]) : x0; x1 = d ? (any ? (x[i]>x1?x[i]:x1) : x[i]) : x1;
    y0 = d ? (any ? (y[i]<y0?y[i]:y0) : y[i]) : y0; y1 = d ? (any ? (y[i]>y1?y[i]:y1) : y[i]) : y1;
    any = any | d; if (!d) sym_reach("undef");
  }
  sym_assert(b.defined()==any, "defined exactly when a defined position was added");
  if (any) { sym_reach("some");
    sym_assert(b.bottom_left().x()==x0, "left edge"); sym_assert(b.top_right().x()==x1, "right edge");
    sym_assert(b.bottom_left().y()==y0, "bottom edge"); sym_assert(b.top_right().y()==y1, "top edge");
    sym_assert(b.top_right().defined(), "top right defined");
  } else { sym_reach("empty"); sym_assert(!b.bottom_left().defined() && !b.top_right().defined(), "empty box has no corners"); }
  sym_assert(r.bottom_left()==b.bottom_left() && r.top_right()==b.top_right(), "order does not matter");
  sym_observe(b.bottom_left().x()); sym_observe(b.top_right().y());
}
