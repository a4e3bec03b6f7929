//@ mock: sparse
//@ bounds: up to 3 nodes (4 thorough) with arbitrary ids (positive and negative 64 bit, except INT64_MIN) and coordinates, a way with up to 2 (3) arbitrary node references, stores: StlMap, Vector (nodes in sorted order), SparseTable (ids below 2^40); ways whose references have no or arbitrary earlier positions; two ways, and one way twice with a node stored anew in between, through one handler
//@ reach: stale,neg,pos,known,unknown,map,vector,sparse
//@ variant quick: n3 -DVN=3 -DVR=2 -DVX=0
//@ variant quick: stale2 -DVN=2 -DVR=2 -DVX=1
//@ variant thorough: n4 -DVN=4 -DVR=2 -DVX=0
//@ variant thorough: stale3 -DVN=3 -DVR=2 -DVX=1
#include "sym.h"
#include <assert.h>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
using namespace Osmium::OSM;
static int64_t sid(const char* n,int64_t lim){ return sym_flip("negative")?sym_i64(n,-lim,-1):sym_i64(n,0,lim); }
template<class S> static void go(int64_t lim,bool sorted){
  S pos,neg; typedef Osmium::Handler::CoordinatesForWays<S,S> H; H h(pos,neg); Meta meta; h.init(meta); h.before_nodes();
  int n=sym_choice("nodes",0,VN); int64_t id[VN]; int32_t x[VN],y[VN];
  for(int i=0;i<n;i++){ id[i]=sid("id",lim); x[i]=sym_i32("x"); y[i]=sym_i32("y"); if(sorted&&i){ if(id[i]>=0) sym_assume(id[i-1]<0||id[i-1]<=id[i]); else sym_assume(id[i-1]>=0||id[i-1]>=id[i]); }
    if(sorted) for(int j=0;j+1<i;j++) sym_assume((id[i]<0)!=(id[j]<0)||(id[i]>=0?id[j]<=id[i]:id[j]>=id[i]));
    shared_ptr<Node> nd=make_shared<Node>(); nd->id(id[i]); sym_rest(*nd); nd->position(Position(x[i],y[i])); h.node(nd); }
  h.after_nodes(); h.before_ways();
  int nr=sym_choice("refs",0,VR); shared_ptr<Way> w=make_shared<Way>(); w->id((osm_object_id_t)77); sym_rest(*w); w->version((osm_version_t)3); w->tags().add("k","v"); int64_t ref[VR];
  bool had=VX&&nr&&sym_flip("old position"); int32_t ox=0; for(int i=0;i<nr;i++){ ref[i]=sid("ref",lim); if(had){ ox=sym_i32("oldx"); { w->add_node(ref[i]); w->nodes()[i].position(Position(ox,i)); } } else w->add_node(ref[i]); }
  if(had) sym_reach("stale"); h.way(w);
  sym_assert(w->id()==77&&w->version()==3&&w->tags().size()==1&&w->nodes().size()==(unsigned)nr,"the rest of the way is unchanged");
  for(int i=0;i<nr;i++){ int32_t ex=INT32_MAX,ey=INT32_MAX; bool known=false; for(int j=0;j<n;j++){ bool m=id[j]==ref[i]; known=known|m; ex=m?x[j]:ex; ey=m?y[j]:ey; }
    const Position p=w->nodes()[i].position(); sym_assert(w->nodes()[i].ref()==ref[i],"references are unchanged"); sym_assert(p.x()==ex&&p.y()==ey,"coordinates of the last node seen with the id, undefined for unknown nodes"); sym_observe((uint64_t)p.x());
    const Position q=h.get_node_pos(ref[i]); sym_assert(q.x()==ex&&q.y()==ey,"lookup of a node position"); 
    if(i==0){ if(ref[i]<0) sym_reach("neg"); else sym_reach("pos"); if(known) sym_reach("known"); else { sym_reach("unknown"); sym_assert(!w->nodes()[i].has_position(),"unknown node stays without coordinates"); } } }
  shared_ptr<Way> w2=make_shared<Way>(); if(nr) w2->add_node(ref[0]); h.way(w2); if(nr) sym_assert(w2->nodes()[0].position().x()==w->nodes()[0].position().x(),"second way gets the same coordinates");
  if(VX&&n&&nr){ shared_ptr<Node> nd=make_shared<Node>(); nd->id(id[n-1]); int32_t mx=sym_i32("movedx"); nd->position(Position(mx,y[n-1])); h.node(nd); h.way(w); sym_assert(w->nodes()[0].position().x()==((id[n-1]==ref[0])?mx:w2->nodes()[0].position().x()),"a way read again takes the position stored last"); }
  h.after_ways(); h.final();
}
extern "C" void harness_main(){
  switch(sym_choice("store",0,2)){ case 0: sym_reach("map"); go<Osmium::Storage::ById::StlMap<Position> >(INT64_MAX,false); break;
  case 1: sym_reach("vector"); go<Osmium::Storage::ById::Vector<Position> >(INT64_MAX,true); break;
  default: sym_reach("sparse"); go<Osmium::Storage::ById::SparseTable<Position> >(1ll<<40,false); }
}
