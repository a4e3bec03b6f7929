//@ bounds: areas made from ways and relations with every id from -2^62+1 to 2^62-1 and arbitrary versions and metadata, two at a time; copies and assignments of areas with and without a geometry, to themselves and to each other, with one tag and a closed way of four nodes; geos is a stand-in
//@ reach: way,relation,same,copied,assigned,geometry,negative
//@ mock: geos
#include "sym.h"
#include <sstream>
#include <iostream>
#include <string>
#include <osmium/osm/area.hpp>
#include <osmium/geometry/multipolygon.hpp>
using namespace Osmium::OSM; static const int64_t L=((int64_t)1<<62)-1;
struct Src { bool way; int64_t id; uint32_t version; bool visible; int32_t changeset, uid; int64_t ts, end; };
template <class O> static void meta(Src& s,O& o){ s.visible=sym_bool("visible"); s.changeset=sym_i32("changeset",0); s.uid=sym_i32("uid",-1); s.ts=sym_i32("timestamp",0); s.end=sym_i32("endtime",0); o.visible(s.visible); o.changeset(s.changeset); o.uid(s.uid); o.timestamp((time_t)s.ts); o.endtime((time_t)s.end); o.user(s.way?"w":"r"); }
static Area* mk(Src& s){ s.way=sym_flip("from way"); s.id=sym_i64("id",-L,L); s.version=sym_u32("version"); if(s.way){ Way w; meta(s,w); w.id((osm_object_id_t)s.id); w.version((osm_version_t)s.version); w.tags().add("k","v"); for(int i=0;i<4;i++){ w.add_node(i%3+1); w.nodes()[i].position(Position(i%3+1,i%3*i%3)); } sym_reach("way"); return new Area(w); } Relation r; meta(s,r); r.id((osm_object_id_t)s.id); r.version((osm_version_t)s.version); r.tags().add("k","v"); sym_reach("relation"); return new Area(r); }
static void chk(const Area& a,const Src& s,const char* what){ sym_assert((a.orig_id()==s.id)&(a.from_way()==s.way)&(a.version()==s.version),what); sym_assert(a.tags().size()==1&&!strcmp(a.tags().get_value_by_key("k"),"v"),"tags of the area"); sym_assert((a.visible()==s.visible)&(a.changeset()==s.changeset)&(a.uid()==s.uid)&(a.timestamp()==s.ts)&(a.endtime()==s.end)&!strcmp(a.user(),s.way?"w":"r"),"metadata of the area"); sym_assert(a.type()==AREA,"type"); }
static geos::geom::MultiPolygon* geom(double x){ using namespace geos::geom; std::vector<Coordinate>* c=new std::vector<Coordinate>; c->push_back(Coordinate(x,x)); std::vector<Geometry*>* p=new std::vector<Geometry*>; p->push_back(new Polygon(new LinearRing(new CoordinateSequence(c)),0)); return new MultiPolygon(p); }
static double geox(const Area& a){ Osmium::Geometry::MultiPolygon m(a); const geos::geom::MultiPolygon* g=m.borrow_geos_geometry(); return static_cast<const geos::geom::Polygon*>(g->getGeometryN(0))->getExteriorRing()->getCoordinatesRO()->getX(0); }
// areas of ways get their geometry from the nodes of the way, those of relations have none unless it was set
static bool geo(const Area& a){ try { Osmium::Geometry::MultiPolygon m(a); return m.borrow_geos_geometry()!=0; } catch(const Osmium::Geometry::RingNotClosed&){ return false; } }
extern "C" void harness_main(){ Src s, t; Area* a=mk(s); Area* b=mk(t); chk(*a,s,"the source can be told from the area"); chk(*b,t,"the source can be told from the area"); bool same=(s.way==t.way)&(s.id==t.id); sym_assert((a->id()==b->id())==same,"two areas share an id only if they come from the same object"); if(s.way==t.way&&s.id==t.id) sym_reach("same"); if(s.id<0) sym_reach("negative"); sym_assert((a->id()<0)==(s.id<0)||s.id==0,"the sign of the id is kept");
  bool lt=*a<*b, gt=*b<*a; sym_assert(!(lt&gt),"areas are ordered one way only"); sym_assert((!lt&!gt)==(a->id()==b->id()&&s.version==t.version),"areas are equivalent only with equal id and version");
  int g=sym_choice("geometry",0,2); if(g){ a->geos_geometry(geom(1)); sym_reach("geometry"); } if(g==2) b->geos_geometry(geom(2)); int op=sym_choice("copy",0,4);
  if(op==1){ Area* c=new Area(*a); chk(*c,s,"a copy is the same area"); chk(*a,s,"copying changes nothing"); if(g){ delete a; a=0; sym_assert(geox(*c)==1,"a copy has its own geometry"); } delete c; sym_reach("copied"); }
  else if(op==2){ *b=*a; chk(*b,s,"assignment makes the same area"); chk(*a,s,"copying changes nothing"); if(g){ delete a; a=0; sym_assert(geox(*b)==1,"a copy has its own geometry"); } if(!g) sym_assert(geo(*b)==s.way,"assignment copies the nodes"); sym_reach("assigned"); }
  else if(op==3){ *a=*b; chk(*a,t,"assignment makes the same area"); if(g==2) sym_assert(geox(*a)==2,"a copy has its own geometry"); else sym_assert(geo(*a)==t.way,"assignment copies the nodes"); sym_reach("assigned"); }
  else if(op==4){ Area& r=*a; *a=r; chk(*a,s,"assignment makes the same area"); if(g) sym_assert(geox(*a)==1,"a copy has its own geometry"); }
  delete a; delete b; sym_assert(vg_live==0,"geometries are freed"); sym_observe(g*10+op); }
