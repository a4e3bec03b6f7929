//@ bounds: ways of 0 to 4 nodes (6 thorough) with arbitrary references (equal or not in every combination), positions arbitrary for every node or for none, both directions; geometries made from ways and from node lists; geos, shapelib are stand-ins
//@ reach: closed,open,none,refused,shape,degenerate,nopos
//@ mock: geos shp
//@ variant quick: n4 -DNN=4
//@ variant thorough: n6 -DNN=6
#include "sym.h"
#include <sstream>
#include <iostream>
#include <string>
#include <osmium/geometry/point.hpp>
#include <osmium/geometry/linestring.hpp>
#include <osmium/geometry/polygon.hpp>
#include <osmium/geometry/shplib.hpp>
using namespace Osmium::OSM; namespace G=Osmium::Geometry;
static int64_t ref[8]; static Position pos[8]; static int n; enum { MADE, OPENRING, ILLEGAL, NOCOORD };
template<class T> static int poly(const T& from,bool rev,const WayNodeList* l){ try { G::Polygon p(from,rev); sym_assert(&p.nodes()==l&&p.reverse()==rev,"the polygon describes the nodes of the way"); for(int i=0;i<n;i++) sym_assert((p[i].ref()==ref[i])&(p[i].position().x()==pos[i].x())&(p[i].position().y()==pos[i].y()),"the polygon describes the nodes of the way"); return MADE; } catch(const G::RingNotClosed&){ return OPENRING; } }
static int shape(const G::Geometry& g,SHPObject*& o){ o=0; try { o=G::create_shp_object(g); return MADE; } catch(const G::IllegalGeometry&){ return ILLEGAL; } catch(const std::runtime_error&){ return NOCOORD; } }
extern "C" void harness_main(){ n=sym_choice("nodes",0,NN); bool have=n?sym_flip("positions"):false, rev=sym_flip("reverse"); Way* w=sym_flip("space reserved")?new Way():new Way(0); w->id(7); bool closed=false;
  for(int i=0;i<n;i++){ // same: the node before, or the first one
    int same=i==0?0:sym_choice("same node",0,i==1?1:2); if(same==1){ ref[i]=ref[i-1]; pos[i]=pos[i-1]; } else if(same==2){ ref[i]=ref[0]; pos[i]=pos[0]; } else { ref[i]=sym_i64("ref"); if(have){ bool sp=i&&sym_flip("same position"); if(sp) pos[i]=pos[i-1]; else { int32_t x=sym_i32("x"), y=sym_i32("y"); pos[i]=Position(x,y); sym_assume(pos[i].defined()); for(int j=0;j<i;j++) sym_assume(!(pos[j]==pos[i])); } } for(int j=0;j<i;j++) sym_assume(ref[j]!=ref[i]); } w->nodes().add(WayNode((osm_object_id_t)ref[i],pos[i])); }
  closed=n>0&&ref[0]==ref[n-1]; if(closed) sym_reach("closed"); else if(n) sym_reach("open"); else sym_reach("none");
  sym_assert(w->is_closed()==closed,"a way is closed if its first and last node are the same"); sym_assert(w->nodes().is_closed()==closed,"a way is closed if its first and last node are the same"); sym_assert(w->nodes().has_position()==have,"positions are known or not");
  int r=poly(*w,rev,&w->nodes()), r2=poly(w->nodes(),rev,&w->nodes()); sym_assert(r==(closed?MADE:OPENRING),"a polygon is made exactly from a closed way"); sym_assert(r2==r,"a polygon is made exactly from a closed way"); if(r!=MADE) sym_reach("refused");
  G::LineString l(*w,rev); sym_assert(&l.nodes()==&w->nodes()&&l.reverse()==rev&&l.id()==7,"the line describes the nodes of the way"); for(int i=0;i<n;i++) sym_assert((l[i].ref()==ref[i])&(l[i].position().x()==pos[i].x())&(l[i].position().y()==pos[i].y()),"the line describes the nodes of the way");
  int m=0; for(int i=0;i<n;i++) if(!i||!(pos[i]==pos[i-1])) m++;
  for(int k=0;k<2;k++){ SHPObject* o; int s; if(k==0) s=shape(l,o); else { if(!closed) continue; G::Polygon p(*w,rev); s=shape(p,o); } int want=!have?NOCOORD:m<2?ILLEGAL:MADE; sym_assert(s==want,"a shape is made only from at least two different positions"); if(s==MADE){ sym_reach("shape"); sym_assert(o->nSHPType==(k?SHPT_POLYGON:SHPT_ARC)&&o->nVertices==m,"the shape has every position"); SHPDestroyObject(o); } else { sym_assert(o==0,"no shape together with an error"); if(s==ILLEGAL) sym_reach("degenerate"); else sym_reach("nopos"); } sym_assert(vs_live==0,"no shape is lost"); }
  delete w; sym_observe(n*100+r*10+m); }
