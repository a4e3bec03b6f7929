//@ bounds: areas from closed ways of 4 nodes (5 thorough) and from relations with 1 to 2 polygons (3 thorough) with 0 to 2 holes each, all positions arbitrary; the OGR and GEOS objects, whose libraries are stand-ins, compared ring by ring and point by point
//@ reach: way,relation,holes,two
//@ mock: geos ogr
//@ variant quick: n2 -DNPOLY=2 -DNN=4
//@ variant thorough: n3 -DNPOLY=3 -DNN=5
#include "sym.h"
#include <vector>
#include <sstream>
#include <iostream>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/osm/area.hpp>
#include <osmium/geometry/multipolygon.hpp>
#include <osmium/geometry/ogr_multipolygon.hpp>
using namespace Osmium::OSM; namespace G=Osmium::Geometry; using namespace geos::geom;
static double xs[16][8], ys[16][8]; static int len[16], nr=0; // rings in order
static int first[4];
static LinearRing* ring(int n){ std::vector<Coordinate>* c=new std::vector<Coordinate>; for(int i=0;i<n;i++){ double x,y; if(i==n-1){ x=xs[nr][0]; y=ys[nr][0]; } else { int32_t a=sym_i32("x"), b=sym_i32("y"); Position p(a,b); x=p.lon(); y=p.lat(); } xs[nr][i]=x; ys[nr][i]=y; c->push_back(Coordinate(x,y)); } len[nr++]=n; return new LinearRing(new CoordinateSequence(c)); }
static void same(const OGRLinearRing* l,int k){ sym_assert(l->getNumPoints()==len[k],"number of points of a ring"); for(int i=0;i<len[k];i++) sym_assert((l->v[i].x==xs[k][i])&(l->v[i].y==ys[k][i]),"points of a ring"); }
extern "C" void harness_main(){ int before=vg_live; { bool way=sym_flip("from way"); int np=1; Area* a;
  if(way){ Way w; w.id(7); int n=NN; for(int i=0;i<n;i++){ int32_t x=0,y=0; if(i<n-1){ x=sym_i32("x"); y=sym_i32("y"); } Position p=i<n-1?Position(x,y):w.nodes()[0].position(); w.nodes().add(WayNode(i<n-1?i+1:1,p)); xs[0][i]=p.lon(); ys[0][i]=p.lat(); } len[0]=n; first[0]=0; first[1]=1; nr=1; a=new Area(w); sym_reach("way"); }
  else { Relation r; r.id(7); np=sym_choice("polygons",1,NPOLY); std::vector<Geometry*>* p=new std::vector<Geometry*>; for(int i=0;i<np;i++){ first[i]=nr; LinearRing* s=ring(4); int h=sym_choice("holes",0,2); std::vector<Geometry*>* hs=h?new std::vector<Geometry*>:0; for(int k=0;k<h;k++) hs->push_back(ring(4)); p->push_back(new Polygon(s,hs)); if(h) sym_reach("holes"); } first[np]=nr; a=new Area(r); a->geos_geometry(new MultiPolygon(p)); sym_reach("relation"); if(np>1) sym_reach("two"); }
  { G::MultiPolygon g(*a); sym_assert(g.id()==a->id(),"id of the geometry"); const MultiPolygon* b=g.borrow_geos_geometry(); sym_assert(b!=0&&(int)b->getNumGeometries()==np,"number of polygons of the GEOS object");
    for(int i=0;i<np;i++){ const Polygon* p=static_cast<const Polygon*>(b->getGeometryN(i)); sym_assert((int)p->getNumInteriorRing()==first[i+1]-first[i]-1,"number of holes of the GEOS object"); for(int k=first[i];k<first[i+1];k++){ const CoordinateSequence* c=(k==first[i]?p->getExteriorRing():p->getInteriorRingN(k-first[i]-1))->getCoordinatesRO(); sym_assert((int)c->getSize()==len[k],"number of points of a ring"); for(int q=0;q<len[k];q++) sym_assert((c->getX(q)==xs[k][q])&(c->getY(q)==ys[k][q]),"points of a ring"); } }
    OGRMultiPolygon* o=G::create_ogr_geometry(g); sym_assert((int)o->p.size()==np,"number of polygons"); for(int i=0;i<np;i++){ sym_assert((int)o->p[i]->r.size()==first[i+1]-first[i],"number of rings"); for(int k=first[i];k<first[i+1];k++) same(o->p[i]->r[k-first[i]],k); } delete o; }
  delete a; sym_observe(nr*10+np); } sym_assert(vg_live==before,"no geometry is lost"); }
