//@ bounds: points, line strings of 0 to 3 nodes (5 thorough) and polygons of 1 to 4 nodes (5 thorough) with arbitrary positions and object ids, forward and reversed, from ways and from node lists, with and without SRID, written after one another to one stream; the text form compared number by number, the binary and hexadecimal forms byte by byte, the OGR, GEOS and shapelib objects (whose libraries are stand-ins) point by point
//@ reach: point,line,polygon,reversed,srid,empty
//@ mock: geos shp ogr
//@ variant quick: n3 -DNL=3 -DNP=4
//@ variant thorough: n5 -DNL=5 -DNP=5
#include "sym.h"
#include "tok.h"
#include <sstream>
#include <iostream>
#include <string>
#include <osmium/geometry/point.hpp>
#include <osmium/geometry/linestring.hpp>
#include <osmium/geometry/polygon.hpp>
#include <osmium/geometry/null.hpp>
#include <osmium/geometry/ogr.hpp>
#include <osmium/geometry/shplib.hpp>
using namespace Osmium::OSM; namespace G=Osmium::Geometry;
static int n; static Position ps[8]; // what the geometry has to describe, in order
static void bytes(const char* p,const void* v,int k,const char* what){ const char* q=(const char*)v; bool ok=true; for(int i=0;i<k;i++) ok=ok&(p[i]==q[i]); sym_assert(ok,what); }
static void wkb(const std::string& s,size_t& at,int type,bool srid){ uint32_t t=(uint32_t)type|(srid?0x20000000u:0), sr=4326, cnt=(uint32_t)n, one=1; size_t need=1+4+(srid?4:0)+(type==1?0:type==2?4:8)+16*(size_t)n; sym_assert(s.size()>=at+need,"length of the binary form"); const char* p=s.data()+at; sym_assert(p[0]==1,"byte order mark"); bytes(p+1,&t,4,"type in the binary form"); p+=5; if(srid){ bytes(p,&sr,4,"SRID in the binary form"); p+=4; } if(type==3){ bytes(p,&one,4,"number of rings"); p+=4; } if(type!=1){ bytes(p,&cnt,4,"number of points"); p+=4; } for(int i=0;i<n;i++){ double x=ps[i].lon(), y=ps[i].lat(); bytes(p,&x,8,"longitude in the binary form"); bytes(p+8,&y,8,"latitude in the binary form"); p+=16; } at+=need; }
static char hexdigit(uint8_t d){ return (char)(d<10?'0'+d:'A'+(d-10)); }
static void hexcheck(const std::string& h,const std::string& b,size_t hat,size_t bat,size_t blen){ sym_assert(h.size()>=hat+2*blen,"length of the hexadecimal form"); for(size_t i=0;i<blen;i++){ uint8_t c=(uint8_t)b[bat+i]; sym_assert((h[hat+2*i]==hexdigit(c>>4))&(h[hat+2*i+1]==hexdigit(c&15)),"the hexadecimal form encodes the binary form"); } }
static void wkt(const char*& p,int type,bool srid){ if(srid) sym_assert(tok_lit(p,"SRID=4326;"),"SRID in the text form"); static const char* O[]={"","POINT(","LINESTRING(","POLYGON(("}; sym_assert(tok_lit(p,O[type]),"type in the text form"); for(int i=0;i<n;i++){ if(i) sym_assert(tok_lit(p,","),"separator in the text form"); sym_assert(tok_deg(p,ps[i].lon()),"longitude in the text form"); sym_assert(tok_lit(p," "),"separator in the text form"); sym_assert(tok_deg(p,ps[i].lat()),"latitude in the text form"); } sym_assert(tok_lit(p,type==3?"))":")"),"end of the text form"); }
static void all(const G::Geometry& g,int type,bool srid){ std::ostringstream t, b, h; t<<g.as_WKT(srid)<<";"<<g.as_WKT(); b<<g.as_WKB(srid)<<g.as_WKB(); h<<g.as_HexWKB(srid)<<g.as_HexWKB(); std::string ts=t.str(), bs=b.str(), hs=h.str(); const char* p=ts.c_str(); wkt(p,type,srid); sym_assert(tok_lit(p,";"),"end of the text form"); wkt(p,type,false); sym_assert(*p==0,"end of the text form"); size_t at=0; wkb(bs,at,type,srid); wkb(bs,at,type,false); sym_assert(at==bs.size(),"length of the binary form"); hexcheck(hs,bs,0,0,at); sym_assert(hs.size()==2*at,"length of the hexadecimal form"); if(srid) sym_reach("srid"); }
static void pts(int k,const double* x,const double* y,const Position* w,int m,const char* what){ sym_assert(k==m,what); for(int i=0;i<m;i++) sym_assert((x[i]==w[i].lon())&(y[i]==w[i].lat()),what); }
static void ogr(const OGRLineString* l){ double x[8],y[8]; int k=l->getNumPoints(); sym_assert(k<=8,"points of the OGR object"); for(int i=0;i<k;i++){ x[i]=l->v[i].x; y[i]=l->v[i].y; } pts(k,x,y,ps,n,"points of the OGR object"); }
static void geos_(const geos::geom::LineString* l){ const geos::geom::CoordinateSequence* c=l->getCoordinatesRO(); double x[8],y[8]; int k=(int)c->size(); sym_assert(k<=8,"points of the GEOS object"); for(int i=0;i<k;i++){ x[i]=c->getX(i); y[i]=c->getY(i); } pts(k,x,y,ps,n,"points of the GEOS object"); }
static void shp(const G::Geometry& g,int type){ Position w[8]; int m=0; for(int i=0;i<n;i++) if(!i||!(ps[i]==ps[i-1])) w[m++]=ps[i]; bool bad=false; SHPObject* o=0; try { o=G::create_shp_object(g); } catch(const G::IllegalGeometry&){ bad=true; } sym_assert(bad==(m<2),"a shape needs two different positions"); if(!bad){ sym_assert(o!=0&&o->nSHPType==type,"type of the shape"); if(o){ pts(o->nVertices,&o->x[0],&o->y[0],w,m,"points of the shape"); sym_assert(o->nParts==1&&o->parts[0]==0,"one part"); } SHPDestroyObject(o); } sym_assert(vs_live==0,"no shape is lost"); }
static Position anywhere(){ int32_t x=sym_i32("x"), y=sym_i32("y"); return Position(x,y); }
extern "C" void harness_main(){ int kind=sym_choice("kind",1,3); bool srid=sym_flip("srid"); int64_t id=sym_i64("id");
  if(kind==1){ sym_reach("point"); n=1; Node nd; nd.id((osm_object_id_t)id); ps[0]=anywhere(); nd.position(ps[0]); bool fromnode=sym_flip("from node"); const G::Point* g=fromnode?new G::Point(nd):new G::Point(ps[0],(osm_object_id_t)id); sym_assert(g->id()==id,"id of the geometry"); sym_assert((g->lon()==ps[0].lon())&(g->lat()==ps[0].lat()),"position of the point"); all(*g,1,srid);
    OGRPoint* o=G::create_ogr_geometry(*g); sym_assert((o->x==ps[0].lon())&(o->y==ps[0].lat()),"points of the OGR object"); delete o; geos::geom::Point* gp=G::create_geos_geometry(*g); sym_assert((gp->getX()==ps[0].lon())&(gp->getY()==ps[0].lat()),"points of the GEOS object"); delete gp; SHPObject* s=G::create_shp_object((const G::Geometry&)*g); sym_assert(s&&s->nSHPType==SHPT_POINT&&s->nVertices==1,"type of the shape"); sym_assert((s->x[0]==ps[0].lon())&(s->y[0]==ps[0].lat()),"points of the shape"); SHPDestroyObject(s); delete g; }
  else { bool rev=sym_flip("reverse"); n=sym_choice("nodes",kind==3?1:0,kind==3?NP:NL); Way w; w.id((osm_object_id_t)id); Position p[8]; for(int i=0;i<n;i++){ if(kind==3&&i&&i==n-1){ w.nodes().add(WayNode(100,p[0])); p[i]=p[0]; } else { int same=i?sym_choice("same position",0,i>1?2:1):0; p[i]=same==1?p[i-1]:same==2?p[0]:anywhere(); if(!same&&i) sym_assume(!(p[i]==p[i-1])&&!(p[i]==p[0])); w.nodes().add(WayNode(100+i,p[i])); } } for(int i=0;i<n;i++) ps[i]=p[rev?n-1-i:i]; if(rev&&n>1) sym_reach("reversed"); if(!n) sym_reach("empty");
    bool list=sym_flip("from list"); bool pos=true; for(int i=0;i<n;i++) pos=pos&p[i].defined();
    if(kind==2){ sym_reach("line"); const G::LineString* g=list?new G::LineString(w.nodes(),rev,(osm_object_id_t)id):new G::LineString(w,rev); sym_assert(g->id()==id&&g->reverse()==rev,"id of the geometry"); all(*g,2,srid); if(!srid){ OGRLineString* o=G::create_ogr_geometry(*g); ogr(o); delete o; geos::geom::LineString* gg=G::create_geos_geometry(*g); geos_(gg); delete gg; if(n&&pos) shp(*g,SHPT_ARC); } delete g; }
    else { sym_reach("polygon"); const G::Polygon* g=list?new G::Polygon(w.nodes(),rev,(osm_object_id_t)id):new G::Polygon(w,rev); sym_assert(g->id()==id&&g->reverse()==rev,"id of the geometry"); all(*g,3,srid); if(!srid){ OGRPolygon* o=G::create_ogr_geometry(*g); sym_assert(o->r.size()==1,"one ring"); ogr(o->r[0]); delete o; geos::geom::Polygon* gg=G::create_geos_geometry(*g); sym_assert(gg->getNumInteriorRing()==0,"one ring"); geos_(gg->getExteriorRing()); delete gg; if(pos) shp(*g,SHPT_POLYGON); } delete g; } }
  sym_assert(vg_live==0,"no geometry is lost"); sym_observe(kind*10+n); }
