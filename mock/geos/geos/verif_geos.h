// The part of the GEOS 3.x interface the library uses, as plain data. What GEOS computes with geometries
// (validity, union, text and binary output) is not modelled.
#ifndef VERIF_GEOS_H
#define VERIF_GEOS_H
#include <vector>
#include <string>
#include <ostream>
#include <cassert>
#include <stdexcept>
static int vg_live=0; // geometries and sequences that have not been freed
#ifdef VERIF_GEOS_OPS
// what GEOS computes is decided by the harness, which defines these functions
namespace geos { namespace geom { class Geometry; class Polygon; class LineString; class CoordinateSequence; } }
static bool vg_simple(const geos::geom::Geometry*); static bool vg_valid(const geos::geom::Geometry*); static bool vg_contains(const geos::geom::Polygon*,const geos::geom::Polygon*); static bool vg_intersects(const geos::geom::Geometry*,const geos::geom::Geometry*); static geos::geom::Geometry* vg_intersection(const geos::geom::Geometry*,const geos::geom::Geometry*); static geos::geom::Geometry* vg_symdiff(const geos::geom::Geometry*,const geos::geom::Geometry*); static std::vector<geos::geom::Polygon*>* vg_polygonize(const std::vector<geos::geom::Geometry*>&); static bool vg_ccw(const geos::geom::CoordinateSequence*); static void vg_made(const char*);
namespace geos { namespace util { struct GEOSException : public std::runtime_error { explicit GEOSException(const std::string& m) : std::runtime_error(m) {} }; struct IllegalArgumentException : public GEOSException { explicit IllegalArgumentException(const std::string& m) : GEOSException(m) {} }; } }
#define VG(x) x
#else
#define VG(x)
#endif
namespace geos { namespace geom {
  enum GeometryTypeId { GEOS_POINT, GEOS_LINESTRING, GEOS_LINEARRING, GEOS_POLYGON, GEOS_MULTIPOINT, GEOS_MULTILINESTRING, GEOS_MULTIPOLYGON, GEOS_GEOMETRYCOLLECTION };
  struct PrecisionModel { PrecisionModel() {} };
  struct Coordinate { double x, y, z; Coordinate(double x_=0,double y_=0,double z_=0) : x(x_), y(y_), z(z_) {} };
  class CoordinateSequence { std::vector<Coordinate>* v; public: explicit CoordinateSequence(std::vector<Coordinate>* c) : v(c) { vg_live++; } ~CoordinateSequence(){ delete v; vg_live--; } size_t getSize() const { return v->size(); } size_t size() const { return v->size(); } double getX(size_t i) const { return (*v)[i].x; } double getY(size_t i) const { return (*v)[i].y; } const Coordinate& getAt(size_t i) const { return (*v)[i]; } CoordinateSequence* clone() const { return new CoordinateSequence(new std::vector<Coordinate>(*v)); } const std::vector<Coordinate>* toVector() const { return v; } void add(const Coordinate& c,bool repeated){ if(!repeated&&!v->empty()&&v->back().x==c.x&&v->back().y==c.y) return; v->push_back(c); } };
  class Geometry { public: Geometry(){ vg_live++; } virtual ~Geometry(){ vg_live--; } virtual GeometryTypeId getGeometryTypeId() const=0; virtual Geometry* clone() const=0; VG(bool isSimple() const { return vg_simple(this); } bool isValid() const { return vg_valid(this); } bool intersects(const Geometry* o) const { return vg_intersects(this,o); } Geometry* intersection(const Geometry* o) const { return vg_intersection(this,o); } Geometry* symDifference(const Geometry* o) const { return vg_symdiff(this,o); }) };
  class Point : public Geometry { public: Coordinate c; explicit Point(const Coordinate& c_) : c(c_) {} GeometryTypeId getGeometryTypeId() const { return GEOS_POINT; } Geometry* clone() const { return new Point(c); } double getX() const { return c.x; } double getY() const { return c.y; } };
  class LineString : public Geometry { public: CoordinateSequence* cs; explicit LineString(CoordinateSequence* s) : cs(s) {} ~LineString(){ delete cs; } GeometryTypeId getGeometryTypeId() const { return GEOS_LINESTRING; } Geometry* clone() const { return new LineString(cs->clone()); } const CoordinateSequence* getCoordinatesRO() const { return cs; } CoordinateSequence* getCoordinates() const { return cs->clone(); } CoordinateSequence* turned() const { std::vector<Coordinate>* r=new std::vector<Coordinate>; for(size_t i=cs->getSize();i-->0;) r->push_back(cs->getAt(i)); return new CoordinateSequence(r); } virtual Geometry* reverse() const { return new LineString(turned()); } size_t getNumPoints() const { return cs->getSize(); } };
  class LinearRing : public LineString { public: explicit LinearRing(CoordinateSequence* s) : LineString(s) {} GeometryTypeId getGeometryTypeId() const { return GEOS_LINEARRING; } Geometry* clone() const { return new LinearRing(cs->clone()); } Geometry* reverse() const { return new LinearRing(turned()); } };
  class Polygon : public Geometry { public: LinearRing* shell; std::vector<Geometry*>* holes; Polygon(LinearRing* s,std::vector<Geometry*>* h) : shell(s), holes(h) {} ~Polygon(){ delete shell; if(holes){ for(size_t i=0;i<holes->size();i++) delete (*holes)[i]; delete holes; } } GeometryTypeId getGeometryTypeId() const { return GEOS_POLYGON; }
    Geometry* clone() const { std::vector<Geometry*>* h=0; if(holes){ h=new std::vector<Geometry*>; for(size_t i=0;i<holes->size();i++) h->push_back((*holes)[i]->clone()); } return new Polygon(static_cast<LinearRing*>(shell->clone()),h); } const LineString* getExteriorRing() const { return shell; } size_t getNumInteriorRing() const { return holes?holes->size():0; } const LineString* getInteriorRingN(size_t i) const { return static_cast<LineString*>((*holes)[i]); } };
  class GeometryCollection : public Geometry { public: std::vector<Geometry*>* parts; typedef std::vector<Geometry*>::const_iterator const_iterator; explicit GeometryCollection(std::vector<Geometry*>* p) : parts(p) {} ~GeometryCollection(){ for(size_t i=0;i<parts->size();i++) delete (*parts)[i]; delete parts; } GeometryTypeId getGeometryTypeId() const { return GEOS_GEOMETRYCOLLECTION; } std::vector<Geometry*>* copy() const { std::vector<Geometry*>* p=new std::vector<Geometry*>; for(size_t i=0;i<parts->size();i++) p->push_back((*parts)[i]->clone()); return p; } Geometry* clone() const { return new GeometryCollection(copy()); } const_iterator begin() const { return parts->begin(); } const_iterator end() const { return parts->end(); } size_t getNumGeometries() const { return parts->size(); } const Geometry* getGeometryN(size_t i) const { return (*parts)[i]; } };
  class MultiPolygon : public GeometryCollection { public: explicit MultiPolygon(std::vector<Geometry*>* p) : GeometryCollection(p) {} GeometryTypeId getGeometryTypeId() const { return GEOS_MULTIPOLYGON; } Geometry* clone() const { return new MultiPolygon(copy()); } };
  struct CoordinateSequenceFactory { CoordinateSequence* create(std::vector<Coordinate>* v) const { return new CoordinateSequence(v); } CoordinateSequence* create(size_t,size_t) const { return new CoordinateSequence(new std::vector<Coordinate>); } };
  struct CoordinateArraySequenceFactory : public CoordinateSequenceFactory { static const CoordinateArraySequenceFactory* instance(){ static CoordinateArraySequenceFactory f; return &f; } };
  class GeometryFactory { CoordinateSequenceFactory f; public: GeometryFactory(const PrecisionModel*,int){} GeometryFactory(){} const CoordinateSequenceFactory* getCoordinateSequenceFactory() const { return &f; } Point* createPoint(const Coordinate& c) const { return new Point(c); } LineString* createLineString(CoordinateSequence* s) const { return new LineString(s); } LinearRing* createLinearRing(CoordinateSequence* s) const { VG(size_t n=s->getSize(); if(n&&(n<4||s->getX(0)!=s->getX(n-1)||s->getY(0)!=s->getY(n-1))){ delete s; throw util::IllegalArgumentException("not a ring"); }) return new LinearRing(s); } Polygon* createPolygon(LinearRing* r,std::vector<Geometry*>* h) const { VG(vg_made(h?"polygon":"ring");) return new Polygon(r,h); } MultiPolygon* createMultiPolygon(std::vector<Geometry*>* p) const { VG(vg_made("multipolygon");) return new MultiPolygon(p); } };
} namespace io { struct WKTWriter { std::string write(const geom::Geometry*){ return ""; } }; struct WKBWriter { void setIncludeSRID(bool){} void write(const geom::Geometry&,std::ostream&){} void writeHEX(const geom::Geometry&,std::ostream&){} }; }
#ifdef VERIF_GEOS_OPS
namespace geom { namespace prep { class PreparedPolygon { const Polygon* p; public: explicit PreparedPolygon(const Polygon* g) : p(g) {} bool contains(const Geometry* g) const { return vg_contains(p,static_cast<const Polygon*>(g)); } }; } }
namespace algorithm { struct CGAlgorithms { static bool isCCW(const geom::CoordinateSequence* s){ return vg_ccw(s); } }; }
namespace operation { namespace polygonize { class Polygonizer { std::vector<geom::Geometry*> in; public: Polygonizer(){} void add(geom::Geometry* g){ in.push_back(g); } std::vector<geom::Polygon*>* getPolygons(){ return vg_polygonize(in); } }; } }
#endif
}
#endif
