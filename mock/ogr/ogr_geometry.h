// The part of the OGR interface the library uses, as plain data.
#ifndef VERIF_OGR_H
#define VERIF_OGR_H
#include <vector>
struct OGRPoint { double x,y; OGRPoint(double a=0,double b=0) : x(a), y(b) {} double getX() const { return x; } double getY() const { return y; } };
struct OGRLineString { std::vector<OGRPoint> v; virtual ~OGRLineString(){} void addPoint(double a,double b){ v.push_back(OGRPoint(a,b)); } void setNumPoints(int n){ v.resize((size_t)n); } void setPoint(int i,double a,double b){ v[(size_t)i]=OGRPoint(a,b); } int getNumPoints() const { return (int)v.size(); } };
struct OGRLinearRing : public OGRLineString {};
struct OGRPolygon { std::vector<OGRLinearRing*> r; ~OGRPolygon(){ for(size_t i=0;i<r.size();i++) delete r[i]; } int addRingDirectly(OGRLinearRing* x){ r.push_back(x); return 0; } };
typedef int OGRErr; enum { OGRERR_NONE=0 };
struct OGRMultiPolygon { std::vector<OGRPolygon*> p; ~OGRMultiPolygon(){ for(size_t i=0;i<p.size();i++) delete p[i]; } OGRErr addGeometryDirectly(OGRPolygon* x){ p.push_back(x); return OGRERR_NONE; } };
#endif
