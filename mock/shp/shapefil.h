// The part of the shapelib interface the library uses; files are records in memory (see the harness).
#ifndef VERIF_SHP_H
#define VERIF_SHP_H
#include <string.h>
#include <string>
#include <vector>
enum { SHPT_NULL=0, SHPT_POINT=1, SHPT_ARC=3, SHPT_POLYGON=5, SHPT_MULTIPOINT=8, SHPT_POINTZ=11, SHPT_ARCZ=13, SHPT_POLYGONZ=15, SHPT_MULTIPOINTZ=18, SHPT_POINTM=21, SHPT_ARCM=23, SHPT_POLYGONM=25, SHPT_MULTIPOINTM=28, SHPT_MULTIPATCH=31 };
struct SHPObject { int nSHPType, nShapeId, nParts; int* panPartStart; int nVertices; std::vector<double> x,y; std::vector<int> parts; };
struct SHPInfo { int nShapeType; int id; }; typedef SHPInfo* SHPHandle;
struct DBFInfo { int id; }; typedef DBFInfo* DBFHandle; typedef enum { FTString, FTInteger, FTDouble, FTLogical, FTInvalid } DBFFieldType;
static int vs_live=0;
static inline SHPObject* SHPCreateObject(int t,int id,int np,const int* ps,const int*,int n,const double* x,const double* y,const double*,const double*){ SHPObject* o=new SHPObject; o->nSHPType=t; o->nShapeId=id; o->nParts=np; o->nVertices=n; for(int i=0;i<np;i++) o->parts.push_back(ps[i]); o->panPartStart=o->parts.empty()?0:&o->parts[0]; for(int i=0;i<n;i++){ o->x.push_back(x[i]); o->y.push_back(y[i]); } vs_live++; return o; }
static inline SHPObject* SHPCreateSimpleObject(int t,int n,const double* x,const double* y,const double*){ int p=0; return SHPCreateObject(t,-1,t==SHPT_POINT||t==SHPT_MULTIPOINT?0:1,&p,0,n,x,y,0,0); }
static inline void SHPDestroyObject(SHPObject* o){ if(o) vs_live--; delete o; }
SHPHandle SHPCreate(const char* name,int type); void SHPClose(SHPHandle h); int SHPWriteObject(SHPHandle h,int id,SHPObject* o);
DBFHandle DBFCreate(const char* name); void DBFClose(DBFHandle h); int DBFAddField(DBFHandle h,const char* name,DBFFieldType t,int w,int d);
int DBFWriteLogicalAttribute(DBFHandle h,int shape,int field,char v); int DBFWriteIntegerAttribute(DBFHandle h,int shape,int field,int v); int DBFWriteDoubleAttribute(DBFHandle h,int shape,int field,double v); int DBFWriteStringAttribute(DBFHandle h,int shape,int field,const char* v); int DBFWriteNULLAttribute(DBFHandle h,int shape,int field);
#endif
