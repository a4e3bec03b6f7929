//@ bounds: CSV lines of up to three texts of up to two arbitrary characters; shapefiles of all three kinds with one field of any type and width; point, line and polygon geometries with and without positions, right and wrong for the file; attribute values that are missing, undefined, null, any integer, truth values or texts of up to three arbitrary characters (and texts of 250 to 258 characters for width 255); V8, ICU, shapelib and file streams are stand-ins
//@ reach: csv,two,pair,wrong count,shapefile,ignored,nothing,cut,whole,long,integer,true,false,neither,refused
//@ mock: v8 geos shp
//@ variant both: csv -DMODE=0
//@ variant both: geometry -DMODE=1
//@ variant both: attribute -DMODE=2
//@ variant both: text -DMODE=3
//@ variant both: longtext -DMODE=4
#include "sym.h"
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <cstdlib>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <v8.h>
static std::string fname, disk; static int fopened, fclosed;
namespace std { struct verif_ofstream : public std::ostringstream { bool o; verif_ofstream() : o(false) {} verif_ofstream(const char* n) : o(true) { fname=n; fopened++; } void open(const char*){} void close(){ if(o){ o=false; fclosed++; disk=str(); } } bool fail() const { return false; } }; }
#define ofstream verif_ofstream
#include <osmium/javascript/wrapper/osm.hpp>
#include <osmium/javascript/wrapper/export_csv.hpp>
#include <osmium/javascript/wrapper/export_shapefile.hpp>
#undef ofstream
static SHPInfo shp; static DBFInfo dbf; static std::string shpname, fieldname; static int type=-1, sopen, dopen, shapes, fields, ftype, fwidth, fdec, nattr; static char attr; static std::string atext; static int aint; static double px[4], py[4]; static int pn;
SHPHandle SHPCreate(const char* n,int t){ shpname=n; type=t; sopen++; shp.nShapeType=t; return &shp; } DBFHandle DBFCreate(const char*){ dopen++; return &dbf; } void SHPClose(SHPHandle){ sopen--; } void DBFClose(DBFHandle){ dopen--; }
int DBFAddField(DBFHandle,const char* n,DBFFieldType t,int w,int d){ if(w<1) return -1; fieldname=n; ftype=t; fwidth=w; fdec=d; return fields++; }
int SHPWriteObject(SHPHandle,int,SHPObject* o){ pn=o->nVertices; for(int i=0;i<pn&&i<4;i++){ px[i]=o->x[i]; py[i]=o->y[i]; } return shapes++; }
static int put(char c,int s,int f){ sym_assert(s==shapes-1&&f==0,"attributes belong to the newest shape"); attr=c; nattr++; return 1; }
int DBFWriteStringAttribute(DBFHandle,int s,int f,const char* v){ atext=v; return put('s',s,f); } int DBFWriteLogicalAttribute(DBFHandle,int s,int f,char v){ return put(v,s,f); } int DBFWriteIntegerAttribute(DBFHandle,int s,int f,int v){ aint=v; return put('i',s,f); } int DBFWriteDoubleAttribute(DBFHandle,int s,int f,double){ return put('d',s,f); } int DBFWriteNULLAttribute(DBFHandle,int s,int f){ return put('0',s,f); }
using namespace Osmium::OSM; namespace W=Osmium::Javascript::Wrapper; using Osmium::Javascript::Template;
// one arbitrary character (not NUL) as UTF-16 and UTF-8
static std::string ch(v8::String& u){ int k=sym_choice("character length",1,4); std::string b; if(k==4){ uint16_t hi=sym_u16("lead",0xd800,0xdbff), lo=sym_u16("trail",0xdc00,0xdfff); u.u.push_back(hi); u.u.push_back(lo); uint32_t c=0x10000u+(((uint32_t)hi-0xd800u)<<10)+((uint32_t)lo-0xdc00u); b.push_back((char)(0xf0|c>>18)); b.push_back((char)(0x80|((c>>12)&63))); b.push_back((char)(0x80|((c>>6)&63))); b.push_back((char)(0x80|(c&63))); sym_reach("pair"); return b; }
  static const uint16_t LO[]={0,1,0x80,0x800}, HI[]={0,0x7f,0x7ff,0xd7ff}; uint16_t c=sym_u16("character",LO[k],HI[k]); u.u.push_back(c); if(k==1) b.push_back((char)c); else if(k==2){ b.push_back((char)(0xc0|c>>6)); b.push_back((char)(0x80|(c&63))); } else { b.push_back((char)(0xe0|c>>12)); b.push_back((char)(0x80|((c>>6)&63))); b.push_back((char)(0x80|(c&63))); } return b; }
static v8::Value* js(const char* s){ return *v8::String::New(s); } template<class J> static v8::Object* wrap(void* o){ return *Template::get<J>().create_instance(o); }
static v8::Value* method(v8::Value* v,const char* n,v8::Value* a=0,v8::Value* b=0,v8::Value* c=0,v8::Value* d=0){ v8::Object* o=static_cast<v8::Object*>(v); sym_assert(o->t->props.count(n)==1,"the method exists"); v8::Arguments r(o); if(a) r.add(a); if(b) r.add(b); if(c) r.add(c); if(d) r.add(d); return *static_cast<v8::FunctionTemplate*>(o->t->props[n])->f(r); }
static v8::Value* open_shp(const char* t){ v8::Arguments a(0); a.add(js("dir/f")); a.add(js(t)); return *W::ExportShapefile::open(a); }
static v8::Value* num(int64_t i){ return new v8::Integer(i); }
static const char* KIND[]={"point","line","polygon"}; static const int ST[]={SHPT_POINT,SHPT_ARC,SHPT_POLYGON};
extern "C" void harness_main(){
#if MODE==0
  v8::Arguments a(0); int n=sym_choice("arguments",0,2); for(int i=0;i<n;i++) a.add(js("dir/file")); v8::Value* v=*W::ExportCSV::open(a); if(n!=1){ sym_assert(v->IsUndefined()&&fopened==0,"a file needs one name"); sym_reach("wrong count"); sym_observe(n); return; } sym_assert(fopened==1&&fname=="dir/file","the file of the name is opened");
  std::string want; int lines=sym_choice("lines",0,2); for(int l=0;l<lines;l++){ int k=l?1:sym_choice("texts",0,3); v8::Value* x[3]={0,0,0}; for(int i=0;i<k;i++){ v8::String* s=new v8::String; int c=i==0&&l==0&&k<3?sym_choice("characters",0,2):1; if(i) want+='\t'; for(int j=0;j<c;j++) want+=i<2&&l==0?ch(*s):(s->u.push_back('x'),std::string("x")); x[i]=s; } want+='\n'; method(v,"print",x[0],x[1],x[2]); if(k>1) sym_reach("two"); }
  method(v,"close"); sym_assert(fclosed==1,"the file is closed"); sym_assert(disk==want,"lines of texts separated by tabs"); sym_reach("csv"); sym_observe(disk.size());
#else
  int kind=MODE==1?sym_choice("kind",0,2):0; 
#if MODE==1
  if(sym_flip("misuse")){ int how=sym_choice("how",0,4); bool thrown=false; try { if(how==0) open_shp("area"); else if(how==1){ v8::Arguments a(0); a.add(js("f")); sym_assert(W::ExportShapefile::open(a)->IsUndefined()&&sopen==0,"a shapefile needs a name and a type"); thrown=true; } else { v8::Value* f=open_shp("line"); if(how==2) method(f,"add_field",js("a"),js("string")); else if(how==3) method(f,"add_field",js("a"),js("text"),num(5)); else method(f,"add_field",js("a"),js("string"),num(sym_i32("bad width",256))); } } catch(const std::exception&){ thrown=true; } sym_assert(thrown&&fields==0,"misuse is refused"); sym_reach("refused"); sym_observe(how); return; }
#endif
  v8::Value* f=open_shp(KIND[kind]); sym_assert(sopen==1&&dopen==1&&shpname=="dir/f"&&type==ST[kind],"the file of the name and type is opened");
  int64_t big=sym_choice("field",0,2); const char* FT[]={"string","integer","bool"}; int fk=(int)big; 
#if MODE>=3
  sym_assume(fk==0); int w=MODE==4?255:sym_choice("width",1,9);
#else
  int w=sym_i32("width",1,255);
#endif
  bool dec=sym_flip("decimals"); sym_assert(vj_num(method(f,"add_field",js("name"),js(FT[fk]),num(w),dec?num(3):0))==1,"a field is added"); sym_assert(fields==1&&fieldname=="name"&&ftype==(fk==0?FTString:fk==1?FTInteger:FTLogical)&&fwidth==(fk==2?1:w)&&fdec==0,"a field is added with its type and width");
  v8::Object* g; int pos=0, gk=kind; Node nd; Way wy; if(MODE==1){ gk=sym_choice("geometry",0,2); pos=sym_flip("positions")?0:1; } int32_t x=1230000000, y=450000000; if(MODE==1){ x=sym_i32("x",-1800000000,1800000000); y=sym_i32("y",-900000000,900000000); }
  if(gk==0){ nd.id(1); nd.position(Position(x,y)); pos=0; g=static_cast<v8::Object*>(vj_prop(wrap<W::OSMNode>(&nd),"geom")); } else { wy.id(1); for(int i=0;i<4;i++){ wy.add_node(i==3?1:i+1); if(!pos) wy.nodes()[i].position(i%3==0?Position(x,y):Position((int32_t)(i==1?10:20),(int32_t)(i==1?30:50))); } if(MODE==1&&!pos){ sym_assume((x!=10)|(y!=30)); sym_assume((x!=20)|(y!=50)); } g=static_cast<v8::Object*>(vj_prop(wrap<W::OSMWay>(&wy),gk==1?"geom":"polygon_geom")); }
  v8::Object* at=new v8::Object; std::string want; char wc='0'; int wi=0; at->own["other"]=js("x");
#if MODE==1
  int av=1; at->own["name"]=*v8::Undefined();
#elif MODE==2
  int av=sym_choice("value",0,5); if(av==1) at->own["name"]=*v8::Undefined(); else if(av==2) at->own["name"]=*v8::Null(); else if(av==3){ wi=sym_i32("integer"); sym_assume(fk==1); at->own["name"]=num(wi); wc='i'; sym_reach("integer"); } else if(av==4){ sym_assume(fk==2); bool b=sym_flip("truth"); at->own["name"]=*v8::Boolean::New(b); wc=b?'T':'F'; }
  else if(av==5){ sym_assume(fk==2); char t[3]; int n=sym_choice("length",0,2); sym_str("text",t,n,32,126); int c=n?t[0]:0, d=n>1?t[1]:0; bool tr=(c=='T')|(c=='t')|(c=='Y')|(c=='y')|((c=='1')&((d<'0')|(d>'9'))), fa=(c=='F')|(c=='f')|(c=='N')|(c=='n')|((c=='0')&(d==0)); bool odd=(c==' ')|(c=='+')|(c=='-')|(c=='0'); if(tr){ wc='T'; sym_reach("true"); } else if(fa){ wc='F'; sym_reach("false"); } else { sym_assume(!odd); sym_reach("neither"); } at->own["name"]=js(t); }
  if(av<3) sym_reach("nothing");
#elif MODE==3
  v8::String* s=new v8::String; int n=sym_choice("characters",0,3); bool cut=false; for(int i=0;i<n;i++){ std::string c=ch(*s); if(!cut&&want.size()+c.size()<=(size_t)w) want+=c; else cut=true; } at->own["name"]=s; wc='s'; sym_reach(cut?"cut":"whole");
#else
  v8::String* s=new v8::String; int fill=sym_choice("fill",248,256); for(int i=0;i<fill;i++){ s->u.push_back('x'); if(want.size()<255) want+='x'; } bool cut=fill>255; for(int i=0;i<2;i++){ std::string c=ch(*s); if(!cut&&want.size()+c.size()<=255) want+=c; else cut=true; } for(int i=sym_choice("more",0,2);i>0;i--){ s->u.push_back('y'); if(!cut&&want.size()<255) want+='y'; else cut=true; } at->own["name"]=s; wc='s'; sym_reach("long");
#endif
  v8::Value* r=method(f,"add",g,at); bool fits=gk==kind&&!pos;
  if(!fits){ sym_assert(shapes==0&&nattr==0,"nothing is added for geometries that do not fit"); sym_assert(vj_num(r)==0,"the script is told that nothing was added"); sym_reach("ignored"); } else { sym_assert(vj_num(r)==1&&shapes==1,"the geometry is added"); int n=gk?4:1; sym_assert(pn==n,"number of positions"); for(int i=0;i<n;i++) if(i%3==0) sym_assert(px[i]==Position(x,y).lon()&&py[i]==Position(x,y).lat(),"positions of the geometry"); sym_assert(nattr==1,"every field gets a value"); sym_assert(attr==wc,"kind of the value"); if(wc=='i') sym_assert(aint==wi,"integer value"); if(wc=='s') sym_assert(atext==want,"text is cut to the most whole characters that fit"); sym_reach("shapefile"); }
  method(f,"close"); sym_assert(sopen==0&&dopen==0,"the files are closed"); sym_assert(vs_live==0,"shapes are freed"); sym_observe((uint64_t)shapes*10+(uint64_t)nattr);
#endif
}
