//@ bounds: text attributes of up to 3 UTF-8 characters of 1 to 4 arbitrary bytes each (4 characters thorough) for every field width from 1 to 10 and for width 255, width 256 is refused; texts of up to 5 arbitrary bytes for widths 1 to 4; two to three shapes of arbitrary size up to the limit in point, line and polygon files; up to three attribute tables that grow to the limit with records of 522 thousand bytes; shapelib is a stand-in that counts the bytes its files would have
//@ reach: refused,cut,whole,invalid,split,nosplit,dbfsplit
//@ mock: geos shp
//@ variant quick: text -DMODE=0 -DNCH=3
//@ variant thorough: text -DMODE=0 -DNCH=4
//@ variant both: bytes -DMODE=1
//@ variant both: shp -DMODE=2
//@ variant both: dbf -DMODE=3
#include "sym.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <string>
#include <string.h>
#include <vector>
#include <stdexcept>
namespace std { struct verif_ofstream : public std::ostringstream { void open(const char*){} void close(){} bool fail() const { return false; } }; }
#define ofstream verif_ofstream
#include <osmium/export/shapefile.hpp>
#undef ofstream
namespace E=Osmium::Export; static const uint64_t LIM=2147483647ull;
static std::string got; static int gotn, gotshape; static const int MAXF=8;
struct FileRec { SHPInfo s; DBFInfo d; uint64_t shp,dbf,rec; int shapes,fields; std::string name; bool sopen,dopen; }; static FileRec fr[MAXF]; static int nf;
SHPHandle SHPCreate(const char* name,int type){ FileRec& f=fr[nf++]; f.s.nShapeType=type; f.s.id=nf-1; f.shp=100; f.shapes=0; f.name=name; f.sopen=true; return &f.s; }
DBFHandle DBFCreate(const char* name){ FileRec& f=fr[nf-1]; sym_assert(f.name==name,"both files have the same name"); f.d.id=nf-1; f.dbf=33; f.rec=1; f.fields=0; f.dopen=true; return &f.d; }
void SHPClose(SHPHandle h){ FileRec& f=fr[h->id]; sym_assert(f.sopen,"a file is closed once"); f.sopen=false; } void DBFClose(DBFHandle h){ FileRec& f=fr[h->id]; sym_assert(f.dopen,"a file is closed once"); f.dopen=false; }
int DBFAddField(DBFHandle h,const char*,DBFFieldType,int w,int){ if(w<1) return -1; FileRec& f=fr[h->id]; sym_assert(f.shapes==0&&f.dopen,"fields are added before shapes"); f.dbf+=32; f.rec+=(uint64_t)w; return f.fields++; }
static uint64_t shapesize(const SHPObject* o){ switch(o->nSHPType){ case SHPT_POINT: return 28; case SHPT_ARC: case SHPT_POLYGON: return 8+4+32+4+4+4*(uint64_t)o->nParts+16*(uint64_t)o->nVertices; } return 0; }
int SHPWriteObject(SHPHandle h,int id,SHPObject* o){ FileRec& f=fr[h->id]; sym_assert(f.sopen&&id==-1&&h->id==nf-1,"shapes go to the newest file"); f.shp+=shapesize(o); f.dbf+=f.rec; sym_assert(f.shp<=LIM,"the shapes file stays below its limit"); sym_assert(f.dbf<=LIM,"the attribute file stays below its limit"); return f.shapes++; }
int DBFWriteStringAttribute(DBFHandle h,int shape,int,const char* v){ got=v; gotn++; gotshape=shape; sym_assert(h->id==nf-1,"attributes go to the newest file"); return 1; }
int DBFWriteLogicalAttribute(DBFHandle,int,int,char){ return 1; } int DBFWriteIntegerAttribute(DBFHandle h,int shape,int,int){ sym_assert(h->id==nf-1,"attributes go to the newest file"); gotshape=shape; return 1; } int DBFWriteDoubleAttribute(DBFHandle,int,int,double){ return 1; } int DBFWriteNULLAttribute(DBFHandle,int,int){ return 1; }
static SHPObject* point(){ double x=1, y=2; return SHPCreateSimpleObject(SHPT_POINT,1,&x,&y,0); }
extern "C" void harness_main(){
#if MODE==0
  int w=sym_choice("width",1,12); if(w>=11) w+=244; E::PointShapefile* f=new E::PointShapefile("x"); f->add_field("a",FTInteger,5); if(w>255){ bool refused=false; try { f->add_field("b",FTString,w); } catch(const std::invalid_argument&){ refused=true; } sym_assert(refused,"fields that are too wide are refused"); sym_reach("refused"); delete f; return; } f->add_field("b",FTString,w); f->add_geometry(point()); int nc=sym_choice("characters",0,NCH); std::string s, want; bool cut=false; if(w==255){ int fill=sym_choice("fill",247,254); s=std::string((size_t)fill,'x'); want=s; }
  for(int i=0;i<nc;i++){ int k=sym_choice("length",1,4); std::string c; static const uint8_t LO[]={0,1,0xc2,0xe0,0xf0}, HI[]={0,0x7f,0xdf,0xef,0xf4}; c.push_back((char)sym_u8("lead",LO[k],HI[k])); for(int j=1;j<k;j++) c.push_back((char)sym_u8("continuation",0x80,0xbf)); s+=c; if(!cut&&want.size()+c.size()<=(size_t)w) want+=c; else cut=true; }
  if(sym_flip("char pointer")) f->add_attribute_with_truncate(1,s.c_str()); else f->add_attribute_with_truncate(1,s); sym_reach(cut?"cut":"whole"); sym_assert(gotn==1&&gotshape==0,"the attribute is written once"); sym_assert(got==want,"the text is cut to the most whole characters that fit"); int n=(int)got.size(); delete f; sym_assert(!fr[0].sopen&&!fr[0].dopen,"files are closed"); sym_observe(n);
#elif MODE==1
  int w=sym_choice("width",1,4), n=sym_choice("length",0,5); char b[8]; sym_str("text",b,n); E::PointShapefile* f=new E::PointShapefile("x"); f->add_field("b","string",w); f->add_geometry(point()); f->add_attribute_with_truncate(0,b); sym_reach("invalid"); sym_assert((int)got.size()<=w&&(int)got.size()<=n,"the text fits into the field"); for(size_t i=0;i<got.size();i++) sym_assert(got[i]==b[i],"the text is cut, not changed"); if(n<w) sym_assert((int)got.size()==n,"short texts stay whole"); delete f; sym_observe(w*10+n);
#elif MODE==2
  int kind=sym_choice("kind",0,2); E::Shapefile* f; if(kind==0) f=new E::PointShapefile("dir/x"); else if(kind==1) f=new E::LineStringShapefile("dir/x"); else f=new E::PolygonShapefile("dir/x"); int width=sym_choice("width",1,2); f->add_field("a",FTInteger,width); f->add_field("b",FTLogical); int n=kind?3:1; uint64_t sum=100; int files=1;
  for(int i=0;i<n;i++){ SHPObject* o; if(kind==0) o=point(); else { double z=0; o=SHPCreateSimpleObject(kind==1?SHPT_ARC:SHPT_POLYGON,1,&z,&z,0); o->nVertices=sym_i32("vertices",2,134217000); o->nParts=sym_i32("parts",1,1000); } uint64_t sz=shapesize(o); sym_assume(100+sz<=LIM); if(sum+sz>LIM){ sum=100; files++; sym_reach("split"); } else sym_reach("nosplit"); sum+=sz; f->add_geometry(o); f->add_attribute(0,(int)i); sym_assert(gotshape==fr[nf-1].shapes-1,"attributes belong to the newest shape"); sym_assert(nf==files,"a new file is started only when the limit would be passed"); sym_assert(fr[nf-1].fields==2&&fr[nf-1].rec==(uint64_t)width+2,"every file has the fields"); }
  static const char* N[]={"dir/x","dir/x_1","dir/x_2"}; for(int i=0;i<nf;i++) sym_assert(fr[i].name==N[i],"file names are numbered"); delete f; for(int i=0;i<nf;i++) sym_assert(!fr[i].sopen&&!fr[i].dopen,"files are closed"); sym_assert(vs_live==0,"shapes are freed"); sym_observe(files);
#else
  int last=sym_choice("last width",1,3); E::PointShapefile* f=new E::PointShapefile("x"); for(int i=0;i<2046;i++) f->add_field("a",FTString,255); f->add_field("b",FTString,last==3?255:last); uint64_t rec=1+2046*255+(last==3?255:last), head=33+32*2047; int fit=(int)((LIM-head)/rec); int n=sym_choice("files",1,last==2?1:2); n=n*fit+sym_choice("one more",0,1); for(int i=0;i<n;i++) f->add_geometry(point()); sym_assert(nf==(n-1)/fit+1,"a new file is started only when the limit would be passed"); if(nf>1){ sym_reach("dbfsplit"); sym_assert(fr[1].fields==2047&&(n>2*fit?fr[1].shapes==fit&&fr[2].shapes==1&&fr[2].fields==2047:fr[1].shapes==n-fit),"every file has the fields"); } bool thrown=false; try { f->add_field("c",FTString,1); } catch(const std::out_of_range&){ thrown=true; } sym_assert(thrown,"too many fields are refused"); delete f; sym_observe(n);
#endif
}
