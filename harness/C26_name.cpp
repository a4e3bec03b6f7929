//@ bounds: all file names of up to 7 arbitrary non-NUL bytes, and all names built from a directory part (none, with dots, several), up to 2 arbitrary stem bytes and each recognised suffix or an arbitrary suffix of up to 3 bytes; explicit type and encoding names of up to 8 bytes over all documented ones
//@ reach: recognised,default,url,stdio,explicit,rejected,dirdot
//@ variant quick: free -DMODE=0 -DLEN=7
//@ variant quick: built -DMODE=1
//@ variant quick: set -DMODE=2
//@ variant thorough: free -DMODE=0 -DLEN=9
//@ variant thorough: built -DMODE=1
//@ variant thorough: set -DMODE=2
#include "sym.h"
#include <osmium/osmfile.hpp>
#include <string.h>
typedef Osmium::OSMFile F;
struct S { const char* s; int t; int e; };   // type 0 osm 1 history 2 change; encoding 0 pbf 1 xml 2 gz 3 bz2
static const S TAB[]={{"pbf",0,0},{"osm.pbf",0,0},{"osm",0,1},{"osm.bz2",0,3},{"osm.gz",0,2},{"osh.pbf",1,0},{"osh",1,1},{"osh.bz2",1,3},{"osh.gz",1,2},{"osc",2,1},{"osc.bz2",2,3},{"osc.gz",2,2}};
enum { NT=12 };
static const char* TSUF[]={".osm",".osh",".osc"}; static const char* ESUF[]={".pbf","",".gz",".bz2"};
static int ty(const F& f){ return f.type()==F::FileType::OSM()?0:f.type()==F::FileType::History()?1:f.type()==F::FileType::Change()?2:-1; }
static int en(const F& f){ return f.encoding()==F::FileEncoding::PBF()?0:f.encoding()==F::FileEncoding::XML()?1:f.encoding()==F::FileEncoding::XMLgz()?2:f.encoding()==F::FileEncoding::XMLbz2()?3:-1; }
static bool starts(const char* s,const char* p){ while(*p) if(*s++!=*p++) return false; return true; }
static void check(const char* name){
  int len=(int)strlen(name); F f((std::string(name))); int et=0,ee=0; int cut=len;
  if(len==0||(len==1&&name[0]=='-')){ sym_reach("stdio"); sym_assert(f.filename().empty(),"standard input or output has no name"); cut=0; len=0; }
  else { sym_assert(f.filename()==name,"file name kept");
    bool url=starts(name,"http:")||starts(name,"https:")||!strcmp(name,"http")||!strcmp(name,"https");
    int b=0; for(int i=0;i<len;i++) if(name[i]=='/') b=i+1;
    int d=-1; for(int i=len-1;i>=b;i--) if(name[i]=='.') d=i;
    for(int i=0;i<b;i++) if(name[i]=='.'){ sym_reach("dirdot"); break; }
    if(d>=0) cut=d;
    if(url){ sym_reach("url"); ee=1; if(!strcmp(name,"http")||!strcmp(name,"https")){ ee=en(f); sym_assert(ee==0||ee==1,"default encoding"); } }
    else if(d>=0){ bool any=false; for(int k=0;k<NT;k++) if(!strcmp(name+d+1,TAB[k].s)){ et=TAB[k].t; ee=TAB[k].e; any=true; } if(any) sym_reach("recognised"); else sym_reach("default"); }
    else sym_reach("default"); }
  sym_assert(ty(f)==et,"file type from the suffix"); sym_assert(en(f)==ee,"file encoding from the suffix");
  sym_assert(f.has_multiple_object_versions()==(et!=0),"history and change files have several versions");
  std::string w=f.filename_without_suffix(); sym_assert((int)w.size()==cut&&!strncmp(w.c_str(),name,cut),"name without suffix is the path up to the suffix");
  std::string x=f.filename_with_default_suffix(); std::string e(name,cut); e+=TSUF[et]; e+=ESUF[ee]; sym_assert(x==e,"default suffix names type and encoding");
  F g(f); sym_assert(ty(g)==et&&en(g)==ee&&g.filename()==f.filename(),"copy keeps name, type and encoding"); F h("x.osc.gz"); h=f; sym_assert(ty(h)==et&&en(h)==ee&&h.filename()==f.filename()&&h.fd()==-1,"assignment keeps name, type and encoding");
  F r("y.osh"); r.filename(name); sym_assert(r.filename()==f.filename()&&ty(r)==1&&en(r)==1,"renaming changes only the name");
  sym_observe(et*10+ee+cut*100);
}
extern "C" void harness_main(){
  char n[64];
#if MODE==0
  int l=sym_choice("length",0,LEN); sym_str("c",n,l); 
  check(n);
#elif MODE==1
  static const char* DIR[]={"","a/","d.x/","./","../","/a.osm/b.c/","http/","x.osh.gz/."};
  strcpy(n,DIR[sym_choice("dir",0,7)]); int p=(int)strlen(n); int k=sym_choice("stem",0,2); sym_str("c",n+p,k); p+=k; int s=sym_choice("suffix",0,NT+3);
  if(s<NT){ n[p++]='.'; strcpy(n+p,TAB[s].s); if(sym_flip("more")) strcat(n,sym_flip("dot")?".x":"x"); } else if(s>NT){ n[p++]='.'; sym_str("s",n+p,s-NT); }
  check(n);
#else
  static const S TY[]={{"osm",0,0},{"history",1,0},{"osh",1,0},{"change",2,0},{"osc",2,0}}; static const S EN[]={{"pbf",0,0},{"xml",0,1},{"xmlgz",0,2},{"gz",0,2},{"xmlbz2",0,3},{"bz2",0,3}};
  int l=sym_choice("length",0,8); sym_str("c",n,l); static const char* B[]={"a.osh.gz","b","c.osc"}; static const int BT[]={1,0,2}, BE[]={2,0,1}; int b=sym_choice("base",0,2); F f((std::string(B[b])));
  bool which=sym_flip("which"); int et=-1; if(which){ for(int k=0;k<5;k++) if(!strcmp(n,TY[k].s)) et=TY[k].t; } else for(int k=0;k<6;k++) if(!strcmp(n,EN[k].s)) et=EN[k].e;
  bool thrown=false; std::string val; try { if(which) f.type(std::string(n)); else f.encoding(std::string(n)); } catch(const F::ArgumentError& e){ thrown=true; val=e.value(); }
  sym_assert(thrown==(et<0),"exactly the documented names are accepted"); if(thrown){ sym_reach("rejected"); sym_assert(val==n,"the error names the value"); } else sym_reach("explicit");
  sym_assert(ty(f)==(which&&et>=0?et:BT[b]),"explicit type overrides"); sym_assert(en(f)==(!which&&et>=0?et:BE[b]),"explicit encoding overrides"); sym_assert(f.filename()==B[b],"name unchanged");
  for(int t=0;t<3;t++) { f.type(t==0?F::FileType::OSM():t==1?F::FileType::History():F::FileType::Change()); sym_assert(ty(f)==t,"explicit type overrides"); }
  if(et==0) sym_reach("recognised"); sym_reach("recognised"); sym_reach("default"); sym_reach("url"); sym_reach("stdio"); sym_reach("dirdot");
#endif
#if MODE!=2
  sym_reach("explicit"); sym_reach("rejected");
#endif
#if MODE==1
  sym_reach("stdio"); sym_reach("url");
#endif
}
