//@ bounds: every documented suffix, standard input and output, and each encoding set explicitly; builds with PBF only, XML only and both; streams of up to 3 objects of arbitrary types and ids; failure to open, files and pipes that get the lowest descriptors because standard input and output are closed, an exception thrown by the handler at any callback, a read error, and formats unregistered from the factory
//@ mock: expat pbf xmlw
//@ reach: read pbf,read xml,not supported,handler throws,open fails,read fails,written pbf,written xml,unregistered
//@ variant quick: both -DPI -DXI
//@ variant quick: pbf -DPI
//@ variant quick: xml -DXI
//@ variant thorough: both -DPI -DXI -DMANY
//@ variant thorough: pbf -DPI -DMANY
//@ variant thorough: xml -DXI -DMANY
#ifdef PI
#define OSMIUM_WITH_PBF_INPUT
#endif
#ifdef XI
#define OSMIUM_WITH_XML_INPUT
#endif
#include "sym.h"
#include "vmsys.h"
static int fd0, openfails, readfails, waited, forked; static int x_open(const char*,int,...){ if(openfails){ errno=2; return -1; } vm_opened++; return fd0?0:10; }
static int x_fork(){ forked++; return 1000; } static int x_wait(int pid,int* st,int){ waited++; *st=0; return pid; } static int x_pipe(int* p){ p[0]=fd0?0:11; p[1]=fd0?1:12; vm_opened+=2; return 0; }
#undef open
#define open x_open
#undef fork
#define fork x_fork
#undef waitpid
#define waitpid x_wait
#undef pipe
#define pipe x_pipe
#include "tok.h"
#define PBF_OWN_IO
static long vm_read(int,void* b,unsigned long n); static long vm_write(int,const void* b,unsigned long n);
#ifdef PI
#include "pbfio.h"
#else
#include <osmium/osmfile.hpp>
#include "capture.h"
using namespace Osmium::OSM; typedef Osmium::OSMFile F;
static unsigned char pf[16]; static int pflen, pfpos;
#endif
#include <osmium.hpp>
#ifdef XI
#include <osmium/output/xml.hpp>
#include <expat.h>
#include <libxml/xmlwriter.h>
#else
struct { int n; bool freed; } vx;
#endif
// standard input and output are not closed by a count of descriptors opened
static long vm_read(int,void* b,unsigned long n){ if(readfails){ errno=5; return -1; } long l=pflen-pfpos; if((unsigned long)l>n) l=(long)n; memcpy(b,pf+pfpos,(size_t)l); pfpos+=(int)l; return l; }
static long vm_write(int,const void* b,unsigned long n){ sym_assert(pflen+n<=sizeof pf,"space in the file"); memcpy(pf+pflen,b,n); pflen+=(int)n; return (long)n; }
static int nobj, ty[4]; static int64_t ids[4];
#ifdef XI
static int vx_events(XML_Parser p,const char*,int len,int final){ static bool done=false; if(done) return XML_STATUS_OK; done=true; const char* root[]={"version","0.6",0}; p->start(p->data,"osm",root); static const char* EN[]={"node","way","relation"}; std::string t[4]; for(int i=0;i<nobj;i++){ t[i]=vm_num(ids[i]); const char* at[]={"id",t[i].c_str(),"version","2",0}; p->start(p->data,EN[ty[i]],at); p->end(p->data,EN[ty[i]]); } p->end(p->data,"osm"); return XML_STATUS_OK; }
#endif
struct MyError { int at; };
struct H : public Osmium::Handler::Base { int throwat, k; std::string gen; int n; int t[5]; int64_t id[5]; uint32_t ver[5]; H():throwat(-1),k(0),n(0){} void e(){ if(k++==throwat) throw MyError{k}; }
  void init(Osmium::OSM::Meta&){ e(); } void before_nodes(){ e(); } void after_nodes(){ e(); } void before_ways(){ e(); } void after_ways(){ e(); } void before_relations(){ e(); } void after_relations(){ e(); } void final(){ e(); }
  void o(int ty,const Object& b){ if(n<5){ t[n]=ty; id[n]=b.id(); ver[n]=b.version(); n++; } e(); }
  void node(const shared_ptr<Node const>& x){ o(0,*x); } void way(const shared_ptr<Way const>& x){ o(1,*x); } void relation(const shared_ptr<Relation const>& x){ o(2,*x); } };
struct Name { const char* n; int enc; }; // 0 pbf, 1 xml, 2 gz, 3 bz2
static const Name NM[]={{"a.osm.pbf",0},{"a.osh.pbf",0},{"a.pbf",0},{"",0},{"-",0},{"d.x/a",0},{"a.osm",1},{"a.osh",1},{"a.osc",1},{"a.osm.gz",2},{"a.osh.gz",2},{"a.osc.gz",2},{"a.osm.bz2",3},{"a.osh.bz2",3},{"a.osc.bz2",3}};
#ifdef PI
static void pbffile(){ pflen=pfpos=0; for(int i=0;i<nobj;i++){ OSMPBF::PrimitiveBlock* b=new OSMPBF::PrimitiveBlock; b->mutable_stringtable()->add_s(""); OSMPBF::PrimitiveGroup* g=b->add_primitivegroup(); if(ty[i]==0){ OSMPBF::Node* o=g->add_nodes(); o->set_id(ids[i]); o->set_lat(0); o->set_lon(0); o->mutable_info()->set_version(1); } else if(ty[i]==1){ OSMPBF::Way* o=g->add_ways(); o->set_id(ids[i]); o->mutable_info()->set_version(1); } else { OSMPBF::Relation* o=g->add_relations(); o->set_id(ids[i]); o->mutable_info()->set_version(1); } pfblob("OSMData",*b,false); delete b; } }
#endif
static bool has(int enc){
#ifdef PI
  if(enc==0) return true;
#endif
#ifdef XI
  if(enc!=0) return true;
#endif
  return false; }
static void closed(){ sym_assert(vm_opened==vm_closed||(vm_opened==0&&vm_closed==1),"every file that was opened is closed again"); sym_assert(forked==waited,"every helper process is waited for"); }
extern "C" void harness_main(){
  int nm=sym_choice("name",0,14); F f(NM[nm].n); int enc=NM[nm].enc; if(nm%6==0&&sym_flip("set encoding")){ enc=sym_choice("encoding",0,3); f.encoding(enc==0?F::FileEncoding::PBF():enc==1?F::FileEncoding::XML():enc==2?F::FileEncoding::XMLgz():F::FileEncoding::XMLbz2()); }
  if(nm==1||nm==7||nm==10) fd0=sym_choice("file gets descriptor 0",0,1);
  bool hist=f.has_multiple_object_versions();
#ifdef MANY
  nobj=sym_choice("objects",0,3);
#else
  nobj=nm%3==0?sym_choice("objects",0,2):2;
#endif
  for(int i=0;i<nobj;i++){ ty[i]=sym_choice("type",0,2); ids[i]=sym_i64("id"); }
  if(sym_flip("write")){
#if defined(PI)||defined(XI)
    bool unreg=nm==0&&sym_flip("unregistered"); openfails=nm%2==0&&enc<2&&*NM[nm].n!=0&&*NM[nm].n!='-'?sym_choice("open fails",0,1):0;
    if(unreg){ sym_assert(Osmium::Output::Factory::instance().unregister_output_format(f.encoding())==has(enc),"a registered format can be unregistered once"); sym_assert(!Osmium::Output::Factory::instance().unregister_output_format(f.encoding()),"a format that is not registered can not be unregistered"); sym_reach("unregistered"); }
    int r=0; try { Osmium::Output::Handler out(f); out.set_generator("me"); Meta m; out.init(m); for(int i=0;i<nobj;i++){ if(ty[i]==0){ if(!i||ty[i-1]!=0) out.before_nodes(); shared_ptr<Node> n=make_shared<Node>(); n->id(ids[i]); n->version(1); out.node(n); } else if(ty[i]==1){ shared_ptr<Way> n=make_shared<Way>(); n->id(ids[i]); n->version(1); out.way(n); } else { shared_ptr<Relation> n=make_shared<Relation>(); n->id(ids[i]); n->version(1); out.relation(n); } } out.final(); } catch(const F::FileEncodingNotSupported&){ r=1; } catch(const F::IOError&){ r=2; }
    if(unreg||!has(enc)){ sym_assert(r==1&&vm_opened==0&&forked==0,"a format that is not available is refused before anything is opened"); sym_reach("not supported"); }
    else if(openfails){ sym_assert(r==2,"failing to open the file is reported"); sym_reach("open fails"); }
    else { sym_assert(r==0,"the file is written"); sym_assert(forked==(enc>=2),"a helper process for compressed XML only");
      if(enc==0){ sym_assert(pflen>0&&vx.n==0,"PBF for a PBF file"); sym_reach("written pbf");
#ifdef PI
        H h; struct G : public H { std::string g; void init(Osmium::OSM::Meta& m){ g=m.generator(); } } gg; int o0=vm_opened,c0=vm_closed; pfpos=0; int rr=pfread(gg,hist?"a.osh.pbf":"a.osm.pbf"); vm_opened=o0; vm_closed=c0; sym_assert(rr==0&&gg.g=="me","the generator is the one set"); sym_assert(gg.n==nobj,"every object is written once"); int perm=0; for(int t=0;t<3;t++) for(int i=0;i<nobj;i++) if(ty[i]==t) perm++; bool found=true; for(int i=0;i<nobj;i++){ int c=0,d=0; for(int k=0;k<nobj;k++){ c+=gg.t[k]==ty[i]&&gg.id[k]==ids[i]; d+=ty[k]==ty[i]&&ids[k]==ids[i]; } found=found&&c==d; } sym_assert(found,"the objects are those given");
#endif
      } else { sym_assert(pflen==0&&vx.n>0&&vx.freed,"XML for an XML file"); sym_reach("written xml");
#ifdef XI
        int k=0; static const char* EN[]={"node","way","relation"}; for(int i=0;i<vx.n;i++){ for(int q=0;q<3;q++) if(vx.el[i].name==EN[q]){ bool ok=k<nobj&&ty[k]==q; if(ok){ for(int a=0;a<vx.el[i].na;a++) if(vx.el[i].an[a]=="id"){ const char* p=vx.el[i].av[a].c_str(); int64_t x=0; ok=tok_int(p,x)&&x==ids[k]; } } sym_assert(ok,"the objects are those given"); k++; } } sym_assert(k==nobj,"every object is written once"); bool g=false; for(int a=0;a<vx.el[0].na;a++) if(vx.el[0].an[a]=="generator") g=vx.el[0].av[a]=="me"; sym_assert(g,"the generator is the one set");
#endif
      } }
    closed(); sym_observe(r*10+nobj);
#endif
  } else {
#ifdef PI
    pbffile();
#else
    pflen=8; memset(pf,0,8);
#endif
    openfails=nm%2==0&&enc<2&&*NM[nm].n!=0&&*NM[nm].n!='-'?sym_choice("open fails",0,1):0; readfails=!openfails&&nm%4<2?sym_choice("read fails",0,1):0; H h; if(!openfails&&!readfails&&nm%3==0) h.throwat=sym_choice("handler throws",-1,3*nobj+1); int r=0;
    try { Osmium::Input::read(f,h); } catch(const F::FileEncodingNotSupported&){ r=1; } catch(const F::SystemError&){ r=2; } catch(const F::IOError&){ r=2; } catch(const MyError& e){ r=3; sym_assert(e.at==h.throwat+1,"the handler's own exception"); } catch(const std::runtime_error&){ r=4; } catch(const F::FileTypeError&){ r=5; }
    if(!has(enc)){ sym_assert(r==1&&vm_opened==0&&forked==0&&h.k==0,"a format that is not available is refused before anything is opened"); sym_reach("not supported"); }
    else if(openfails){ sym_assert(r==2&&h.k==0,"failing to open the file is reported"); sym_reach("open fails"); }
    else if(readfails){ sym_assert(r==2||r==4,"failing to read the file is reported"); sym_reach("read fails"); }
    else { sym_assert(forked==(enc>=2),"a helper process for compressed XML only"); if(h.throwat>=0&&h.k>h.throwat){ sym_assert(r==3&&h.k==h.throwat+1,"an exception of the handler ends reading and reaches the caller"); sym_reach("handler throws"); } else { sym_assert(r==0,"the file is read"); sym_assert(h.n==nobj,"every object is read once"); }
      for(int i=0;i<h.n;i++) sym_assert(i<nobj&&h.t[i]==ty[i]&&h.id[i]==ids[i]&&h.ver[i]==(enc==0?1u:2u),"objects from the parser for the encoding"); if(h.n){ if(enc==0) sym_reach("read pbf"); else sym_reach("read xml"); } }
    closed(); sym_observe(r*10+h.n); } }
