//@ bounds: files with every sequence of up to 4 objects (5 thorough) of the three types with arbitrary ids, as OSM XML, as change file and as PBF (objects in one group, several groups or several blobs, dense and plain nodes), with or without a header; one handler, a handler behind forwarding handlers, two in sequence, one that wants only some callbacks; stopping at any object or any begin or end callback
//@ reach: empty,run,stopped,many
//@ variant quick: xml -DFMT=0 -DNOB=4
//@ variant quick: pbf -DFMT=1 -DNOB=3
//@ variant thorough: xml -DFMT=0 -DNOB=5
//@ variant thorough: pbf -DFMT=1 -DNOB=4
//@ mock: expat pbf
#if FMT==0
#include "xmlin.h"
#else
#include "pbfio.h"
#endif
namespace OH=Osmium::Handler;
static int exp_[EVMAX], nexp, ty[8], nobj; static int64_t ids[8];
struct CapS : public Cap { int stopev; CapS():stopev(-1){} void st(){ if(stopev>=0&&ne-1==stopev){ stopat=99; throw OH::StopReading(); } }
  void init(Osmium::OSM::Meta& m){ Cap::init(m); st(); } void before_nodes(){ Cap::before_nodes(); st(); } void after_nodes(){ Cap::after_nodes(); st(); } void before_ways(){ Cap::before_ways(); st(); } void after_ways(){ Cap::after_ways(); st(); } void before_relations(){ Cap::before_relations(); st(); } void after_relations(){ Cap::after_relations(); st(); }
  void node(const shared_ptr<Osmium::OSM::Node const>& o){ Cap::node(o); st(); } void way(const shared_ptr<Osmium::OSM::Way const>& o){ Cap::way(o); st(); } void relation(const shared_ptr<Osmium::OSM::Relation const>& o){ Cap::relation(o); st(); } };
struct Fwd : public OH::Forward<Cap> { Fwd(Cap& c):OH::Forward<Cap>(c){} };
typedef OH::Sequence<Cap,Cap> Seq;
struct Ways : public OH::Base { Cap& c; Ways(Cap& c_):c(c_){} void init(Osmium::OSM::Meta& m){ c.init(m); } void before_ways(){ c.before_ways(); } void way(const shared_ptr<Osmium::OSM::Way const>& o){ c.way(o); } void after_ways(){ c.after_ways(); } void final(){ c.final(); } };
#if FMT==0
static int nextobj=0; static void build(){ xreset(); bool change=sym_flip("change"), bounds=sym_flip("header"); XE& r=xs(change?"osmChange":"osm"); xa(r,"version","0.6"); if(bounds){ XE& b=xs("bounds"); xa(b,"minlon","1"); xa(b,"minlat","1"); xa(b,"maxlon","2"); xa(b,"maxlat","2"); xend("bounds"); } static const char* EN[]={"node","way","relation"}; for(int i=0;i<nobj;i++){ if(change) xs(i%2?"modify":"create"); XE& e=xs(EN[ty[i]]); xa(e,"id",xnum(ids[i])); xend(EN[ty[i]]); if(change) xend(i%2?"modify":"create"); } xend(change?"osmChange":"osm"); }
template<class H> static int go(H& h){ return xparse(h); }
#else
using namespace OSMPBF;
static void build(){ int how=sym_choice("grouping",0,3); if(sym_flip("header")){ HeaderBlock* h=new HeaderBlock; pfblob("OSMHeader",*h,false); delete h; } bool dense=sym_flip("dense"); PrimitiveBlock* b=0; PrimitiveGroup* g=0; int64_t last=0; for(int i=0;i<nobj;i++){ bool same=i&&ty[i]==ty[i-1]; int cut=how==3?sym_choice("cut",same?0:1,2):how; if(!b||cut==2){ if(b){ pfblob("OSMData",*b,false); delete b; } b=new PrimitiveBlock; b->mutable_stringtable()->add_s(""); g=0; } if(!g||!same||cut==1){ g=b->add_primitivegroup(); last=0; }
    if(ty[i]==0&&dense){ OSMPBF::DenseNodes* d=g->mutable_dense(); d->add_id((int64_t)((uint64_t)ids[i]-(uint64_t)last)); last=ids[i]; d->add_lat(0); d->add_lon(0); } else if(ty[i]==0){ OSMPBF::Node* o=g->add_nodes(); o->set_id(ids[i]); o->set_lat(0); o->set_lon(0); } else if(ty[i]==1) g->add_ways()->set_id(ids[i]); else g->add_relations()->set_id(ids[i]); }
  if(b){ pfblob("OSMData",*b,false); delete b; } }
template<class H> static int go(H& h){ return pfread(h); }
#endif
static void compare(Cap& c,bool onlyways){ int k=0; for(int i=0;i<nexp;i++){ if(onlyways&&exp_[i]!=1&&exp_[i]!=2&&exp_[i]%10!=1) continue; sym_assert(k<c.ne&&c.ev[k]==exp_[i],"the callbacks come in the right order"); k++; } sym_assert(c.ne==k,"no other callbacks"); k=0; for(int i=0;i<nobj;i++) if(!onlyways||ty[i]==1){ sym_assert(k<c.n&&c.s[k].id==ids[i]&&c.s[k].t==ty[i],"every object once in the order of the file"); k++; } sym_assert(c.n==k,"every object once in the order of the file"); }
extern "C" void harness_main(){ nobj=sym_choice("objects",0,NOB); for(int i=0;i<nobj;i++){ ty[i]=sym_choice("type",0,2); ids[i]=sym_i64("id"); } if(!nobj) sym_reach("empty"); build();
  exp_[nexp++]=1; for(int i=0;i<nobj;i++){ if(!i||ty[i]!=ty[i-1]){ if(i){ exp_[nexp++]=20+ty[i-1]; sym_reach("many"); } exp_[nexp++]=10+ty[i]; } else sym_reach("run"); exp_[nexp++]=30+ty[i]; } if(nobj) exp_[nexp++]=20+ty[nobj-1]; exp_[nexp++]=2;
  int who=sym_choice("handler",0,nobj<NOB?4:FMT?0:1); if(who==0){ Cap c; int r=go(c); sym_assert(r==0,"the file is read"); compare(c,false); sym_observe(c.ne); }
  else if(who==1){ CapS c; c.stopev=sym_choice("stop at",0,nexp-2); int r=go(c); sym_assert(r==0,"stopping is no error"); sym_reach("stopped"); int k=c.stopev+1; sym_assert(c.ne==k+1&&c.finals==1&&c.ev[k]==2,"only the final call follows when a handler stops"); for(int i=0;i<k&&i<c.ne;i++) sym_assert(c.ev[i]==exp_[i],"the callbacks come in the right order"); sym_observe(c.ne); }
  else if(who==2){ Cap c; Fwd f1(c); OH::Forward<Fwd> f2(f1); int r=go(f2); sym_assert(r==0,"the file is read"); compare(c,false); sym_observe(c.ne); }
  else if(who==3){ Cap a,b; Seq s(a,b); int r=go(s); sym_assert(r==0,"the file is read"); compare(a,false); compare(b,false); sym_observe(a.ne+b.ne); }
  else { Cap c; Ways w(c); int r=go(w); sym_assert(r==0,"the file is read"); compare(c,true); sym_observe(c.ne); } }
