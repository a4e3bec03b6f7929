//@ bounds: histories of up to 4 (5 thorough) node, way and relation versions in total, every split over the three types, every 64 bit id, every timestamp of 1970..2242 and every version number; followed by a second file through the same handler
//@ reach: same,different,node,way,relation,second
//@ variant quick: n4 -DVN=4
//@ variant thorough: n6 -DVN=6
#include "sym.h"
#include <osmium/handler/endtime.hpp>
using namespace Osmium::OSM;
struct Rec { int type; int64_t id; uint32_t ver; int64_t ts; int64_t end; const void* p; };
static Rec log_[64]; static int nlog=0;
struct Sink : public Osmium::Handler::Base {
  void ev(int t){ if(nlog<64){ log_[nlog].type=t; nlog++; } }
  template<class T> void obj(int t,const T& o){ if(nlog<64){ Rec r={t,o->id(),o->version(),o->timestamp(),o->endtime(),&*o}; log_[nlog++]=r; } }
  void init(Osmium::OSM::Meta&){ ev(100); }
  void before_nodes(){ ev(101); } void node(const shared_ptr<Node const>& o){ obj(1,o); } void after_nodes(){ ev(102); }
  void before_ways(){ ev(103); } void way(const shared_ptr<Way const>& o){ obj(2,o); } void after_ways(){ ev(104); }
  void before_relations(){ ev(105); } void relation(const shared_ptr<Relation const>& o){ obj(3,o); } void after_relations(){ ev(106); }
  void final(){ ev(107); }
};
static Rec in[64]; static int nin=0;
template<class T> static shared_ptr<T> mk(int t){ shared_ptr<T> o=make_shared<T>(); int64_t id=sym_i64("id"), ts=sym_i64("ts",1,8589934592ll); uint32_t v=sym_u32("version"); o->id(id); o->version(v); o->timestamp((time_t)ts); sym_rest(*o); Rec r={t,id,v,ts,0,&*o}; in[nin++]=r; return o; }
static void mark(int t){ Rec r={t,0,0,0,0,0}; in[nin++]=r; }
static void check(){
  sym_assert(nlog==nin,"every version and callback is passed on exactly once");
  for(int i=0;i<nin&&i<nlog;i++){ sym_assert(log_[i].type==in[i].type,"order of versions and callbacks is kept"); if(in[i].type>=100||log_[i].type!=in[i].type) continue;
    sym_assert(log_[i].id==in[i].id&&log_[i].ver==in[i].ver&&log_[i].ts==in[i].ts,"version passed on unchanged, in order"); sym_assert(log_[i].p==in[i].p,"the object itself is passed on");
    bool next=i+1<nin&&in[i+1].type==in[i].type; int64_t e=0; if(next){ bool same=in[i+1].id==in[i].id; e=same?in[i+1].ts:0; if(in[i+1].id==in[i].id) sym_reach("same"); else sym_reach("different"); }
    sym_assert(log_[i].end==e,"end time is the start of the next version of the same object, or unlimited"); sym_observe((uint64_t)log_[i].end); }
}
extern "C" void harness_main(){
  Sink s; Osmium::Handler::EndTime<Sink> h(s); Meta meta;
  int files=sym_choice("files",1,2);
  for(int f=0;f<files;f++){ nin=0; nlog=0; int lim=f?2:VN; if(f) sym_reach("second");
    int a=sym_choice("nodes",0,lim), b=sym_choice("ways",0,lim-a), c=sym_choice("relations",0,lim-a-b);
    if(files==2&&f==0) sym_assume(a+b+c<=2);
    mark(100); h.init(meta);
    if(a){ sym_reach("node"); mark(101); h.before_nodes(); for(int i=0;i<a;i++) h.node(mk<Node>(1)); mark(102); h.after_nodes(); }
    if(b){ sym_reach("way"); mark(103); h.before_ways(); for(int i=0;i<b;i++) h.way(mk<Way>(2)); mark(104); h.after_ways(); }
    if(c){ sym_reach("relation"); mark(105); h.before_relations(); for(int i=0;i<c;i++) h.relation(mk<Relation>(3)); mark(106); h.after_relations(); }
    mark(107); h.final(); check(); }
}
