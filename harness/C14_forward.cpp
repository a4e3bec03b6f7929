//@ bounds: every sequence of up to 3 calls (4 thorough) of the 13 handler callbacks including areas and debug levels, with arbitrary objects, through a forwarding handler, two of them, a sequence of two handlers and a sequence within a sequence
//@ reach: forward,nested,sequence,three,area,end
//@ variant quick: calls -DNC=3
//@ variant thorough: calls -DNC=4
#include "sym.h"
#include <osmium/handler.hpp>
namespace OH=Osmium::Handler; using namespace Osmium::OSM;
namespace Osmium { namespace OSM { class Area { public: int x; Area(int v):x(v){} }; } }
enum { ALLMAX=64 }; static int all_who[ALLMAX], nall;  // which handler was called, in order
struct Rec { int who, n; int what[8]; const void* obj[8]; Rec(int w):who(w),n(0){} void put(int w,const void* o=0){ if(n<8){ what[n]=w; obj[n]=o; } n++; if(nall<ALLMAX) all_who[nall]=who; nall++; } 
  void init(Meta& m){ put(0,&m); } void before_nodes(){ put(1); } void node(const shared_ptr<Node const>& o){ put(2,o.get()); } void after_nodes(){ put(3); } void before_ways(){ put(4); } void way(const shared_ptr<Way const>& o){ put(5,o.get()); } void after_ways(){ put(6); } void before_relations(){ put(7); } void relation(const shared_ptr<Relation const>& o){ put(8,o.get()); } void after_relations(){ put(9); } void area(const shared_ptr<Area const>& o){ put(10,o.get()); } void final(){ put(11); } void set_debug_level(int l){ put(100+l); } };
struct Fwd : public OH::Forward<Rec> { Fwd(Rec& r):OH::Forward<Rec>(r){} };
static int want[8], nw; static const void* wobj[8];
static shared_ptr<Node> n_; static shared_ptr<Way> w_; static shared_ptr<Relation> r_; static shared_ptr<Area> a_;
template<class H> static void drive(H& h,Meta& meta){ int calls=sym_choice("calls",0,NC); for(int i=0;i<calls;i++){ int c=sym_i32("call",0,12); const void* o=0; switch(c){
  case 0: h.init(meta); o=&meta; break; case 1: h.before_nodes(); break; case 2: h.node(n_); o=n_.get(); break; case 3: h.after_nodes(); break; case 4: h.before_ways(); break; case 5: h.way(w_); o=w_.get(); break; case 6: h.after_ways(); break; case 7: h.before_relations(); break; case 8: h.relation(r_); o=r_.get(); break; case 9: h.after_relations(); break; case 10: h.area(a_); o=a_.get(); sym_reach("area"); break; case 11: h.final(); sym_reach("end"); break; default: { int l=sym_i32("level",0,1000); c=100+l; h.set_debug_level(l); } }
  want[nw]=c; wobj[nw++]=o; } }
static void same(Rec& r){ sym_assert(r.n==nw,"every call is passed on once"); for(int i=0;i<nw;i++){ sym_assert(r.what[i]==want[i],"every call is passed on as it is"); sym_assert(r.obj[i]==wobj[i],"the object is passed on"); } }
extern "C" void harness_main(){ Meta meta; n_=make_shared<Node>(); w_=make_shared<Way>(); r_=make_shared<Relation>(); a_.reset(new Area(1)); int64_t id=sym_i64("id"); n_->id(id); w_->id(id); r_->id(id);
  Rec a(0), b(1), c(2); int k=1; switch(sym_choice("handler",0,3)){
  case 0: { OH::Forward<Rec> f(a); drive(f,meta); sym_reach("forward"); break; }
  case 1: { Fwd f(a); OH::Forward<Fwd> g(f); drive(g,meta); sym_reach("nested"); break; }
  case 2: { OH::Sequence<Rec,Rec> s(a,b); drive(s,meta); k=2; sym_reach("sequence"); break; }
  default: { OH::Sequence<Rec,Rec> s(b,c); OH::Sequence<Rec,OH::Sequence<Rec,Rec> > t(a,s); drive(t,meta); k=3; sym_reach("three"); } }
  same(a); if(k>1) same(b); if(k>2) same(c); for(int i=0;i<nall;i++) sym_assert(all_who[i]==i%k,"the handlers of a sequence are called one after the other for each event"); sym_assert(n_->id()==id&&w_->id()==id&&r_->id()==id&&a_->x==1,"the objects are not changed"); sym_observe((uint64_t)nall); }
