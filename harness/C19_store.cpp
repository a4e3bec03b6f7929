//@ bounds: feed: up to 3 objects of arbitrary types put into the store (ids of 63 bits, arbitrary versions, repeats possible), fed with and without clearing; apply: up to 2 stored objects merged into sorted streams of up to 2 objects of arbitrary types (3 objects of one type in one variant)
//@ reach: inserted,fed
//@ variant quick: feed -DFEED=1 -DVST=3 -DVOB=0 -DTLO=0
//@ variant quick: apply -DFEED=0 -DVST=2 -DVOB=2 -DTLO=0
//@ variant thorough: feed -DFEED=1 -DVST=4 -DVOB=0 -DTLO=0
//@ variant thorough: apply -DFEED=0 -DVST=2 -DVOB=3 -DTLO=0
//@ variant thorough: applyone -DFEED=0 -DVST=3 -DVOB=3 -DTLO=2
#include "sym.h"
#include <osmium.hpp>
#include <osmium/storage/objectstore.hpp>
using namespace Osmium::OSM;
enum { MAXN=16 };
struct O { int t; int64_t id; uint32_t v; const void* p; int seen; };
static O st[4]; static int ns; static O ob[4]; static int no;
static int64_t ab(int64_t x){ return x<0?-x:x; }
struct Rec : public Osmium::Handler::Base {
  int ev[MAXN]; const Object* ob[MAXN]; int64_t eid[MAXN]; uint32_t ever[MAXN]; int n; int open; int inits, finals; int brk[3];
  Rec(){ reset(); }
  void reset(){ n=0; open=-1; inits=finals=0; brk[0]=brk[1]=brk[2]=0; }
  void init(Meta&){ inits++; sym_assert(n==0,"initialisation first"); }
  void before(int t){ sym_assert(open==-1&&inits==1&&!finals,"brackets do not overlap"); open=t; brk[t]++; }
  void after(int t){ sym_assert(open==t,"bracket closed for the open type"); open=-1; }
  void obj(int t,const Object* o){ sym_assert(open==t&&n<MAXN&&o->type()==t,"objects inside their brackets"); if(n<MAXN){ ev[n]=t; ob[n]=o; eid[n]=o->id(); ever[n]=o->version(); n++; } }
  void before_nodes(){ before(0); } void after_nodes(){ after(0); } void before_ways(){ before(1); } void after_ways(){ after(1); } void before_relations(){ before(2); } void after_relations(){ after(2); }
  void node(const shared_ptr<Node const>& o){ obj(0,o.get()); } void way(const shared_ptr<Way const>& o){ obj(1,o.get()); } void relation(const shared_ptr<Relation const>& o){ obj(2,o.get()); }
  void final(){ finals++; sym_assert(open==-1,"final after all brackets"); }
};
static shared_ptr<Object const> keepalive[16]; static int nkeep;
template<class T> static shared_ptr<T> mk(O& o){ shared_ptr<T> p=make_shared<T>(); keepalive[nkeep++]=p; p->id(o.id); p->version(o.v); sym_rest(*p); o.p=(const Object*)p.get(); return p; }
static void gen(O& o,const char* k,int tlo){ o.t=sym_choice(k,tlo,2); bool neg=sym_flip("negative"); o.id=neg?sym_i64("id",-((int64_t)1<<62),-1):sym_i64("id",0,(int64_t)1<<62); o.v=sym_u32("version",0,0x7fffffff); o.seen=0; }
// a stored object is represented if an equal one (type, id, version) was stored before it
static bool isdup(int i){ bool d=false; for(int j=0;j<i;j++) d=d|((st[j].t==st[i].t)&(st[j].id==st[i].id)&(st[j].v==st[i].v)); return d; }
static void check(Rec& r,int nstream){
  sym_assert(r.inits==1&&r.finals==1,"one initialisation and one final call");
  for(int i=0;i<ns;i++) st[i].seen=0; for(int i=0;i<nstream;i++) ob[i].seen=0;
  for(int k=0;k<r.n;k++){ bool f=false; for(int i=0;i<ns;i++) if(r.ob[k]==st[i].p){ st[i].seen++; f=true; } for(int i=0;i<nstream;i++) if(r.ob[k]==ob[i].p){ ob[i].seen++; f=true; } sym_assert(f,"only known objects are delivered"); }
  for(int i=0;i<nstream;i++) sym_assert(ob[i].seen==1,"every object of the stream is delivered once");
  for(int i=0;i<ns;i++){ sym_assert((st[i].seen==1)!=isdup(i)&&st[i].seen<=1,"every distinct stored object is delivered once"); if(st[i].seen==0) sym_reach("same"); }
  for(int k=1;k<r.n;k++){ sym_assert(r.ev[k-1]<=r.ev[k],"types in order"); if(r.ev[k-1]==r.ev[k]){ int64_t a=r.eid[k-1], b=r.eid[k]; sym_assert((ab(a)<ab(b))|((ab(a)==ab(b))&((a!=b)|(r.ever[k-1]<=r.ever[k]))),"objects in sorted order"); } }
  sym_observe(r.n*1000+r.brk[0]*100+r.brk[1]*10+r.brk[2]);
}
extern "C" void harness_main(){
  Osmium::Storage::ObjectStore os; ns=sym_choice("stored",0,VST); int last=0;
  for(int i=0;i<ns;i++){ gen(st[i],"type",TLO); if(st[i].t==0) os.node(mk<Node>(st[i])); else if(st[i].t==1) os.way(mk<Way>(st[i])); else os.relation(mk<Relation>(st[i])); }
  Meta meta; Rec r;
#if FEED
  bool clear=sym_flip("clear"); os.feed_to(&r,meta,clear); check(r,0); if(r.n) sym_reach("fed"); sym_reach("inserted");
  sym_assert(r.brk[0]==1&&r.brk[1]==1&&r.brk[2]==1,"each type bracketed once");
  Rec r2; os.feed_to(&r2,meta,true); if(clear) sym_assert(r2.n==0,"cleared after feeding"); else check(r2,0);
  Rec r3; os.feed_to(&r3,meta); sym_assert(r3.n==0,"cleared after feeding");
#else
  Osmium::Storage::ObjectStore::ApplyHandler<Rec> ah(os,r,meta); no=sym_choice("objects",0,VOB);
  ah.init(meta); int cur=-1;
  for(int i=0;i<no;i++){ O& o=ob[i]; gen(o,"otype",cur<0?TLO:cur); if(i&&o.t==cur) sym_assume((ab(ob[i-1].id)<ab(o.id))|((ob[i-1].id==o.id)&(ob[i-1].v<o.v)));
    if(o.t!=cur){ if(cur==0) ah.after_nodes(); if(cur==1) ah.after_ways(); if(o.t==0) ah.before_nodes(); if(o.t==1) ah.before_ways(); if(o.t==2) ah.before_relations(); cur=o.t; }
    if(o.t==0) ah.node(mk<Node>(o)); else if(o.t==1) ah.way(mk<Way>(o)); else ah.relation(mk<Relation>(o)); }
  if(cur==0) ah.after_nodes(); if(cur==1) ah.after_ways(); if(cur==2) ah.after_relations(); ah.final();
  check(r,no); if(r.n>no&&no) sym_reach("inserted"); if(r.n) sym_reach("fed"); Rec r2; os.feed_to(&r2,meta,true); sym_assert(r2.n==0,"what was delivered is not delivered again");
#endif
}
