//@ bounds: histories of up to 3 (4 thorough) consecutive versions of up to two objects of one type, all timestamps 1..2^33 in non-decreasing order per object, all periods from <= to; versions replaced within the same second may be kept or dropped when the period is longer than a moment
//@ reach: kept,dropped,moment,period,instant
//@ variant quick: n3 -DVN=3
//@ variant thorough: n5 -DVN=5
#include "sym.h"
#include <osmium/handler/endtime.hpp>
#include <osmium/handler/range_from_history.hpp>
using namespace Osmium::OSM;
static const void* got[64]; static int ngot=0;
struct Sink : public Osmium::Handler::Base {
  void node(const shared_ptr<Node const>& o){ if(ngot<64) got[ngot++]=&*o; } void way(const shared_ptr<Way const>& o){ if(ngot<64) got[ngot++]=&*o; } void relation(const shared_ptr<Relation const>& o){ if(ngot<64) got[ngot++]=&*o; }
};
template<class H> static void send(H& h,const shared_ptr<Node>& o){ h.node(o); }
template<class H> static void send(H& h,const shared_ptr<Way>& o){ h.way(o); }
template<class H> static void send(H& h,const shared_ptr<Relation>& o){ h.relation(o); }
template<class H> static void open(H& h,int t,bool b){ if(t==0){ if(b) h.before_nodes(); else h.after_nodes(); } else if(t==1){ if(b) h.before_ways(); else h.after_ways(); } else { if(b) h.before_relations(); else h.after_relations(); } }
template<class T> static void go(int t){
  int n=sym_choice("n",1,VN), split=sym_choice("split",0,n); int64_t from=sym_i64("from",0,8589934592ll), to=sym_i64("to",0,8589934592ll); sym_assume(from<=to);
  if(sym_flip("moment")){ sym_assume(from==to); sym_reach("moment"); } else { sym_assume(from<to); sym_reach("period"); }
  Sink s; typedef Osmium::Handler::RangeFromHistory<Sink> R; R r(s,(time_t)from,(time_t)to); Osmium::Handler::EndTime<R> h(r);
  shared_ptr<T> o[VN]; int64_t ts[VN]; Meta meta; h.init(meta); open(h,t,true);
  for(int i=0;i<n;i++){ o[i]=make_shared<T>(); ts[i]=sym_i64("ts",1,8589934592ll); if(i&&i!=split) sym_assume(ts[i]>=ts[i-1]); o[i]->id((osm_object_id_t)(i<split?17:18)); o[i]->version((osm_version_t)(i+1)); o[i]->timestamp((time_t)ts[i]); sym_rest(*o[i]); }
  const void* ptr[VN]; for(int i=0;i<n;i++) ptr[i]=&*o[i];
  for(int i=0;i<n;i++) send(h,o[i]);
  open(h,t,false); h.final();
  int k=0; int kept1=0,kept2=0;
  for(int i=0;i<n;i++){ bool was=k<ngot&&got[k]==ptr[i]; if(was) k++;
    bool last=i==n-1||i+1==split; bool valid,instant=false; if(last) valid=ts[i]<=to; else { valid=(ts[i]<=to)&(ts[i+1]>from); if(ts[i+1]==ts[i]){ instant=true; sym_reach("instant"); } }
    if(was){ sym_reach("kept"); (i<split?kept1:kept2)++; sym_observe((uint64_t)i); } else sym_reach("dropped");
    if(!instant) sym_assert(was==valid,"kept exactly when valid at some moment of the period"); }
  sym_assert(k==ngot,"only versions of the input are passed on, in order, once");
  if(from==to) sym_assert(kept1<=1&&kept2<=1,"at most one version of an object at a single moment");
}
extern "C" void harness_main(){ int t=sym_choice("type",0,2); if(t==0) go<Node>(0); else if(t==1) go<Way>(1); else go<Relation>(2); }
