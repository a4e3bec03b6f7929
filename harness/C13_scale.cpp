//@ bounds: one or two objects per block, and two blocks of different settings after each other; every granularity 1..10^9, every offset and stored value whose coordinates lie within +-214 degrees, every date granularity 1..10^9 and stored time whose time lies within 0..2^32-1 seconds; plain nodes, dense nodes, ways and relations; writer with every granularity that divides 100 and multiples
//@ mock: pbf
//@ reach: plain,dense,way,relation,written,default
//@ variant quick: read -DMODE=0
//@ variant quick: write -DMODE=1
//@ variant quick: blocks -DMODE=2
#include "pbfio.h"
using namespace OSMPBF; typedef OSMPBF::Node PNode; typedef OSMPBF::Way PWay; typedef OSMPBF::Relation PRel;
#if MODE==0||MODE==2
static int offs=0; static int gk=2, dk=3; static int64_t P10[]={1,10,100,1000,10000,100000,1000000,10000000,100000000,1000000000,10000000000ll};
static int64_t gran0=0; // the granularity where it is a known number
static int64_t gr=100, latoff, lonoff, dg=1000;
// stored values such that offset + granularity * value is a coordinate, in units of nanodegrees
static int64_t raw(const char* n,int64_t off,int64_t& nano){ const int64_t m=offs?644245093800ll/P10[gk]:214748364600ll/(gran0?gran0:P10[gk]); int64_t v=sym_i64(n,-m,m); nano=off+gr*v; sym_assume(nano>=-214748364600ll&&nano<=214748364600ll); return v; }
static int64_t rawtime(const char* n,int64_t& ms){ int64_t v=sym_i64(n,0,4294967295000ll/P10[dk]); ms=dg*v; sym_assume(ms<=4294967295000ll); return v; }
static void near(int32_t x,int64_t nano){ int64_t d=100*(int64_t)x-nano; sym_assert(d<100&&d>-100,"coordinate is the stored one, to the resolution of the library"); if(1) sym_assert(nano%100!=0||d==0,"coordinates the library can represent are exact"); }
static void attime(int64_t t,int64_t ms){ int64_t d=1000*t-ms; sym_assert(d<1000&&d>-1000,"time is the stored one, to the second"); }
#endif
#if MODE==0
extern "C" void harness_main(){
  PrimitiveBlock* b=new PrimitiveBlock; b->mutable_stringtable()->add_s(""); int kind=sym_choice("kind",0,3); static const int64_t GR[]={100,1,7,10000,1000000000}, DG[]={1000,1,60000,1500,333};
  int gc=sym_choice("granularity",0,5), dc=sym_choice("date granularity",0,5); if(kind>1) sym_assume(gc==0);
  if(gc==5){ gk=sym_choice("digits",0,8); gr=sym_i64("gran",P10[gk],P10[gk+1]); } else { gr=gran0=GR[gc]; for(gk=0;P10[gk+1]<=gr;) gk++; } if(dc==5){ dk=sym_choice("date digits",0,8); dg=sym_i64("dgran",P10[dk],P10[dk+1]); } else { dg=DG[dc]; for(dk=0;P10[dk+1]<=dg;) dk++; }
  if(gc==5) sym_assume(dc==0); if(dc==5) sym_assume(gc==0);
  if(gc||sym_flip("set")) b->set_granularity((int32_t)gr); if(dc) b->set_date_granularity((int32_t)dg); if(!gc&&!dc) sym_reach("default");
  if(kind<2&&sym_flip("offsets")){ offs=1; latoff=sym_i64("lat offset",-429496729200ll,429496729200ll); lonoff=sym_i64("lon offset",-429496729200ll,429496729200ll); b->set_lat_offset(latoff); b->set_lon_offset(lonoff); }
  int64_t nla[2],nlo[2],ms[2]; int n=1; PrimitiveGroup* g=b->add_primitivegroup();
  if(kind==0){ sym_reach("plain"); PNode* o=g->add_nodes(); o->set_id(1); o->set_lat(raw("lat",latoff,nla[0])); o->set_lon(raw("lon",lonoff,nlo[0])); o->mutable_info()->set_timestamp(rawtime("time",ms[0])); }
  else if(kind==1){ sym_reach("dense"); n=gc<5&&dc<5?2:1; DenseNodes* d=g->mutable_dense(); int64_t la=0,lo=0,t=0; for(int i=0;i<n;i++){ d->add_id(1); int64_t a=raw("lat",latoff,nla[i]),o=raw("lon",lonoff,nlo[i]),s=rawtime("time",ms[i]); d->add_lat(a-la); d->add_lon(o-lo); la=a; lo=o; DenseInfo* f=d->mutable_denseinfo(); f->add_version(1); f->add_timestamp(s-t); t=s; f->add_changeset(1); f->add_uid(1); f->add_user_sid(0); } }
  else if(kind==2){ sym_reach("way"); PWay* o=g->add_ways(); o->set_id(1); o->mutable_info()->set_timestamp(rawtime("time",ms[0])); }
  else { sym_reach("relation"); PRel* o=g->add_relations(); o->set_id(1); o->mutable_info()->set_timestamp(rawtime("time",ms[0])); }
  pfblob("OSMData",*b,false); delete b; Cap cap; int res=pfread(cap); sym_assert(res==OKAY&&cap.n==n,"the block is read");
  for(int i=0;i<cap.n&&i<n;i++){ if(kind<2){ near(cap.s[i].y,nla[i]); near(cap.s[i].x,nlo[i]); } attime(cap.s[i].ts,ms[i]); }
  sym_observe(cap.n);
}
#elif MODE==2
// each block has settings of its own, or none
static int64_t val(const char* n,int64_t g,int64_t off,int64_t& nano){ int64_t v=sym_i64(n,(-214748364600ll-off)/g+1,(214748364600ll-off)/g-1); nano=off+g*v; return v; }
extern "C" void harness_main(){
  sym_reach("way"); sym_reach("relation"); sym_reach("written"); if(sym_flip("head")){ HeaderBlock* h=new HeaderBlock; h->add_required_features("DenseNodes"); pfblob("OSMHeader",*h,false); delete h; }
  int64_t nla[2],nlo[2],ms[2]; bool first=sym_flip("first"), dense=sym_flip("dense"); static const int64_t GR[]={1000,10}, DG[]={60000,250};
  for(int i=0;i<2;i++){ PrimitiveBlock* b=new PrimitiveBlock; b->mutable_stringtable()->add_s(""); bool own=(i==0)==first; int64_t g=100,dg=1000,la=0,lo=0; if(own){ int k=sym_choice("settings",0,5); if(k==0||k==4) b->set_granularity((int)(g=GR[0])); if(k==1||k==5) b->set_date_granularity((int)(dg=DG[0])); if(k==2||k==4) b->set_lat_offset(la=70000000000ll); if(k==3||k==4) b->set_lon_offset(lo=-30000000000ll); if(k==5) b->set_granularity((int)(g=GR[1])); } else { sym_reach("default"); if(sym_flip("too")){ b->set_granularity((int)(g=GR[1])); b->set_date_granularity((int)(dg=DG[1])); b->set_lat_offset(la=-20000000000ll); b->set_lon_offset(lo=10000000000ll); } }
    int64_t t=sym_i64("time",0,4294967295000ll/dg), a=val("lat",g,la,nla[i]), o=val("lon",g,lo,nlo[i]); ms[i]=dg*t; PrimitiveGroup* q=b->add_primitivegroup();
    if(dense){ sym_reach("dense"); DenseNodes* d=q->mutable_dense(); d->add_id(1+i); d->add_lat(a); d->add_lon(o); DenseInfo* f=d->mutable_denseinfo(); f->add_version(1); f->add_timestamp(t); f->add_changeset(1); f->add_uid(1); f->add_user_sid(0); } else { sym_reach("plain"); PNode* d=q->add_nodes(); d->set_id(1+i); d->set_lat(a); d->set_lon(o); d->mutable_info()->set_timestamp(t); } pfblob("OSMData",*b,false); delete b; }
  Cap cap; int res=pfread(cap); sym_assert(res==OKAY&&cap.n==2,"the blocks are read");
  for(int i=0;i<cap.n&&i<2;i++){ near(cap.s[i].y,nla[i]); near(cap.s[i].x,nlo[i]); attime(cap.s[i].ts,ms[i]); } sym_observe(cap.n);
}
#else
// the writer declares the granularities it used, and stored values mean what was written
extern "C" void harness_main(){
  static const int LG[]={100,1,10,50,1000,10000}, DG[]={1000,1,10,500,2000,60000}; int lg=LG[sym_choice("granularity",0,5)], dg=DG[sym_choice("date granularity",0,5)]; bool dense=sym_flip("dense"); int32_t x=sym_i32("x",-1800000000,1800000000), y=sym_i32("y",-900000000,900000000); int64_t ts=sym_i64("time",0,UINT32_MAX);
  { F f("a.osm.pbf"); typedef Osmium::Output::PBF O; O* o=new O(f); o->use_dense_format(dense).use_compression(false).location_granularity(lg).date_granularity(dg); Meta m; o->init(m); shared_ptr<Osmium::OSM::Node> n=make_shared<Osmium::OSM::Node>(); n->id(5); n->position(Position(x,y)); n->timestamp((time_t)ts); o->node(n); o->final(); delete o; }
  PrimitiveBlock* b=0; for(int i=0;i<pb_n;i++) if(pb_store[i]->pb_kind()==13) b=static_cast<PrimitiveBlock*>(pb_store[i]); sym_assert(b!=0,"a block is written"); if(!b) return; sym_reach("written");
  sym_assert(b->granularity()==lg&&b->date_granularity()==dg&&b->lat_offset()==0&&b->lon_offset()==0,"the block declares the granularities"); const PrimitiveGroup& g=b->primitivegroup(0);
  int64_t la=dense?g.dense().lat(0):g.nodes(0).lat(), lo=dense?g.dense().lon(0):g.nodes(0).lon(), t=dense?g.dense().denseinfo().timestamp(0):g.nodes(0).info().timestamp();
  int64_t d=lg*la-100*(int64_t)y, e=lg*lo-100*(int64_t)x; if(100%lg==0) sym_assert(d==0&&e==0,"stored coordinates are exact"); else sym_assert(2*d<=lg&&2*d>=-lg&&2*e<=lg&&2*e>=-lg,"stored coordinates are the nearest");
  int64_t q=dg*t-1000*ts; if(1000%dg==0) sym_assert(q==0,"stored times are exact"); else sym_assert(2*q<=dg&&2*q>=-dg,"stored times are the nearest"); sym_observe((uint64_t)lo);
}
#endif
