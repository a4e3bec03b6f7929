//@ bounds: files with every sequence of up to 3 objects of the three types with arbitrary ids, versions and references, with or without tags, metadata, parts and text of its own, as OSM XML, change file (objects in create and delete sections) and PBF (dense and plain nodes, one block or several); a handler that keeps every subset of the objects
//@ reach: kept,notkept,last,run
//@ variant quick: xml -DFMT=0 -DNOB=3 -DHAS=1
//@ variant quick: pbf -DFMT=1 -DNOB=3 -DHAS=1
//@ variant thorough: xml -DFMT=0 -DNOB=3 -DHAS=2
//@ variant thorough: pbf -DFMT=1 -DNOB=3 -DHAS=2
//@ mock: expat pbf
#if FMT==0
#include "xmlin.h"
#else
#include "pbfio.h"
static Snap want[CAPMAX]; static int nwant;
#endif
static bool change, dense; static int rich[8]; static const char* EN[]={"node","way","relation"}; static const char* RO[]={"","r","s","t"}; static const char* TK[]={"k","l","m","n"}; static const char* US[]={"","u","v","w"};
static void fill(int i){ Snap& w=want[i]=snap_empty(sym_choice("type",0,2)); w.id=sym_i64("id"); rich[i]=sym_choice("content",0,HAS); 
  if(rich[i]){ w.version=sym_u32("version"); w.changeset=i+5; w.ts=1341146096; w.uid=sym_i32("uid"); w.user=US[rich[i]]; if(w.user.empty()) w.user="u"; w.nt=rich[i]; for(int k=0;k<w.nt;k++){ w.k[k]=TK[k+(i&1)]; w.v[k]=RO[1+i%3]; }
    if(w.t==0){ w.def=true; Position p(1.5+i,2.5); w.x=p.x(); w.y=p.y(); } else { w.np=rich[i]; for(int k=0;k<w.np;k++){ w.ref[k]=sym_i64("ref"); w.mt[k]="nwr"[(i+k)%3]; w.role[k]=RO[i%4]; } } }
  if(i&&w.t==want[i-1].t) sym_reach("run"); }
#if FMT==0
static void build(){ change=sym_flip("change"); int d0=change?sym_choice("deleted",0,1):0; XE& r=xs(change?"osmChange":"osm"); xa(r,"version","0.6"); for(int i=0;i<nwant;i++){ Snap& w=want[i]; bool del=change&&((i+d0)&1); if(change) xs(del?"delete":"create"); if(del) w.visible=false; XE& e=xs(EN[w.t]); xa(e,"id",xnum(w.id)); if(rich[i]){ xa(e,"version",xnum(w.version)); xa(e,"changeset",xnum(w.changeset)); xa(e,"timestamp",TSTR[1]); xa(e,"uid",xnum(w.uid)); xa(e,"user",ps(w.user)); if(w.t==0){ xa(e,"lon",ps(vm_deg(1.5+i))); xa(e,"lat","2.5"); } }
    for(int k=0;k<w.np;k++) if(w.t==1){ XE& n=xs("nd"); xa(n,"ref",xnum(w.ref[k])); xend("nd"); } else { XE& m=xs("member"); xa(m,"type",EN[(i+k)%3]); xa(m,"ref",xnum(w.ref[k])); xa(m,"role",ps(w.role[k])); xend("member"); }
    for(int k=0;k<w.nt;k++){ XE& t=xs("tag"); xa(t,"k",ps(w.k[k])); xa(t,"v",ps(w.v[k])); xend("tag"); } xend(EN[w.t]); if(change) xend(del?"delete":"create"); } xend(change?"osmChange":"osm"); }
template<class H> static int go(H& h){ return xparse(h,change?"a.osc":"a.osm"); }
#else
using namespace OSMPBF;
static const char* ST[]={"","u","v","w","r","s","t","k","l","m","n"}; static int si(const std::string& s){ for(int i=0;i<11;i++) if(s==ST[i]) return i; return 0; }
static int64_t df(int64_t a,int64_t b){ return (int64_t)((uint64_t)a-(uint64_t)b); }
template<class M> static void meta(M* o,const Snap& w,int i){ if(!rich[i]) return; Info* f=o->mutable_info(); f->set_version((int)w.version); f->set_changeset(w.changeset); f->set_timestamp(w.ts); f->set_uid(w.uid); f->set_user_sid((unsigned)si(w.user)); for(int k=0;k<w.nt;k++){ o->add_keys((unsigned)si(w.k[k])); o->add_vals((unsigned)si(w.v[k])); } }
static void build(){ dense=sym_flip("dense"); bool split=sym_flip("own blocks"); PrimitiveBlock* b=0; PrimitiveGroup* g=0; Snap last; last.id=0; last.x=last.y=0; last.ts=0; last.changeset=0; last.uid=0; int lu=0;
  for(int i=0;i<nwant;i++){ Snap& w=want[i]; if(b&&split){ pfblob("OSMData",*b,false); delete b; b=0; } if(!b){ b=new PrimitiveBlock; for(int k=0;k<11;k++) b->mutable_stringtable()->add_s(ST[k]); g=0; } if(!g||w.t!=want[i-1].t){ g=b->add_primitivegroup(); last.id=last.x=last.y=0; last.ts=0; last.changeset=0; last.uid=0; lu=0; }
    if(w.t==0){ if(!w.def){ w.def=true; w.x=w.y=0; } }
    if(w.t==0&&dense){ DenseNodes* d=g->mutable_dense(); d->add_id(df(w.id,last.id)); d->add_lat(w.y-last.y); d->add_lon(w.x-last.x); DenseInfo* f=d->mutable_denseinfo(); if(!rich[i]){ w.uid=0; w.user=""; w.ts=0; } f->add_version((int)w.version); f->add_timestamp(w.ts-last.ts); f->add_changeset(w.changeset-last.changeset); f->add_uid((int)((uint32_t)w.uid-(uint32_t)last.uid)); f->add_user_sid(si(w.user)-lu); lu=si(w.user); for(int k=0;k<w.nt;k++){ d->add_keys_vals(si(w.k[k])); d->add_keys_vals(si(w.v[k])); } d->add_keys_vals(0); last=w; }
    else if(w.t==0){ OSMPBF::Node* o=g->add_nodes(); o->set_id(w.id); o->set_lat(w.y); o->set_lon(w.x); meta(o,w,i); }
    else if(w.t==1){ OSMPBF::Way* o=g->add_ways(); o->set_id(w.id); meta(o,w,i); for(int k=0;k<w.np;k++) o->add_refs(df(w.ref[k],k?w.ref[k-1]:0)); }
    else { OSMPBF::Relation* o=g->add_relations(); o->set_id(w.id); meta(o,w,i); for(int k=0;k<w.np;k++){ o->add_memids(df(w.ref[k],k?w.ref[k-1]:0)); o->add_roles_sid(si(w.role[k])); o->add_types((OSMPBF::Relation_MemberType)((i+k)%3)); } } }
  if(b){ pfblob("OSMData",*b,false); delete b; } }
template<class H> static int go(H& h){ return pfread(h); }
#endif
extern "C" void harness_main(){
#if FMT==0
  xreset();
#endif
  nwant=sym_choice("objects",1,NOB); for(int i=0;i<nwant;i++) fill(i); build(); Cap* c=new Cap; c->keep=sym_choice("keep",0,(1<<nwant)-1); int r=go(*c); sym_assert(r==0,"the file is read"); sym_assert(c->n==nwant,"every object is delivered");
  // what arrives is what the file holds, not what an earlier object left behind; what is kept stays
  for(int i=0;i<c->n&&i<nwant;i++) snap_check(c->s[i],want[i]); int k=c->verify(); if(k) sym_reach("kept"); if(k<nwant) sym_reach("notkept"); if(c->keep>>(nwant-1)&1) sym_reach("last"); delete c; sym_observe(k); }
