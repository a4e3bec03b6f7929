//@ bounds: nodes, ways and relations with every id up to 2^53, any version, changeset, user id and time, user names and up to two tags of arbitrary text of two bytes, one or two members or up to three nodes (positions arbitrary, all, none or some known), areas with an outer and up to two inner rings; every property, every index up to two behind the end; V8, ICU and GEOS are stand-ins
//@ reach: node,way,relation,area,open,closed,no geometry,reversed,behind the end,no tag,holes
//@ mock: v8 geos
//@ variant both: node -DMODE=0
//@ variant both: way -DMODE=1
//@ variant both: relation -DMODE=2
//@ variant both: area -DMODE=3
#include "sym.h"
#include <string.h>
#include <cstdlib>
#include <string>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <stdexcept>
#include <v8.h>
#include <osmium/javascript/wrapper/osm.hpp>
using namespace Osmium::OSM; namespace W=Osmium::Javascript::Wrapper; using Osmium::Javascript::Template;
struct T { int64_t id; uint32_t version; int32_t cs, uid; int64_t ts; bool vis; char user[3], k[2][3], v[2][3]; int tags; };
static bool same(v8::Value* v,const char* s){ v8::String* t=vj_str(v); int n=(int)strlen(s); if(t->Length()!=n) return false; bool r=true; for(int i=0;i<n;i++) r=r&(t->u[i]==(unsigned char)s[i]); return r; }
static void fill(Object& o,T& t){ t.id=sym_i64("id",-(1ll<<53),1ll<<53); t.version=sym_u32("version"); t.cs=sym_i32("changeset",0); t.uid=sym_i32("uid",-1); t.vis=sym_flip("visible"); t.ts=sym_flip("time")?1325376000:0; o.id(t.id); o.version(t.version); o.changeset(t.cs); o.uid(t.uid); o.visible(t.vis); o.timestamp((time_t)t.ts); sym_str("user",t.user,2,1,127); o.user(t.user);
  t.tags=sym_choice("tags",0,2); for(int i=0;i<t.tags;i++){ sym_str("key",t.k[i],1,1,127); sym_str("value",t.v[i],2,1,127); o.tags().add(t.k[i],t.v[i]); } if(t.tags==2) sym_assume(t.k[0][0]!=t.k[1][0]); }
static void common(v8::Value* js,T& t){ sym_assert(vj_num(vj_prop(js,"id"))==(double)t.id,"id"); sym_assert(vj_num(vj_prop(js,"version"))==(double)t.version,"version"); sym_assert(vj_num(vj_prop(js,"changeset"))==(double)t.cs,"changeset"); sym_assert(vj_num(vj_prop(js,"uid"))==(double)t.uid,"uid"); sym_assert(vj_bool(vj_prop(js,"visible"))==t.vis,"visibility"); sym_assert(same(vj_prop(js,"user"),t.user),"user name"); sym_assert(same(vj_prop(js,"timestamp"),t.ts?"2012-01-01T00:00:00Z":""),"time");
  v8::Value* g=vj_prop(js,"tags"); v8::Array* names=vj_names(g); sym_assert((int)names->Length()==t.tags,"number of tags"); for(int i=0;i<t.tags;i++){ sym_assert(same(*names->Get(i),t.k[i]),"keys of the tags"); v8::Value* v=vj_named(g,vj_str(*v8::String::New(t.k[i]))); sym_assert(!v->IsUndefined(),"a tag is found by its key"); sym_assert(same(v,t.v[i]),"value of a tag"); }
  char q[2]; sym_str("other key",q,1,1,127); for(int i=0;i<t.tags;i++) sym_assume(q[0]!=t.k[i][0]); sym_assert(vj_named(g,vj_str(*v8::String::New(q)))->IsUndefined(),"there are no other tags"); sym_reach("no tag"); }
template<class J> static v8::Value* wrap(void* o){ return *v8::Local<v8::Object>::New(Template::get<J>().create_instance(o)); }
static void point(v8::Value* a,const Position& p){ v8::Array* r=vj_arr(a); sym_assert(r->Length()==2,"a position is a pair"); sym_assert(vj_num(*r->Get(0))==p.lon()&&vj_num(*r->Get(1))==p.lat(),"coordinates"); }
static void line(v8::Value* a,const WayNodeList& l,bool rev){ v8::Array* r=vj_arr(a); int n=(int)l.size(); sym_assert((int)r->Length()==n,"number of positions"); for(int i=0;i<n;i++) point(*r->Get(i),l[rev?n-1-i:i].position()); if(rev) sym_reach("reversed"); }
static Position pos(const char* n){ return Position((int32_t)sym_i32(n,-1800000000,1800000000),(int32_t)sym_i32(n,-900000000,900000000)); }
extern "C" void harness_main(){ T t;
#if MODE==0
  Node o; fill(o,t); Position p=pos("x"); o.position(p); v8::Value* js=wrap<W::OSMNode>(&o); common(js,t); v8::Value* g=vj_prop(js,"geom"); sym_assert(vj_num(vj_prop(g,"lon"))==p.lon()&&vj_num(vj_prop(g,"lat"))==p.lat(),"coordinates"); point(vj_call(g,"toArray"),p);
  bool srid=sym_flip("srid"); Osmium::Geometry::Point q(o); std::ostringstream a, b; a<<q.as_WKT(srid); sym_assert(vj_str(vj_call(g,"toWKT",*v8::Boolean::New(srid)))->latin()==a.str(),"text form"); b<<q.as_HexWKB(srid); sym_assert(vj_str(vj_call(g,"toHexWKB",*v8::Boolean::New(srid)))->latin()==b.str(),"hexadecimal form"); a.str(""); a<<q.as_WKT(false); sym_assert(vj_str(vj_call(g,"toWKT"))->latin()==a.str(),"text form");
  sym_assert(vj_collect()==1,"the geometry is collected"); sym_reach("node");
#elif MODE==1
  Way o; fill(o,t); int n=sym_choice("nodes",0,3), known=sym_choice("known",0,2); int64_t ref[3]; for(int i=0;i<n;i++){ ref[i]=i==2&&sym_flip("closed")?ref[0]:sym_i64("ref",-(1ll<<53),1ll<<53); o.add_node(ref[i]); } bool closed=n>1&&ref[n-1]==ref[0]; Position p[3]; for(int i=0;i<n;i++) if(known==2||(known==1&&i==1)){ p[i]=i==n-1&&closed?p[0]:Position((int32_t)(10+7*i),(int32_t)(20-i*i)); o.nodes()[i].position(p[i]); }
  v8::Value* js=wrap<W::OSMWay>(&o); common(js,t); v8::Value* l=vj_prop(js,"nodes"); sym_assert(vj_num(vj_prop(l,"length"))==n,"number of nodes"); for(int i=0;i<n;i++) sym_assert(vj_num(vj_index(l,i))==(double)ref[i],"nodes of the way"); v8::Array* e=vj_indexes(l); sym_assert((int)e->Length()==n,"indexes of the nodes"); for(int i=0;i<n;i++) sym_assert(vj_num(*e->Get(i))==i,"indexes of the nodes");
  sym_assert(vj_index(l,(uint32_t)(n+sym_choice("behind",0,2)))->IsUndefined(),"nothing behind the end"); sym_reach("behind the end"); sym_reach("way");
  if(n==1||known!=2){ if(n==0||known==0){ v8::Value* g=vj_prop(js,"geom"); sym_assert(vj_call(g,"toWKT")->IsUndefined()&&vj_call(g,"toArray")->IsUndefined(),"no geometry without positions"); g=vj_prop(js,"reverse_geom"); sym_assert(vj_call(g,"toArray")->IsUndefined(),"no geometry without positions"); g=vj_prop(js,"polygon_geom"); sym_assert(vj_call(g,"toArray")->IsUndefined(),"no geometry without positions"); sym_assert(vj_collect()==3,"the geometry is collected"); sym_reach("no geometry"); } sym_observe(n); return; }
  if(n==0){ sym_observe(n); return; }
  line(vj_call(vj_prop(js,"geom"),"toArray"),o.nodes(),false); line(vj_call(vj_prop(js,"reverse_geom"),"toArray"),o.nodes(),true); std::ostringstream a; a<<Osmium::Geometry::LineString(o,true).as_WKT(); sym_assert(vj_str(vj_call(vj_prop(js,"reverse_geom"),"toWKT"))->latin()==a.str(),"text form");
  v8::Value* g=vj_prop(js,"polygon_geom"); if(closed){ v8::Array* r=vj_arr(vj_call(g,"toArray")); sym_assert(r->Length()==1,"a polygon has one ring"); line(*r->Get(0),o.nodes(),false); sym_reach("closed"); } else { sym_assert(vj_call(g,"toArray")->IsUndefined(),"an open way is no polygon"); sym_reach("open"); } sym_assert(vj_collect()==4,"the geometry is collected");
#elif MODE==2
  Relation o; fill(o,t); int n=sym_choice("members",0,2); int64_t ref[2]; char ty[2], role[2][3]; for(int i=0;i<n;i++){ ref[i]=sym_i64("ref",-(1ll<<53),1ll<<53); ty[i]="nwr"[sym_choice("type",0,2)]; sym_str("role",role[i],2,1,127); o.add_member(ty[i],ref[i],role[i]); }
  v8::Value* js=wrap<W::OSMRelation>(&o); common(js,t); v8::Value* l=vj_prop(js,"members"); sym_assert(vj_num(vj_prop(l,"length"))==n,"number of members"); v8::Array* e=vj_indexes(l); sym_assert((int)e->Length()==n,"indexes of the members"); for(int i=0;i<n;i++){ sym_assert(vj_num(*e->Get(i))==i,"indexes of the members"); v8::Value* m=vj_index(l,i); char s[2]={ty[i],0}; sym_assert(vj_num(vj_prop(m,"ref"))==(double)ref[i],"id of the member"); sym_assert(same(vj_prop(m,"type"),s),"type of the member"); sym_assert(same(vj_prop(m,"role"),role[i]),"role of the member"); }
  sym_assert(vj_index(l,(uint32_t)(n+sym_choice("behind",0,2)))->IsUndefined(),"nothing behind the end"); sym_reach("behind the end"); sym_reach("relation");
#else
  using namespace geos::geom; bool fromway=sym_flip("from way"); Area* a; int holes=0; double x[3];
  if(fromway){ Way w; fill(w,t); for(int i=0;i<4;i++){ w.add_node(i==3?1:i+1); w.nodes()[i].position(Position((int32_t)(i%3==1?50000000:0),(int32_t)(i%3==2?50000000:0))); } a=new Area(w); } else { Relation r; fill(r,t); a=new Area(r); holes=sym_choice("holes",0,2); std::vector<Geometry*>* h=holes||sym_flip("list")?new std::vector<Geometry*>:0; LinearRing* shell=0; for(int i=0;i<=holes;i++){ x[i]=i+0.5; std::vector<Coordinate>* c=new std::vector<Coordinate>; for(int k=0;k<4;k++) c->push_back(Coordinate(x[i]+(k%3==1),k%3==2)); LinearRing* l=new LinearRing(new CoordinateSequence(c)); if(i) h->push_back(l); else shell=l; } std::vector<Geometry*>* p=new std::vector<Geometry*>; p->push_back(new Polygon(shell,h)); a->geos_geometry(new MultiPolygon(p)); }
  v8::Value* js=wrap<W::OSMArea>(a); t.id=a->id(); common(js,t); sym_assert(same(vj_prop(js,"from"),fromway?"way":"relation"),"source of the area"); v8::Array* m=vj_arr(vj_call(vj_prop(js,"geom"),"toArray")); sym_assert(m->Length()==1,"number of polygons"); v8::Array* p=vj_arr(*m->Get(0)); sym_assert((int)p->Length()==1+holes,"number of rings"); for(int i=0;i<=holes;i++){ v8::Array* r=vj_arr(*p->Get(i)); sym_assert(r->Length()==4,"number of positions"); for(int k=0;k<4;k++){ v8::Array* c=vj_arr(*r->Get(k)); sym_assert(c->Length()==2,"a position is a pair"); double cx=fromway?(k%3==1?5.0:0.0):x[i]+(k%3==1), cy=fromway?(k%3==2?5.0:0.0):(k%3==2); sym_assert(vj_num(*c->Get(0))==cx&&vj_num(*c->Get(1))==cy,"coordinates"); } }
  if(holes) sym_reach("holes"); sym_reach("area"); sym_assert(vj_collect()==1,"the geometry is collected"); delete a; sym_assert(vg_live==0,"geometries are freed");
#endif
  sym_observe((uint64_t)t.tags);
}
