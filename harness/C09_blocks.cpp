//@ bounds: block messages with one group of plain nodes, dense nodes, ways or relations (up to 2 objects; 1 with two elements in every array), every array of 0-2 elements (members 0-1 in the quick check) independent of the others, with or without metadata, string tables of 0-2 entries (one up to 1100 bytes), every string index arbitrary (32 bit), arbitrary ids, references and values; blocks of up to 2 groups that are empty or of any type
//@ mock: pbf
//@ reach: delivered,rejected,string,dense
//@ variant quick: plain -DKIND=0
//@ variant quick: dense -DKIND=1
//@ variant quick: dense2 -DKIND=2
//@ variant quick: way -DKIND=3
//@ variant quick: rel -DKIND=4
//@ variant thorough: rel2 -DKIND=4 -DRM=2
//@ variant quick: groups -DKIND=5
//@ variant quick: long -DKIND=6
#include "pbfio.h"
#ifndef RM
#define RM 1
#endif
using namespace OSMPBF; typedef OSMPBF::Node PNode; typedef OSMPBF::Way PWay; typedef OSMPBF::Relation PRel;
static int nstr; static bool longtext; static uint32_t sidx(const char* n){ return sym_u32(n); }
template<class T> static void common(T* o,int most){ o->set_id(sym_i64("id")); int k=sym_choice("keys",0,most), v=sym_choice("vals",0,most); for(int i=0;i<k;i++) o->add_keys(sidx("key")); for(int i=0;i<v;i++) o->add_vals(sidx("val"));
  if(sym_flip("info")){ Info* i=o->mutable_info(); i->set_version(sym_i32("version")); i->set_timestamp(sym_i64("timestamp")); i->set_changeset(sym_i64("changeset")); i->set_uid(sym_i32("uid")); if(sym_flip("user")) i->set_user_sid(sidx("user")); if(sym_flip("visible")) i->set_visible(sym_bool("vis")); } }
static void dense(DenseNodes* d,int lo,int hi,bool info,int kvmax){ int n=sym_choice("ids",lo,hi), a=sym_choice("lats",lo,hi), o=sym_choice("lons",lo,hi), kv=sym_choice("keys_vals",0,kvmax); for(int i=0;i<n;i++) d->add_id(sym_i64("id")); for(int i=0;i<a;i++) d->add_lat(sym_i64("lat")); for(int i=0;i<o;i++) d->add_lon(sym_i64("lon")); for(int i=0;i<kv;i++) d->add_keys_vals(sym_i32("kv"));
  if(info){ DenseInfo* f=d->mutable_denseinfo(); int k=sym_choice("versions",lo,hi); for(int i=0;i<k;i++) f->add_version(sym_i32("v")); k=sym_choice("timestamps",lo,hi); for(int i=0;i<k;i++) f->add_timestamp(sym_i64("t")); k=sym_choice("changesets",lo,hi); for(int i=0;i<k;i++) f->add_changeset(sym_i64("c")); k=sym_choice("uids",lo,hi); for(int i=0;i<k;i++) f->add_uid(sym_i32("u")); k=sym_choice("user_sids",lo,hi); for(int i=0;i<k;i++) f->add_user_sid(sym_i32("us")); k=sym_choice("visibles",0,hi); for(int i=0;i<k;i++) f->add_visible(sym_bool("vi")); } sym_reach("dense"); }
struct Seen : public Osmium::Handler::Base { int n; std::string texts[3]; int nt; Seen():n(0),nt(0){}
  void text(const char* s){ bool ok=false; for(int i=0;i<nt;i++) if(texts[i]==s) ok=true; sym_assert(ok||!*s,"texts come from the string table"); if(*s) sym_reach("string"); }
  void obj(const Object& o){ n++; text(o.user()); for(TagList::const_iterator i=o.tags().begin();i!=o.tags().end();++i){ text(i->key()); text(i->value()); } }
  void node(const shared_ptr<Osmium::OSM::Node const>& o){ obj(*o); } void way(const shared_ptr<Osmium::OSM::Way const>& o){ obj(*o); } void relation(const shared_ptr<Osmium::OSM::Relation const>& o){ obj(*o); for(int i=0;i<(int)o->members().size();i++) text(o->members()[i].role()); } };
extern "C" void harness_main(){
  PrimitiveBlock* b=new PrimitiveBlock; Seen h; nstr=KIND==6?2:sym_choice("strings",0,KIND==5?1:2); longtext=KIND==6; b->mutable_stringtable(); for(int i=0;i<nstr;i++){ std::string s= i?(longtext?std::string(sym_choice("size",1,2)==1?1021:1100,'x'):std::string("b")):std::string(); b->mutable_stringtable()->add_s(s); h.texts[h.nt++]=s; }
  if(KIND==5&&nstr==0&&sym_flip("scaled")){ b->set_granularity(sym_i32("granularity")); b->set_date_granularity(sym_i32("date granularity")); b->set_lat_offset(sym_i64("lat offset")); }
  int atmost=0;
#if KIND==0
  PrimitiveGroup* g=b->add_primitivegroup(); for(int i=0,n=1;i<n;i++){ PNode* o=g->add_nodes(); common(o,2); o->set_lat(sym_i64("lat")); o->set_lon(sym_i64("lon")); }
  atmost=1;
#elif KIND==1
  dense(b->add_primitivegroup()->mutable_dense(),0,1,sym_flip("denseinfo"),3); atmost=1;
#elif KIND==2
  dense(b->add_primitivegroup()->mutable_dense(),1,2,true,0); atmost=2;
#elif KIND==3
  PWay* o=b->add_primitivegroup()->add_ways(); common(o,2); int r=sym_choice("refs",0,2); for(int i=0;i<r;i++) o->add_refs(sym_i64("ref")); atmost=1;
#elif KIND==4
  PRel* o=b->add_primitivegroup()->add_relations(); common(o,1); int r=sym_choice("roles",0,RM), m=sym_choice("memids",0,RM), t=sym_choice("types",0,RM); for(int i=0;i<r;i++) o->add_roles_sid(sym_i32("role")); for(int i=0;i<m;i++) o->add_memids(sym_i64("memid")); for(int i=0;i<t;i++) o->add_types((Relation_MemberType)sym_choice("type",0,2)); atmost=1;
#elif KIND==6
  PrimitiveGroup* g=b->add_primitivegroup(); switch(sym_choice("where",0,4)){ case 0: { PNode* o=g->add_nodes(); o->set_id(1); o->set_lat(2); o->set_lon(3); o->add_keys(sidx("key")); o->add_vals(sidx("val")); break; } case 1: { DenseNodes* d=g->mutable_dense(); d->add_id(1); d->add_lat(2); d->add_lon(3); d->add_keys_vals(sym_i32("key")); d->add_keys_vals(sym_i32("val")); d->add_keys_vals(0); break; } case 2: { PWay* o=g->add_ways(); o->set_id(1); o->mutable_info()->set_user_sid(sidx("user")); break; } case 3: { DenseNodes* d=g->mutable_dense(); d->add_id(1); d->add_lat(2); d->add_lon(3); DenseInfo* f=d->mutable_denseinfo(); f->add_version(1); f->add_timestamp(1); f->add_changeset(1); f->add_uid(1); f->add_user_sid(sym_i32("us")); break; } default: { PRel* o=g->add_relations(); o->set_id(1); o->add_roles_sid(sym_i32("role")); o->add_memids(5); o->add_types((Relation_MemberType)0); } } atmost=1;
#else
  int n=sym_choice("groups",0,2); for(int i=0;i<n;i++){ PrimitiveGroup* g=b->add_primitivegroup(); int has=sym_choice("content",0,15); if(has&1){ PNode* o=g->add_nodes(); o->set_id(1); o->set_lat(2); o->set_lon(3); } if(has&2){ DenseNodes* d=g->mutable_dense(); int k=sym_choice("dense ids",0,1); if(k){ d->add_id(4); d->add_lat(5); d->add_lon(6); } } if(has&4) g->add_ways()->set_id(7); if(has&8) g->add_relations()->set_id(8); } atmost=2;
#endif
  HeaderBlock* hb=new HeaderBlock; if(KIND==5&&nstr==0&&sym_flip("header")){ for(int i=sym_choice("features",0,1);i>0;i--) hb->add_required_features("DenseNodes"); pfblob("OSMHeader",*hb,false); } pfblob("OSMData",*b,false);
  int res=pfread(h); sym_assert(h.n<=atmost,"no more objects than the block contains"); if(res==OKAY) sym_reach("delivered"); else sym_reach("rejected"); sym_assert(vm_opened==vm_closed,"the file is closed"); sym_observe(res*10+h.n); delete b; delete hb;
}
