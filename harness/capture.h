// A handler that records what it is given (values and call sequence) and can keep the objects.
#ifndef VERIF_CAPTURE_H
#define VERIF_CAPTURE_H
#include <osmium/handler.hpp>
struct Snap { int t; int64_t id; uint32_t version; int32_t changeset; int64_t ts; int32_t uid; bool visible; std::string user; int nt; std::string k[4], v[4]; bool def; int32_t x,y; int np; int64_t ref[4]; char mt[4]; std::string role[4]; };
enum { CAPMAX=8, EVMAX=40 };
static inline void snap_obj(Snap& s,const Osmium::OSM::Object& o,int t){ s.t=t; s.id=o.id(); s.version=o.version(); s.changeset=o.changeset(); s.ts=o.timestamp(); s.uid=o.uid(); s.visible=o.visible(); s.user=o.user(); s.nt=0; for(Osmium::OSM::TagList::const_iterator i=o.tags().begin();i!=o.tags().end();++i) if(s.nt<4){ s.k[s.nt]=i->key(); s.v[s.nt]=i->value(); s.nt++; } else s.nt=99; s.np=0; s.def=false; s.x=s.y=0; }
static inline void snap(Snap& s,const Osmium::OSM::Node& n){ snap_obj(s,n,0); s.def=n.position().defined(); s.x=n.position().x(); s.y=n.position().y(); }
static inline void snap(Snap& s,const Osmium::OSM::Way& w){ snap_obj(s,w,1); s.np=(int)w.nodes().size(); for(int i=0;i<s.np&&i<4;i++) s.ref[i]=w.nodes()[i].ref(); }
static inline void snap(Snap& s,const Osmium::OSM::Relation& r){ snap_obj(s,r,2); s.np=(int)r.members().size(); for(int i=0;i<s.np&&i<4;i++){ s.ref[i]=r.members()[i].ref(); s.mt[i]=r.members()[i].type(); s.role[i]=r.members()[i].role(); } }
static inline bool snap_meta_eq(const Snap& a,const Snap& b){ return (a.version==b.version)&(a.changeset==b.changeset)&(a.ts==b.ts)&(a.uid==b.uid)&(a.visible==b.visible); }
static inline bool snap_tags_eq(const Snap& a,const Snap& b){ if(a.nt!=b.nt) return false; for(int i=0;i<a.nt&&i<4;i++) if(a.k[i]!=b.k[i]||a.v[i]!=b.v[i]) return false; return true; }
static inline bool snap_parts_eq(const Snap& a,const Snap& b){ if(a.np!=b.np) return false; bool r=true; for(int i=0;i<a.np&&i<4;i++){ r=r&(a.ref[i]==b.ref[i]); if(a.t==2){ if(a.role[i]!=b.role[i]) return false; r=r&(a.mt[i]==b.mt[i]); } } return r; }
static inline bool snap_eq(const Snap& a,const Snap& b){ return a.t==b.t&&a.user==b.user&&snap_tags_eq(a,b)&&((a.id==b.id)&snap_meta_eq(a,b)&(a.def==b.def)&(a.x==b.x)&(a.y==b.y))&&snap_parts_eq(a,b); }
struct Cap : public Osmium::Handler::Base {
  int n; Snap s[CAPMAX]; int open; int inits,finals; int ev[EVMAX]; int ne; Osmium::OSM::Meta meta; int keep; int nk; int kept[CAPMAX]; shared_ptr<Osmium::OSM::Node const> kn[CAPMAX]; shared_ptr<Osmium::OSM::Way const> kw[CAPMAX]; shared_ptr<Osmium::OSM::Relation const> kr[CAPMAX]; int stopat;
  Cap(){ n=0; open=-1; inits=finals=ne=0; keep=0; nk=0; stopat=-1; }
  void e(int x){ if(ne<EVMAX) ev[ne++]=x; }
  void init(Osmium::OSM::Meta& m){ sym_assert(inits==0&&n==0&&!finals,"one initialisation call before everything else"); inits++; meta=m; e(1); }
  void before(int t){ sym_assert(open==-1&&inits==1&&!finals,"begin callback when no type is open"); open=t; e(10+t); }
  void after(int t){ sym_assert(open==t&&!finals,"end callback for the open type"); open=-1; e(20+t); }
  template<class T> void obj(int t,const T& o){ sym_assert(open==t&&n<CAPMAX&&!finals,"objects between their begin and end callbacks"); if(n<CAPMAX){ snap(s[n],o); n++; } e(30+t); }
  void before_nodes(){ before(0); } void after_nodes(){ after(0); } void before_ways(){ before(1); } void after_ways(){ after(1); } void before_relations(){ before(2); } void after_relations(){ after(2); }
  void node(const shared_ptr<Osmium::OSM::Node const>& o){ if(keep>>n&1) kn[n]=o; obj(0,*o); if(n==stopat) throw Osmium::Handler::StopReading(); }
  void way(const shared_ptr<Osmium::OSM::Way const>& o){ if(keep>>n&1) kw[n]=o; obj(1,*o); if(n==stopat) throw Osmium::Handler::StopReading(); }
  void relation(const shared_ptr<Osmium::OSM::Relation const>& o){ if(keep>>n&1) kr[n]=o; obj(2,*o); if(n==stopat) throw Osmium::Handler::StopReading(); }
  void final(){ sym_assert(finals==0&&inits==1,"one final call after everything else"); if(stopat<0) sym_assert(open==-1,"end callback before the final call"); finals++; e(2); }
  // the objects that were kept still show what they showed when they were delivered
  int verify(){ int c=0; for(int i=0;i<n;i++) if(keep>>i&1){ Snap x; if(s[i].t==0) snap(x,*kn[i]); else if(s[i].t==1) snap(x,*kw[i]); else snap(x,*kr[i]); sym_assert(snap_eq(x,s[i]),"an object that is kept does not change"); c++; } return c; }
};
static inline Snap snap_empty(int t){ Snap s; s.t=t; s.id=0; s.version=0; s.changeset=0; s.ts=0; s.uid=-1; s.visible=true; s.nt=0; s.def=false; s.x=s.y=0; s.np=0; return s; }
static inline void snap_check(const Snap& a,const Snap& w){ sym_assert(a.t==w.t,"object of the right type"); sym_assert(a.id==w.id,"id"); sym_assert(a.version==w.version,"version"); sym_assert(a.changeset==w.changeset,"changeset"); sym_assert(a.ts==w.ts,"timestamp"); sym_assert(a.uid==w.uid,"user id"); sym_assert(a.visible==w.visible,"visibility"); sym_assert(a.user==w.user,"user name"); sym_assert(snap_tags_eq(a,w),"tags"); if(a.t==0){ sym_assert(a.def==w.def,"position defined"); if(w.def) sym_assert((a.x==w.x)&(a.y==w.y),"position"); } sym_assert(a.np==w.np,"number of parts"); sym_assert(snap_parts_eq(a,w),"node references or members"); }
#endif
