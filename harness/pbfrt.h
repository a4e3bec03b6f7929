// Round trip of objects of one type through the PBF writer and the PBF reader.
// WT: type, NOB: objects, NTAG: most tags, NPART: most references or members, TXT: longest text, ROPT: writer options vary, EXTRA: objects of another type in front
#include "pbfio.h"
static Snap want[CAPMAX]; static int nwant;
static std::string txt(const char* n,int lo,int hi){ char b[8];
#ifdef WORDS
  static const char* W[]={"","a","b","cc"}; return W[sym_choice(n,lo?1:0,WORDS)];
#endif
  sym_str(n,b,sym_choice("length",lo,hi)); return b; }
extern "C" void harness_main(){
  bool hist=ROPT?sym_flip("history"):true, meta=ROPT?sym_flip("metadata"):true, dense=sym_flip("dense")&&WT==0, zip=ROPT?sym_flip("compress"):false; int gran=1, lg=ROPT&&WT==0?sym_choice("granularity",0,2):2, dg=ROPT?sym_choice("date granularity",0,2):2; static const int LG[]={1,10,100}, DG[]={1,500,1000};
  if(WT) sym_assume(true); bool split=ROPT&&WT&&sym_flip("full block"); if(split) pb_bytes=PB_MAXBLOB;
  { F f(hist?"a.osh.pbf":"a.osm.pbf"); typedef Osmium::Output::PBF O; O* o=new O(f); o->use_dense_format(dense).use_compression(zip).should_add_metadata(meta).location_granularity(LG[lg]).date_granularity(DG[dg]); Meta m; o->init(m);
    for(int i=0;i<NOB;i++){ Snap& w=want[nwant++]=snap_empty(WT); shared_ptr<Node> n; shared_ptr<Way> y; shared_ptr<Relation> r; Object* b; if(WT==0){ n=make_shared<Node>(); b=n.get(); } else if(WT==1){ y=make_shared<Way>(); b=y.get(); } else { r=make_shared<Relation>(); b=r.get(); }
      w.id=sym_i64("id"); b->id((osm_object_id_t)w.id); uint32_t v=sym_u32("version"); int32_t cs=sym_i32("changeset"), uid=sym_i32("uid"); int64_t ts=sym_i64("timestamp",0,UINT32_MAX); bool vis=sym_bool("visible"); std::string us=txt("user",0,TXT); b->version((osm_version_t)v); b->changeset((osm_changeset_id_t)cs); b->uid((osm_user_id_t)uid); b->timestamp((time_t)ts); b->visible(vis); b->user(us.c_str());
      if(meta){ w.version=v; w.changeset=cs; w.uid=uid; w.ts=ts; if(hist) w.visible=vis; w.user=us; }
      w.nt=sym_choice("tags",0,NTAG); for(int k=0;k<w.nt;k++){ w.k[k]=txt("key",k?0:TXT,k?0:TXT); w.v[k]=txt("value",0,TXT); b->tags().add(w.k[k].c_str(),w.v[k].c_str()); }
      if(WT==0){ w.x=sym_i32("x"); w.y=sym_i32("y"); n->position(Position(w.x,w.y)); w.def=n->position().defined(); if(w.def) sym_reach("position"); else sym_reach("no position"); }
      else { w.np=sym_choice("parts",0,NPART); for(int k=0;k<w.np;k++){ w.ref[k]=sym_i64("ref"); if(WT==1) y->add_node((osm_object_id_t)w.ref[k]); else { w.mt[k]="nwr"[sym_choice("member type",0,2)]; w.role[k]=txt("role",0,TXT); r->add_member(w.mt[k],(osm_object_id_t)w.ref[k],w.role[k].c_str()); } } if(w.np) sym_reach("parts"); }
      if(w.nt) sym_reach("tags"); if(WT==0) o->node(n); else if(WT==1) o->way(y); else o->relation(r);
#ifdef INTER
      { Snap& c=want[nwant++]=snap_empty(1); c.id=100+i; shared_ptr<Way> cw=make_shared<Way>(); cw->id(c.id); pb_bytes=PB_MAXBLOB; o->way(cw); sym_reach("next block"); } // the way is large enough to end the block
#endif
    }
    o->final(); delete o; }
  if(dense) sym_reach("dense"); if(zip) sym_reach("compressed"); if(split) sym_reach("split");
  Cap cap; int res=pfread(cap,hist?"a.osh.pbf":"a.osm.pbf"); sym_assert(res==OKAY,"the file can be read"); sym_assert(cap.n==nwant,"every object is read once");
  for(int i=0;i<cap.n&&i<nwant;i++) snap_check(cap.s[i],want[i]); sym_assert(cap.inits==1&&cap.finals==1&&cap.open==-1,"callbacks around the objects"); sym_assert(vm_opened==vm_closed,"files are closed"); sym_assert(vz_streams==0,"compression streams are ended"); sym_observe(cap.n*100+pb_n); }
