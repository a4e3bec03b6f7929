//@ bounds: bounding boxes made from one or two arbitrary positions (all 2^128 pairs), or none, generator names of 0-3 arbitrary bytes, all writer options; headers with up to 2 (3 thorough) required features, each a known one, a known one with one byte exchanged for an arbitrary one, shortened or extended, or any text of 0-2 bytes, for all expected file kinds; boxes with any values the library can represent
//@ mock: pbf
//@ reach: bounds,no bounds,accepted,unknown,wrong kind
//@ variant quick: rt -DMODE=0
//@ variant quick: feat -DMODE=1 -DNF=2
//@ variant thorough: feat -DMODE=1 -DNF=3
//@ variant quick: box -DMODE=2
#include "pbfio.h"
using namespace OSMPBF;
static void samebounds(Bounds& a,Bounds& b){ sym_assert(a.defined()==b.defined(),"bounding box is there"); sym_assert(a.bottom_left().x()==b.bottom_left().x()&&a.bottom_left().y()==b.bottom_left().y(),"lower left corner"); sym_assert(a.top_right().x()==b.top_right().x()&&a.top_right().y()==b.top_right().y(),"upper right corner"); }
#if MODE==0
extern "C" void harness_main(){ bool hist=sym_flip("history"), dense=sym_flip("dense"), zip=sym_flip("compress"), meta=sym_flip("metadata"), some=sym_flip("object"); Meta m; int k=sym_choice("corners",0,2); for(int i=0;i<k;i++){ int32_t x=sym_i32("x"), y=sym_i32("y"); m.bounds().extend(Position(x,y)); } char gen[4]; bool named=sym_flip("named"); int gl=sym_choice("generator length",0,named?3:0); sym_str("generator",gen,gl);
  if(m.bounds().defined()) sym_reach("bounds"); else sym_reach("no bounds");
  { F f(hist?"a.osh.pbf":"a.osm.pbf"); typedef Osmium::Output::PBF O; O* o=new O(f); o->use_dense_format(dense).use_compression(zip).should_add_metadata(meta); if(named) o->set_generator(gen); Meta n=m; o->init(n); if(some){ shared_ptr<Osmium::OSM::Node> nn=make_shared<Osmium::OSM::Node>(); nn->id(1); nn->version(1); nn->position(Position(1,1)); o->node(nn); } o->final(); delete o; }
  Cap cap; int r=pfread(cap,hist?"a.osh.pbf":"a.osm.pbf"); sym_assert(r==OKAY&&cap.inits==1&&cap.n==(some?1:0),"the file can be read"); samebounds(cap.meta.bounds(),m.bounds()); sym_assert(named?cap.meta.generator()==gen:!cap.meta.generator().empty(),"generator"); sym_assert(cap.meta.has_multiple_object_versions()==hist,"kind of file"); sym_observe(cap.n); }
#elif MODE==1
extern "C" void harness_main(){ static const char* K[3]={"OsmSchema-V0.6","DenseNodes","HistoricalInformation"}; bool bad=false, hist=false; HeaderBlock* h=new HeaderBlock; int n=sym_choice("features",0,NF); for(int i=0;i<n;i++){ std::string s; int w=sym_choice("feature",0,3); if(w<3){ s=K[w]; switch(sym_choice("change",0,i==0?3:0)){ case 1: { int at=sym_choice("at",0,2)*((int)s.size()-1)/2; char c[2]; sym_str("byte",c,1); s[at]=c[0]; break; } case 2: s.resize(s.size()-1); break; case 3: { char c[2]; sym_str("byte",c,1); s+=c; break; } default: break; } } else { char c[4]; sym_str("text",c,sym_choice("length",0,2)); s=c; }
    bool known=false; for(int k=0;k<3;k++) if(s==K[k]){ known=true; if(k==2) hist=true; } if(!known) bad=true; h->add_required_features(s); }
  if(sym_flip("optional")) h->add_optional_features("Sort.Type_then_ID"); if(sym_flip("source")) h->set_source("x"); pfblob("OSMHeader",*h,false); delete h; PrimitiveBlock* b=new PrimitiveBlock; b->mutable_stringtable()->add_s(""); OSMPBF::Node* o=b->add_primitivegroup()->add_nodes(); o->set_id(7); o->set_lat(1); o->set_lon(2); pfblob("OSMData",*b,false); delete b;
  static const char* NAME[3]={"a.osm.pbf","a.osh.pbf","a.osc"}; int kind=sym_choice("kind",0,2); bool wrong=(kind==0&&hist)||(kind==1&&!hist); Cap cap; int r=pfread(cap,NAME[kind]);
  if(bad||wrong){ sym_assert(cap.n==0,"nothing is delivered from a file that is rejected"); if(bad&&!wrong) sym_assert(r==RUNTIME,"a file that needs an unknown feature is rejected"); else if(!bad) sym_assert(r==WRONGTYPE,"a file of the wrong kind is rejected"); else sym_assert(r==RUNTIME||r==WRONGTYPE,"the file is rejected"); if(bad) sym_reach("unknown"); if(wrong) sym_reach("wrong kind"); }
  else { sym_assert(r==OKAY&&cap.n==1&&cap.s[0].id==7,"a file that can be read is accepted"); sym_reach("accepted"); }
  sym_assert(vm_opened==vm_closed,"the file is closed"); sym_observe(r); }
#else
extern "C" void harness_main(){ HeaderBlock* h=new HeaderBlock; int32_t x1=sym_i32("left",-1800000000,1800000000), x2=sym_i32("right",-1800000000,1800000000), y1=sym_i32("bottom",-900000000,900000000), y2=sym_i32("top",-900000000,900000000); HeaderBBox* b=h->mutable_bbox(); b->set_left(100*(int64_t)x1); b->set_right(100*(int64_t)x2); b->set_bottom(100*(int64_t)y1); b->set_top(100*(int64_t)y2); bool gen=sym_flip("named"); if(gen) h->set_writingprogram("gen"); pfblob("OSMHeader",*h,false); delete h; Bounds w; w.extend(Position(x1,y1)).extend(Position(x2,y2)); Cap cap; int r=pfread(cap); sym_assert(r==OKAY&&cap.inits==1,"the file can be read"); samebounds(cap.meta.bounds(),w); sym_assert(cap.meta.generator()==(gen?"gen":""),"generator"); sym_observe(r); }
#endif
