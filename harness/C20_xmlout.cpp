//@ bounds: files with up to 2 objects of arbitrary types and metadata (all ids, versions, changesets, user ids, coordinates; three timestamps), up to 2 tags, node references or members each with texts of up to 2 arbitrary bytes, and sequences of 3 objects with arbitrary versions and visibility; plain, history and change files; header with or without bounds; a failing writer call at any point and failing output of buffered data
//@ mock: xmlw
//@ reach: create,modify,delete,member,nd,tag,anonymous,bounds,failed
//@ variant quick: meta -DNOB=1 -DMETA=1 -DPARTS=0 -DSECT=0 -DFAIL=0
//@ variant quick: parts -DNOB=1 -DMETA=0 -DPARTS=2 -DSECT=0 -DFAIL=0
//@ variant quick: two -DNOB=2 -DMETA=0 -DPARTS=1 -DSECT=0 -DFAIL=0
//@ variant quick: sections -DNOB=3 -DMETA=0 -DPARTS=0 -DSECT=1 -DFAIL=0
//@ variant quick: fail -DNOB=2 -DMETA=0 -DPARTS=0 -DSECT=2 -DFAIL=1
//@ variant thorough: meta -DNOB=1 -DMETA=1 -DPARTS=1 -DSECT=0 -DFAIL=0
//@ variant thorough: parts -DNOB=1 -DMETA=0 -DPARTS=3 -DSECT=0 -DFAIL=0
//@ variant thorough: two -DNOB=2 -DMETA=0 -DPARTS=2 -DSECT=0 -DFAIL=0
//@ variant thorough: sections -DNOB=4 -DMETA=0 -DPARTS=0 -DSECT=1 -DFAIL=0
//@ variant thorough: fail -DNOB=3 -DMETA=0 -DPARTS=0 -DSECT=2 -DFAIL=1
#include "sym.h"
#include "tok.h"
#include "vmsys.h"
static long vm_read(int,void*,unsigned long){ return 0; } static long vm_write(int,const void*,unsigned long n){ return (long)n; }
#include <osmium.hpp>
#include <osmium/output/xml.hpp>
using namespace Osmium::OSM; typedef Osmium::OSMFile F;
static const time_t TS[]={0,1222222222,4102444799};
static std::string attr(int e,const char* n){ for(int i=0;i<vx.el[e].na;i++) if(vx.el[e].an[i]==n) return vx.el[e].av[i]; return "\1absent"; }
static bool has(int e,const char* n){ for(int i=0;i<vx.el[e].na;i++) if(vx.el[e].an[i]==n) return true; return false; }
static void num(int e,const char* n,int64_t v){ std::string s=attr(e,n); const char* p=s.c_str(); int64_t x=0; bool ok=tok_int(p,x); sym_assert(ok&&*p==0&&x==v,"attribute holds the number"); }
static void deg(int e,const char* n,double v){ std::string s=attr(e,n); const char* p=s.c_str(); bool ok=tok_deg(p,v); sym_assert(ok&&*p==0,"attribute holds the coordinate"); }
static void str(int e,const char* n,const std::string& v){ sym_assert(attr(e,n)==v,"attribute holds the text"); }
struct Ob { int t; shared_ptr<Node> n; shared_ptr<Way> w; shared_ptr<Relation> r; Object* o; int el; };
static Ob ob[5]; static int no; static int ftype;
static void text(std::string& s,int len){ char b[4]; sym_str("text",b,len); s=b; }
static void gen(Ob& b){ b.t=sym_choice("type",0,2); if(b.t==0){ b.n=make_shared<Node>(); b.o=b.n.get(); } else if(b.t==1){ b.w=make_shared<Way>(); b.o=b.w.get(); } else { b.r=make_shared<Relation>(); b.o=b.r.get(); }
  Object& o=*b.o; o.id((osm_object_id_t)sym_i64("id")); o.visible(SECT==2?true:sym_flip("visible")); if(SECT||META) o.version(sym_flip("first")?1:sym_u32("version",0)); else o.version(sym_u32("version",2));
  if(META){ o.changeset(sym_i32("changeset")); o.uid(sym_i32("uid")); o.timestamp(TS[sym_choice("timestamp",0,2)]); std::string u; text(u,sym_choice("user",0,1)); o.user(u.c_str());
    if(b.t==0&&sym_flip("position")){ Position p; p.lon(sym_i32("lon",-1800000000,1800000000)/10000000.0); p.lat(sym_i32("lat",-900000000,900000000)/10000000.0); b.n->position(p); } }
  else if(!SECT){ o.changeset(17); o.uid(5); o.user("x"); o.timestamp(TS[1]); }
  if(PARTS){ int nt=sym_choice("tags",0,PARTS); for(int i=0;i<nt;i++){ std::string k,v; text(k,1); text(v,i+1); o.tags().add(k.c_str(),v.c_str()); }
    if(b.t!=0){ int c=sym_choice("parts",0,PARTS); if(b.t==1) for(int i=0;i<c;i++) b.w->add_node((osm_object_id_t)sym_i64("ref"));
      if(b.t==2) for(int i=0;i<c;i++){ std::string r; text(r,i+1); b.r->add_member("nwr"[sym_choice("mtype",0,2)],(osm_object_id_t)sym_i64("mref"),r.c_str()); } } }
  }
static const char* EN[]={"node","way","relation"};
static void check(Ob& b){ int e=b.el; const Object& o=*b.o; int want=1; sym_assert(vx.el[e].name==EN[b.t],"element of the object type");
  num(e,"id",o.id()); if(o.version()){ num(e,"version",o.version()); want++; } if(o.timestamp()){ str(e,"timestamp",o.timestamp_as_string()); want++; } if(o.changeset()){ num(e,"changeset",o.changeset()); want++; }
  if(o.uid()>0){ num(e,"uid",o.uid()); str(e,"user",o.user()); want+=2; } else sym_reach("anonymous");
  if(ftype==1){ str(e,"visible",o.visible()?"true":"false"); want++; }
  if(b.t==0&&b.n->position().defined()){ deg(e,"lon",b.n->position().lon()); deg(e,"lat",b.n->position().lat()); want+=2; }
  sym_assert(vx.el[e].na==want,"no other attributes"); int parts=0,tags=0;
  for(int k=0;k<vx.n;k++) if(vx.el[k].parent==e){ sym_assert(vx.el[k].kids==0,"parts have no children");
    if(vx.el[k].name=="nd"){ sym_reach("nd"); sym_assert(b.t==1&&parts<(int)b.w->nodes().size()&&vx.el[k].na==1,"as many node references as in the way"); num(k,"ref",b.w->nodes()[parts++].ref()); }
    else if(vx.el[k].name=="member"){ sym_reach("member"); sym_assert(b.t==2&&parts<(int)b.r->members().size()&&vx.el[k].na==3,"as many members as in the relation"); const RelationMember& m=b.r->members()[parts++]; num(k,"ref",m.ref()); str(k,"type",m.type()=='n'?"node":m.type()=='w'?"way":"relation"); str(k,"role",m.role()); }
    else { sym_assert(vx.el[k].name=="tag"&&tags<(int)o.tags().size()&&vx.el[k].na==2,"as many tags as in the object"); sym_reach("tag"); TagList::const_iterator it=o.tags().begin(); for(int i=0;i<tags;i++) ++it; tags++; str(k,"k",it->key()); str(k,"v",it->value()); } }
  sym_assert(tags==(int)o.tags().size(),"all tags written"); sym_assert(parts==(b.t==1?(int)b.w->nodes().size():b.t==2?(int)b.r->members().size():0),"all parts written"); }
extern "C" void harness_main(){
  ftype=SECT==2?(sym_flip("change")?2:0):sym_choice("filetype",0,2); static const char* NAME[]={"a.osm","a.osh","a.osc"}; F f(NAME[ftype]); Meta meta; bool bounds=META&&sym_flip("bounds");
  if(bounds){ meta.bounds().extend(Position(1.25,2.5)).extend(Position(-3.5,4.75)); sym_reach("bounds"); }
  no=NOB; for(int i=0;i<no;i++) gen(ob[i]);
  if(FAIL){ vx.dead=sym_flip("output fails"); vx.failat=sym_choice("failing call",-1,21); }
  bool thrown=false;
  { bool made=false; try { Osmium::Output::XML x(f); made=true; x.init(meta); for(int i=0;i<no;i++){ ob[i].el=vx.n; if(ob[i].t==0) x.node(ob[i].n); else if(ob[i].t==1) x.way(ob[i].w); else x.relation(ob[i].r); while(ob[i].el<vx.n&&vx.el[ob[i].el].name!=EN[ob[i].t]) ob[i].el++; } x.final(); } catch(const Osmium::Output::XMLWriteError&){ thrown=true; sym_reach("failed"); } }
  sym_assert(!vx.misuse,"the writer is used correctly");
  if(FAIL) sym_assert(thrown==(vx.reported||vx.pending),"every failure of the writer is reported");
  else { sym_assert(!thrown,"nothing fails"); sym_assert(vx.started&&vx.freed&&!vx.pending&&vm_opened==1&&vm_closed==1,"document begun, written and closed once"); }
  if(!thrown){
    sym_assert(vx.n>0&&vx.el[0].name==(ftype==2?"osmChange":"osm"),"root element"); str(0,"version","0.6"); sym_assert(has(0,"generator"),"generator");
    for(int k=0;k<vx.n;k++) sym_assert(vx.el[k].closed,"every element is closed");
    int cnt=0; for(int k=1;k<vx.n;k++){ const std::string& n=vx.el[k].name; if(n=="node"||n=="way"||n=="relation"){ sym_assert(cnt<no&&ob[cnt].el==k,"one element per object, in order"); int p=vx.el[k].parent;
        if(ftype==2){ const Object& o=*ob[cnt].o; const char* sec=!o.visible()?"delete":o.version()==1?"create":"modify"; sym_assert(p>0&&vx.el[p].name==sec&&vx.el[p].parent==0&&vx.el[p].na==0,"object in the section of its state"); if(!o.visible()) sym_reach("delete"); else if(o.version()==1) sym_reach("create"); else sym_reach("modify"); }
        else sym_assert(p==0,"no sections in plain files"); check(ob[cnt]); cnt++; }
      else if(n=="create"||n=="modify"||n=="delete") sym_assert(ftype==2&&vx.el[k].parent==0&&vx.el[k].kids>0,"sections only in change files"); 
      else if(n=="bounds"){ sym_assert(bounds&&vx.el[k].parent==0&&vx.el[k].na==4,"bounds only if defined"); deg(k,"minlon",-3.5); deg(k,"minlat",2.5); deg(k,"maxlon",1.25); deg(k,"maxlat",4.75); }
      else sym_assert(vx.el[k].parent>0,"nothing else at top level"); }
    sym_assert(cnt==no,"every object is written"); if(bounds){ int c=0; for(int k=1;k<vx.n;k++) c+=vx.el[k].name=="bounds"; sym_assert(c==1,"bounds written once"); }
  }
  sym_observe(vx.n*10+thrown);
}
