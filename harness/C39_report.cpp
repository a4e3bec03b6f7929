//@ bounds: the debug report: nodes, ways and relations with all attributes arbitrary (times unknown or known), user names of up to two arbitrary bytes, up to two tags, up to two node references or members, with and without several versions expected or announced, meta data with and without bounds; the progress report: one to three nodes, ways and relations of any order of absent kinds, display steps of one or two, terminal and no terminal, clocks that stand still or move on by 3 microseconds or 1.7 seconds within a kind and by nothing, 0.9 seconds or an hour between the kinds
//@ reach: node,way,relation,meta,history,bounds,progress,no terminal,instant,average
//@ variant both: debug -DMODE=0
//@ variant both: progress -DMODE=1
#include "sym.h"
#include "tok.h"
#include <string.h>
#include <cstdlib>
#include <stdint.h>
#include <unistd.h>
#include <sys/time.h>
#include <string>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <vector>
#include <algorithm>
#include <stdexcept>
static std::ostringstream& vout(){ static std::ostringstream* o=new std::ostringstream; return *o; } namespace std { static std::ostringstream& verif_cout=vout(); }
static int tty; static int64_t clk[32], nclk; static int verif_isatty(int fd){ sym_assert(fd==1,"the terminal is standard output"); return tty; }
static int64_t nowv=1700000000999990ll, within; static int verif_time(timeval* t,void*){ if(!t) return -1; nowv+=within; clk[nclk++]=nowv; t->tv_sec=nowv/1000000; t->tv_usec=nowv%1000000; return 0; }
#include <osmium.hpp>
#include <osmium/handler.hpp>
#define cout verif_cout
#define isatty verif_isatty
#define gettimeofday verif_time
#include <osmium/handler/debug.hpp>
#include <osmium/handler/progress.hpp>
#undef cout
#undef isatty
#undef gettimeofday
using namespace Osmium::OSM; static const char* p;
static void lit(const char* s){ sym_assert(tok_lit(p,s),"text of the report"); } static void txt(const std::string& s){ sym_assert(!strncmp(p,s.c_str(),s.size()),"texts of the object"); p+=s.size(); } static void num(int64_t v){ int64_t x; bool k=tok_int(p,x); sym_assert(k&&x==v,"numbers of the object"); }
#if MODE==0
static int how; struct G { int64_t id; uint32_t ver; int32_t uid, cs; bool vis; int64_t ts, et; char user[3], k[2][3], v[2][3]; int n; };
static void fill(Object& o,G& g){ g.id=sym_i64("id"); g.ver=sym_u32("version"); g.uid=sym_i32("uid",-1); g.cs=sym_i32("changeset",0); g.vis=sym_flip("visible"); g.ts=how<2&&sym_flip("time")?1325376000:0; g.et=g.ts&&sym_flip("end time")?1325376001:0; sym_str("user",g.user,how?1:sym_choice("user length",0,2),1,255); o.id(g.id); o.version(g.ver); o.uid(g.uid); o.changeset(g.cs); o.visible(g.vis); o.timestamp((time_t)g.ts); o.endtime((time_t)g.et); o.user(g.user); g.n=sym_choice("tags",0,2); for(int i=0;i<g.n;i++){ sym_str("key",g.k[i],1,1,255); sym_str("value",g.v[i],i,1,255); o.tags().add(g.k[i],g.v[i]); } }
static void meta(const G& g,bool h){ lit("  id="); num(g.id); lit("\n  version="); num((int64_t)g.ver); lit("\n  uid="); num(g.uid); lit("\n  user=|"); txt(g.user); lit("|\n  changeset="); num(g.cs); lit("\n  timestamp="); lit(g.ts?"2012-01-01T00:00:00Z":""); if(h){ lit("\n  visible="); lit(g.vis?"yes":"no"); lit("\n  endtime="); lit(g.et?"2012-01-01T00:00:01Z":""); sym_reach("history"); } lit("\n  tags: (count="); num(g.n); lit(")\n"); for(int i=0;i<g.n;i++){ lit("    k=|"); txt(g.k[i]); lit("| v=|"); txt(g.v[i]); lit("|\n"); } }
#endif
extern "C" void harness_main(){
#if MODE==0
  std::ostringstream out; how=sym_choice("how",0,6); bool h=how==1||how==6, mh=how==2||how==3, std_=how==4, in=how>1, b=how==3||how==5; Osmium::Handler::Debug* d=std_?new Osmium::Handler::Debug(h):new Osmium::Handler::Debug(h,out); Meta m; m.generator("gen"); if(mh) m.has_multiple_object_versions(true); if(b) m.bounds().extend(Position((int32_t)10000000,(int32_t)20000000)).extend(Position((int32_t)30000000,(int32_t)40000000)); int t=sym_choice("type",0,2); if(in) d->init(m); h=h||(in&&mh); G g; shared_ptr<Node> n=make_shared<Node>(); shared_ptr<Way> w=make_shared<Way>(); shared_ptr<Relation> r=make_shared<Relation>(); Position pos; int64_t ref[2]; char ty[2], role[2][3]; int k=0;
  if(t==0){ fill(*n,g); pos=Position((int32_t)sym_i32("x",-1800000000,1800000000),(int32_t)sym_i32("y",-900000000,900000000)); n->position(pos); d->before_nodes(); d->node(n); d->after_nodes(); }
  if(t==1){ fill(*w,g); k=sym_choice("nodes",0,2); for(int i=0;i<k;i++){ ref[i]=sym_i64("ref"); w->add_node(ref[i]); } d->before_ways(); d->way(w); d->after_ways(); }
  if(t==2){ fill(*r,g); k=sym_choice("members",0,2); for(int i=0;i<k;i++){ ref[i]=sym_i64("ref"); ty[i]="nwr"[sym_choice("member type",0,2)]; sym_str("role",role[i],i,1,255); r->add_member(ty[i],ref[i],role[i]); } d->before_relations(); d->relation(r); d->after_relations(); }
  d->final(); std::string s=std_?vout().str():out.str(); p=s.c_str(); if(in){ lit("meta:\n  generator=gen\n"); if(b){ std::ostringstream bo; bo<<m.bounds(); lit("  bounds="); txt(bo.str()); lit("\n"); sym_reach("bounds"); } sym_reach("meta"); }
  if(t==0){ lit("before_nodes\nnode:\n"); meta(g,h); lit("  lon="); sym_assert(tok_deg(p,pos.lon()),"position of the node"); lit("\n  lat="); sym_assert(tok_deg(p,pos.lat()),"position of the node"); lit("\nafter_nodes\n"); sym_reach("node"); }
  if(t==1){ lit("before_ways\nway:\n"); meta(g,h); lit("  node_count="); num(k); lit("\n  nodes:\n"); for(int i=0;i<k;i++){ lit("    ref="); num(ref[i]); lit("\n"); } lit("after_ways\n"); sym_reach("way"); }
  if(t==2){ lit("before_relations\nrelation:\n"); meta(g,h); lit("  members: (count="); num(k); lit(")\n"); for(int i=0;i<k;i++){ char y[2]={ty[i],0}; lit("    type="); lit(y); lit(" ref="); num(ref[i]); lit(" role=|"); txt(role[i]); lit("|\n"); } lit("after_relations\n"); sym_reach("relation"); }
  lit("final\n"); sym_assert(*p==0,"nothing else is reported"); sym_observe((uint64_t)(t*100+k*10+g.n)); delete d;
#else
  tty=sym_flip("terminal"); int step=sym_choice("step",1,2), c[3]; for(int i=0;i<3;i++) c[i]=sym_choice("objects",0,2); Osmium::Handler::Progress h(step); static const int64_t WI[]={0,3,1700000}, BE[]={0,900000,3600000000ll}; within=WI[sym_choice("within",0,2)]; Meta m; h.init(m); int64_t first[3]={0,0,0};
  for(int t=0;t<3;t++){ if(t) nowv+=BE[sym_choice("between",0,2)]; for(int i=0;i<c[t];i++){ size_t at=vout().str().size(); int64_t nc=nclk; if(t==0) h.node(make_shared<Node>()); if(t==1) h.way(make_shared<Way>()); if(t==2) h.relation(make_shared<Relation>()); if(i==0){ sym_assert(nclk>nc,"the clock is read"); first[t]=clk[nc]; }
    std::string s=vout().str().substr(at); p=s.c_str(); if(!tty||(i+1)%step){ sym_assert(*p==0,"no display between the steps"); continue; } int q[3]={t>0?c[0]:i+1,t>1?c[1]:t==1?i+1:0,t==2?i+1:0}; lit("["); num(q[0]); lit("]"); if(t>0){ lit(" ["); num(q[1]); lit("]"); } if(t>1){ lit(" ["); num(q[2]); lit("]"); } lit(" ("); int64_t a; sym_assert(tok_int(p,a),"a number of objects per second"); int64_t dt=clk[nclk-1]-first[t]; sym_assert(a>=0,"averages are not negative"); if(dt==0) sym_reach("instant"); else { double e=(double)q[t]*1e6/(double)dt; sym_assert(((double)a<=e*1.000001)&((double)a>=e*0.999999-1),"objects per second since the first"); } lit(t==0?" Nodes":t==1?" Ways":" Relations"); lit(" per second)"); } }
  size_t at=vout().str().size(); h.final(); std::string all=vout().str(), s=all.substr(at); if(!tty){ sym_assert(all.empty(),"nothing is written to anything but a terminal"); sym_reach("no terminal"); sym_observe(c[0]); return; }
  sym_assert(all.compare(0,6,"\x1b[?25l")==0,"the cursor is hidden"); sym_assert(s.find("\x1b[?25h")!=std::string::npos,"the cursor is shown again"); p=s.c_str(); lit("["); num(c[0]); lit("]"); if(c[1]||c[2]){ lit(" ["); num(c[1]); lit("]"); } if(c[2]){ lit(" ["); num(c[2]); lit("]"); } sym_reach("progress"); p=s.c_str()+s.find("Average: "); lit("Average: ");
  for(int t=0;t<3;t++) if(c[t]){ int64_t a, end=clk[nclk-1]; for(int u=2;u>t;u--) if(c[u]) end=first[u]; sym_assert(tok_int(p,a),"a number of objects per second"); sym_assert(a>=0,"averages are not negative"); if(end!=first[t]){ double e=(double)c[t]*1e6/(double)(end-first[t]); sym_assert(((double)a<=e*1.000001)&((double)a>=e*0.999999-1),"objects per second while their kind was read"); sym_reach("average"); } lit(t==0?" Nodes ":t==1?" Ways ":" Relations "); } sym_observe((uint64_t)(c[0]*9+c[1]*3+c[2]));
#endif
}
