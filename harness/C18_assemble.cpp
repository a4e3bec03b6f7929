//@ bounds: 1 relation with up to 3 or 2 relations with up to 2 members each (types node, way, relation or unknown; arbitrary 64 bit references, each member kept or not), a stream of up to 2 objects (3 thorough) of arbitrary types and ids (possibly several versions of one object), assemblers interested in nodes+ways+relations, ways only, or nodes+relations
//@ reach: complete,incomplete,attached,notmember,unwanted,repeat
//@ variant quick: types -DVREL=1 -DVMEM=2 -DVOBJ=2 -DWN=1 -DWW=1 -DWR=1 -DFULL=1
//@ variant quick: shared -DVREL=2 -DVMEM=1 -DVOBJ=2 -DWN=1 -DWW=0 -DWR=1 -DFULL=1
//@ variant quick: ways -DVREL=2 -DVMEM=2 -DVOBJ=2 -DWN=0 -DWW=1 -DWR=0 -DFULL=0
//@ variant quick: three -DVREL=1 -DVMEM=3 -DVOBJ=3 -DWN=0 -DWW=1 -DWR=0 -DFULL=0
//@ variant thorough: types -DVREL=1 -DVMEM=2 -DVOBJ=3 -DWN=1 -DWW=1 -DWR=1 -DFULL=1
//@ variant thorough: shared -DVREL=2 -DVMEM=1 -DVOBJ=3 -DWN=1 -DWW=0 -DWR=1 -DFULL=1
//@ variant thorough: ways -DVREL=2 -DVMEM=2 -DVOBJ=3 -DWN=0 -DWW=1 -DWR=0 -DFULL=0
//@ variant thorough: three -DVREL=1 -DVMEM=3 -DVOBJ=4 -DWN=0 -DWW=1 -DWR=0 -DFULL=0
#include "sym.h"
#include <osmium/relations/assembler.hpp>
using namespace Osmium::OSM;
static const char TY[4]={'n','w','r','x'};
static int nrel; static int nmem[VREL]; static int mty[VREL][VMEM]; static int64_t mref[VREL][VMEM]; static bool keep[VREL][VMEM];
static int no; static int oty[VOBJ]; static int64_t oid[VOBJ]; static const void* optr[VOBJ];
static int step=-1; static int done[VREL]; static int lonely[VOBJ];
static bool wanted(int t){ return t==0?WN:t==1?WW:t==2?WR:false; }
static bool matches(int o,int r,int m){ return (oty[o]==mty[r][m])&keep[r][m]&(oid[o]==mref[r][m]); }
struct A : public Osmium::Relations::Assembler<A,Osmium::Relations::RelationInfo,WN,WW,WR> {
  int avail; A():avail(0){}
  bool keep_member(Osmium::Relations::RelationInfo& ri,const RelationMember& m){ int r=(int)ri.relation()->id(); int k=-1; for(int i=0;i<nmem[r];i++) if(&ri.relation()->members()[i]==&m) k=i; sym_assert(k>=0,"member belongs to the relation"); return k<0?false:keep[r][k]; }
  void node_not_in_any_relation(const shared_ptr<Node const>&){ lonely[step]++; }
  void way_not_in_any_relation(const shared_ptr<Way const>&){ lonely[step]++; }
  void relation_not_in_any_relation(const shared_ptr<Relation const>&){ lonely[step]++; }
  void all_members_available(){ avail++; }
  void complete_relation(Osmium::Relations::RelationInfo& ri){ int r=(int)ri.relation()->id(); sym_assert(r>=0&&r<nrel&&done[r]==0,"a relation is completed once"); done[r]++; sym_reach("complete");
    sym_assert((int)ri.members().size()==nmem[r],"one slot per member");
    for(int m=0;m<nmem[r];m++){ const shared_ptr<Object const>& o=ri.members()[m]; bool want=keep[r][m]&&wanted(mty[r][m]);
      if(want){ sym_assert(!!o,"every wanted member is delivered"); if(o){ sym_reach("attached"); sym_assert(o->type()==mty[r][m]&&o->id()==mref[r][m],"the member at a position is the object the relation names there"); bool seen=false; for(int i=0;i<=step;i++) seen=seen||(const void*)&*o==optr[i]; sym_assert(seen,"the member is an object of the input"); } }
      else { sym_assert(!o,"members that are not wanted are not attached"); } }
    bool now=false; for(int m=0;m<nmem[r];m++) if(keep[r][m]&&wanted(mty[r][m])) now=now|matches(step,r,m); sym_assert(now,"completed when the last wanted member is seen");
    sym_observe((uint64_t)r*100+step);
  }
};
extern "C" void harness_main(){
  A a; A::HandlerPass1& p1=a.handler_pass1(); Meta meta; p1.init(meta); p1.before_relations(); bool any=false;
  nrel=VREL;
  for(int r=0;r<nrel;r++){ nmem[r]=(FULL||r)?sym_choice("members",0,VMEM):VMEM; shared_ptr<Relation> rel=make_shared<Relation>(); rel->id((osm_object_id_t)r); sym_rest(*rel);
    for(int m=0;m<nmem[r];m++){ mty[r][m]=FULL?sym_choice("mtype",0,m?2:3):1; mref[r][m]=sym_i64("mref"); keep[r][m]=true; if(FULL){ if(m==0) keep[r][m]=sym_flip("keep"); } else if(r==0&&m==0){ int k=sym_choice("first",0,2); if(k==1) keep[r][m]=false; if(k==2) mty[r][m]=0; } rel->add_member(TY[mty[r][m]],mref[r][m],"role"); if(!wanted(mty[r][m])) sym_reach("unwanted"); }
    p1.relation(rel); }
  bool stop=false; try { p1.after_relations(); } catch(Osmium::Handler::StopReading&){ stop=true; } sym_assert(stop,"first pass stops after the relations");
  A::HandlerPass2& p2=a.handler_pass2(); p2.init(meta); no=VOBJ; int cur=-1;
  for(int i=0;i<no;i++){ int t=FULL?sym_choice("otype",cur<0?0:cur,2):(i?1:sym_choice("otype",0,1)); oty[i]=t; oid[i]=sym_i64("oid"); step=i;
    if(t!=cur){ if(cur==0) p2.after_nodes(); if(cur==1) p2.after_ways(); if(t==0) p2.before_nodes(); if(t==1) p2.before_ways(); if(t==2) p2.before_relations(); cur=t; }
    if(t==0){ shared_ptr<Node> o=make_shared<Node>(); o->id(oid[i]); sym_rest(*o); optr[i]=(Object*)&*o; p2.node(o); }
    else if(t==1){ shared_ptr<Way> o=make_shared<Way>(); o->id(oid[i]); sym_rest(*o); optr[i]=(Object*)&*o; p2.way(o); }
    else { shared_ptr<Relation> o=make_shared<Relation>(); o->id(oid[i]); sym_rest(*o); optr[i]=(Object*)&*o; p2.relation(o); }
    bool mem=false; for(int r=0;r<nrel;r++) for(int m=0;m<nmem[r];m++) mem=mem|matches(i,r,m);
    if(wanted(t)){ sym_assert((lonely[i]==1)==!mem&&lonely[i]<=1,"objects that belong to no relation are reported as such, once"); if(lonely[i]) sym_reach("notmember"); } else sym_assert(lonely[i]==0,"objects of other types are not reported");
    if(i==1&&oty[0]==t&&oid[0]==oid[1]) sym_reach("repeat");
    // which relations must be complete now
    for(int r=0;r<nrel;r++){ bool all=true,some=false; for(int m=0;m<nmem[r];m++) if(keep[r][m]&&wanted(mty[r][m])){ some=true; bool s=false; for(int j=0;j<=i;j++) s=s|matches(j,r,m); all=all&s; } bool due=some&&all; sym_assert((done[r]==1)==due,"complete exactly when every wanted member was seen"); if(!done[r]) sym_reach("incomplete"); }
  }
  step=no; if(cur==0) p2.after_nodes(); if(cur==1) p2.after_ways(); if(cur==2) p2.after_relations(); p2.final();
}
