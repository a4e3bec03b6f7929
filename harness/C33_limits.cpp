//@ bounds: user and role names of every length in {0,1,1018..1023,1500}; member lists of up to 3 members with arbitrary type, reference and 2 byte role; node lists of up to 4 references
//@ reach: long,ok,members,nodes
#include "sym.h"
#include <string.h>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
using namespace Osmium::OSM;
static char big[1600];
extern "C" void harness_main(){
  static const int LEN[]={0,1,1018,1019,1020,1021,1022,1023,1500}; int which=sym_choice("what",0,3);
  if(which<2){ int l=LEN[sym_choice("len",0,8)]; memset(big,'x',(size_t)l); big[l]=0; if(l) big[l-1]=(char)sym_u8("last",1);
    bool must=l>=1022, may=l<=1020;
    if(which==0){ Node n; n.user("before"); n.id((osm_object_id_t)7); bool t=false; try{ n.user(big); }catch(std::length_error&){ t=true; }
      if(must){ sym_assert(t,"too long a user name is rejected"); sym_reach("long"); } if(may){ sym_assert(!t,"a user name of supported length is accepted"); sym_reach("ok"); }
      sym_assert(!strcmp(n.user(),t?"before":big),"rejected name leaves the old one, accepted one is stored whole"); sym_assert(n.id()==7,"id untouched");
      Way w; w.user("b"); bool t2=false; try{ w.set_attribute("user",big); }catch(std::length_error&){ t2=true; } sym_assert(t==t2&&!strcmp(w.user(),t2?"b":big),"same through set_attribute");
    } else { Relation r; r.add_member('n',5,"first"); bool t=false; try{ r.add_member('w',6,big); }catch(std::length_error&){ t=true; }
      if(must) sym_assert(t,"too long a role is rejected"); if(may) sym_assert(!t,"a role of supported length is accepted");
      sym_assert(r.members().size()==(t?1u:2u),"a rejected member is not added"); sym_assert(r.members()[0].ref()==5&&!strcmp(r.members()[0].role(),"first"),"earlier member untouched"); if(!t) sym_assert(!strcmp(r.members()[1].role(),big)&&r.members()[1].ref()==6&&r.members()[1].type()=='w',"member stored");
      RelationMember m; m.role("old"); bool t3=false; try{ m.role(big); }catch(std::length_error&){ t3=true; } sym_assert(t==t3&&!strcmp(m.role(),t3?"old":big),"role setter"); }
  } else if(which==2){ sym_reach("members"); int n=sym_choice("n",0,3); Relation r; int64_t ref[3]; char ty[3]; char role[3][3]; for(int i=0;i<n;i++){ ref[i]=sym_i64("ref"); ty[i]=(char)sym_u8("type"); sym_str("role",role[i],2); r.add_member(ty[i],ref[i],role[i]); }
    sym_assert(r.members().size()==(uint32_t)n,"all members kept"); int i=0; for(RelationMemberList::const_iterator it=r.members().begin();it!=r.members().end();++it,++i){ sym_assert(it->ref()==ref[i]&&it->type()==ty[i],"member order and reference"); sym_assert(!strcmp(it->role(),role[i]),"member role"); sym_assert(r.get_member(i)==&*it,"get_member"); const char* tn=it->type_name(); if(it->type()=='n') sym_assert(!strcmp(tn,"node"),"type name"); else if(it->type()=='w') sym_assert(!strcmp(tn,"way"),"type name"); else if(it->type()=='r') sym_assert(!strcmp(tn,"relation"),"type name"); else sym_assert(!strcmp(tn,"unknown"),"type name"); }
    sym_assert(r.get_member(n)==0,"no member past the end"); Relation c(r); sym_assert(c.members().size()==(uint32_t)n,"copy keeps members"); if(n) sym_assert(c.members()[0].ref()==ref[0]&&!strcmp(c.members()[n-1].role(),role[n-1]),"copy keeps members");
  } else { sym_reach("nodes"); int n=sym_choice("n",0,4); Way w; int64_t ref[4]; for(int i=0;i<n;i++){ ref[i]=sym_i64("ref"); int k=sym_choice("how",0,2); if(k==0) w.add_node(ref[i]); else if(k==1) w.nodes().add(WayNode(ref[i])); else w.nodes().push_back(ref[i]); }
    sym_assert(w.nodes().size()==(uint32_t)n&&w.nodes().empty()==(n==0),"all references kept"); for(int i=0;i<n;i++){ sym_assert(w.nodes()[i].ref()==ref[i]&&w.get_node_id(i)==ref[i],"reference order"); sym_assert(!w.nodes()[i].has_position(),"no position yet"); }
    if(n){ sym_assert(w.get_first_node_id()==ref[0]&&w.get_last_node_id()==ref[n-1],"first and last"); sym_assert(w.is_closed()==(ref[0]==ref[n-1]),"closed exactly when the ends are the same node"); }
    int k=n; for(WayNodeList::const_reverse_iterator it=w.nodes().rbegin();it!=w.nodes().rend();++it) sym_assert(it->ref()==ref[--k],"reverse iteration"); sym_assert(k==0,"reverse iteration covers all"); Way c(w); sym_assert(c.nodes().size()==(uint32_t)n,"copy"); for(int i=0;i<n;i++) sym_assert(c.nodes()[i].ref()==ref[i],"copy"); }
}
