//@ bounds: attribute names: the seven documented ones and every other name of up to 10 arbitrary bytes; numeric values with optional sign and 1, 2, 9 or (ids) 18 arbitrary digits; user names with up to 3 arbitrary bytes
//@ reach: known,unknown,num,user,visible,neg
#include "sym.h"
#include <string.h>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
using namespace Osmium::OSM;
static const char* NAMES[7]={"id","version","changeset","timestamp","uid","user","visible"};
template<class T> static void go(){
  T o; int64_t id0=sym_i64("id"); uint32_t ver0=sym_u32("ver"); int32_t cs0=sym_i32("cs"),uid0=sym_i32("uid"); int64_t ts0=sym_i64("ts"); bool vis0=sym_bool("vis");
  o.id(id0); o.version(ver0); o.changeset(cs0); o.uid(uid0); o.timestamp((time_t)ts0); o.visible(vis0); o.user("old"); o.endtime(4711);
  int w=sym_choice("attr",0,7); char name[12],val[24]; strcpy(val,"x");
  uint64_t unum=0; int64_t num=0;
  if(w<7){ sym_reach("known"); strcpy(name,NAMES[w]);
    if(w==5){ int l=sym_choice("ul",0,3); sym_str("u",val,l); sym_reach("user"); }
    else if(w==6){ sym_reach("visible"); int k=sym_choice("vk",0,1); strcpy(val,k?"true":"false"); }
    else if(w==3){ strcpy(val,"2001-02-03T04:05:06Z"); }
    else { static const int LEN[4]={1,2,9,18}; int l=LEN[sym_choice("nl",0,w==0?3:2)]; bool neg=w!=1&&sym_flip("neg"); int p=0; if(neg){ val[p++]='-'; sym_reach("neg"); } for(int i=0;i<l;i++){ char c=(char)sym_u8("d",'0','9'); val[p++]=c; unum=unum*10+(uint64_t)(c-48); } val[p]=0; num=(int64_t)(neg?0-unum:unum); sym_reach("num"); }
  } else { int l=sym_choice("len",0,10); sym_str("n",name,l); for(int i=0;i<7;i++) if((int)strlen(NAMES[i])==l){ bool same=true; for(int j=0;j<l;j++) same=same&(name[j]==NAMES[i][j]); sym_assume(!same); } sym_reach("unknown"); strcpy(val,"5"); }
  o.set_attribute(name,val);
  sym_assert(o.id()==(w==0?num:id0),"id"); sym_assert(o.version()==(w==1?(uint32_t)num:ver0),"version"); sym_assert(o.changeset()==(w==2?(int32_t)num:cs0),"changeset");
  sym_assert(o.timestamp()==(w==3?981173106:ts0),"timestamp"); sym_assert(o.uid()==(w==4?(int32_t)num:uid0),"uid"); sym_assert(!strcmp(o.user(),w==5?val:"old"),"user"); sym_assert(o.visible()==(w==6?val[0]=='t':vis0),"visible"); sym_assert(o.endtime()==4711,"end time untouched");
  sym_assert(o.user_is_anonymous()==(o.uid()==-1),"anonymous exactly for user id -1"); sym_assert(o.tags().empty(),"no tags appear");
  T c(o); sym_assert(c.id()==o.id()&&c.version()==o.version()&&c.changeset()==o.changeset()&&c.timestamp()==o.timestamp()&&c.uid()==o.uid()&&c.visible()==o.visible()&&!strcmp(c.user(),o.user())&&c.endtime()==4711,"a copy has the same attributes");
  sym_observe(o.id()); sym_observe(o.version());
}
extern "C" void harness_main(){ switch(sym_choice("type",0,2)){ case 0: go<Node>(); break; case 1: go<Way>(); break; default: go<Relation>(); } 
}
