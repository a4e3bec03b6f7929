//@ bounds: lists of up to 3 tags, keys of 0-3 arbitrary non-NUL bytes, looked up by an arbitrary key of 0-3 bytes
//@ reach: found,missing,clear
#include "sym.h"
#include <osmium/osm/tag_list.hpp>
#include <osmium/osm/node.hpp>
using namespace Osmium::OSM;
extern "C" void harness_main(){
  TagList tl; int n=sym_choice("n",0,3); char k[3][4],v[3][3]; int kl[3]; sym_assert(tl.empty()&&tl.size()==0,"new list is empty");
  for(int i=0;i<n;i++){ kl[i]=sym_choice("klen",0,i?1:3); sym_str("key",k[i],kl[i]); v[i][0]=(char)('a'+i); v[i][1]=(char)sym_u8("val",1); v[i][2]=0; tl.add(k[i],v[i]); sym_assert(tl.size()==i+1&&!tl.empty(),"size grows by one"); }
  for(int i=0;i<n;i++){ sym_assert(!strcmp(tl[i].key(),k[i])&&!strcmp(tl[i].value(),v[i]),"tags keep their order and content"); }
  char q[4]; int ql=sym_choice("qlen",0,3); sym_str("q",q,ql);
  int want=-1; for(int i=n-1;i>=0;i--) if(kl[i]==ql){ bool e=true; for(int j=0;j<ql;j++) e=e&(k[i][j]==q[j]); if(e) want=i; }
  const char* r=tl.get_value_by_key(q);
  if(want<0){ sym_reach("missing"); sym_assert(r==0,"missing key gives the default"); }
  else { sym_reach("found"); sym_assert(r!=0&&!strcmp(r,v[want]),"lookup returns the value of the key"); }
  int c=0; for(TagList::const_iterator it=tl.begin();it!=tl.end();++it) c++; sym_assert(c==n,"iteration covers the list");
  if(n>1){ Tag a(k[0],v[0]), b(k[1],v[1]); Tag a2(k[0],v[0]); sym_assert(a==a2,"equal tags"); sym_assert(!(a==b)&&(a!=b),"tags with different values differ"); }
  Node nd; nd.tags(tl); sym_assert(nd.tags().size()==n,"object takes over the tag list"); Node cp(nd); sym_assert(cp.tags().size()==n,"copy has the tags");
  tl.clear(); sym_assert(tl.empty()&&tl.get_value_by_key(q)==0,"cleared list is empty"); sym_assert(nd.tags().size()==n,"clearing the source leaves the object's tags"); if(n) sym_reach("clear");
}
