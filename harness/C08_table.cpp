//@ bounds: up to 3 recordings (4 thorough) of strings of 0-2 arbitrary bytes, written out and looked up, twice in a row with the table cleared in between; tables of 65534 to 65538 different strings of which two are arbitrary; a dense node, way or relation with 65536 different tag keys and then one with an arbitrary key, value, user name or role, written and read
//@ mock: pbf
//@ steps: 4000000000
//@ reach: repeated,distinct,big,empty,file
//@ variant quick: few -DMODE=0 -DNS=3
//@ variant thorough: few -DMODE=0 -DNS=4
//@ variant quick: many -DMODE=1 -DLOW=0 -DTOP=7
#include "pbfio.h"
#if MODE==0
static void round_(int maxlen){ Osmium::StringTable t0; }
extern "C" void harness_main(){ Osmium::StringTable t; for(int pass=0;pass<2;pass++){ int n=pass?1:sym_choice("strings",0,NS); std::string s[NS]; uint64_t id[NS];
    for(int i=0;i<n;i++){ char b[4]; sym_str("text",b,sym_choice("length",0,pass?1:2)); s[i]=b; id[i]=t.record_string(s[i]); if(s[i].empty()) sym_reach("empty"); }
    OSMPBF::StringTable* st=new OSMPBF::StringTable; t.store_stringtable(st); sym_assert(st->s_size()>0&&st->s(0).empty(),"index 0 is the empty string"); int distinct=0;
    for(int i=0;i<n;i++){ bool first=true; uint64_t m=t.map_string_id(id[i]); sym_assert(m>0&&m<(uint64_t)st->s_size(),"index is in the table and not 0"); sym_assert(st->s((int)m)==s[i],"index refers to the string"); for(int j=0;j<i;j++){ bool same=s[i]==s[j]; if(same){ sym_reach("repeated"); first=false; } else sym_reach("distinct"); sym_assert((t.map_string_id(id[j])==m)==same,"different strings have different indexes"); } if(first) distinct++; sym_observe(m); }
    sym_assert(st->s_size()==distinct+1,"every string is stored once"); delete st; t.clear(); } }
#else
static void nth(char* b,int i){ for(int k=3;k>=0;k--){ b[k]=(char)('a'+i%26); i/=26; } b[4]=0; }
struct H8 : public Osmium::Handler::Base { int n; std::string k,v,u,ro; H8():n(0){} char b[8]; void obj(const Object& o){ n++; if(n==1){ sym_assert((int)o.tags().size()==65536,"number of tags"); TagList::const_iterator i=o.tags().begin(); for(int j=0;j<65536;j++,++i) if(j==0||j==77||j==32767||j==65530||j==65531||j==65532||j==65535){ nth(b,j); sym_assert(!strcmp(b,i->key()),"key"); sym_assert(!strcmp("V",i->value()),"value"); } } else { sym_assert(o.tags().size()==1,"number of tags"); sym_assert(u==o.user(),"user name"); sym_assert(k==o.tags().begin()->key(),"key"); sym_assert(v==o.tags().begin()->value(),"value"); } }
  void node(const shared_ptr<Osmium::OSM::Node const>& o){ obj(*o); } void way(const shared_ptr<Osmium::OSM::Way const>& o){ obj(*o); } void relation(const shared_ptr<Osmium::OSM::Relation const>& o){ obj(*o); if(n==2) sym_assert(ro==o->members()[0].role(),"role"); } };
static shared_ptr<Node> mk(Node*){ shared_ptr<Node> n=make_shared<Node>(); n->position(Position(1,2)); return n; } static shared_ptr<Way> mk(Way*){ return make_shared<Way>(); } static shared_ptr<Relation> mk(Relation*){ return make_shared<Relation>(); }
static void put(Osmium::Output::PBF* w,const shared_ptr<Node>& o){ w->node(o); } static void put(Osmium::Output::PBF* w,const shared_ptr<Way>& o){ w->way(o); } static void put(Osmium::Output::PBF* w,const shared_ptr<Relation>& o){ w->relation(o); } static void role(Relation* r,const char* s){ r->add_member('n',1,s); } static void role(Object*,const char*){}
template<class T> static void through(int which){ H8 h; char b[8]; h.k="K"; h.v="zzz"; h.u="aaaaa"; h.ro="R"; std::string* ts[4]={&h.k,&h.v,&h.u,&h.ro};
  Osmium::Output::PBF* w; { F f("a.osm.pbf"); w=new Osmium::Output::PBF(f); } w->use_compression(false); Meta m; w->init(m); { shared_ptr<T> o=mk((T*)0); o->id(5); o->version(1); o->user("first"); for(int i=0;i<65536;i++){ nth(b,i); o->tags().add(b,"V"); } put(w,o); }
  sym_str("text",b,1); *ts[which]=b; { shared_ptr<T> o=mk((T*)0); o->id(6); o->user(h.u.c_str()); o->version(1); o->tags().add(h.k.c_str(),h.v.c_str()); role(o.get(),h.ro.c_str()); put(w,o); } w->final(); delete w;
  int res=pfread(h); sym_assert(res==OKAY&&h.n==2,"the file can be read"); sym_reach("file"); sym_observe(h.n); }
extern "C" void harness_main(){ int what=sym_choice("what",LOW,TOP); if(what>2){ switch(what){ case 3: through<Way>(0); break; case 4: through<Way>(2); break; case 5: through<Node>(1); break; case 6: through<Node>(2); break; case 7: through<Relation>(3); break; default: through<Relation>(2); } return; } Osmium::StringTable* t=new Osmium::StringTable; int n=65531+(what-1)*3+1; std::vector<uint32_t> id; id.reserve(n+2); char b[8]; for(int i=0;i<n;i++){ nth(b,i); id.push_back(t->record_string(b)); } sym_reach("big");
  char c[2]="+"; if(what==1) sym_str("text",c,1); uint64_t x=t->record_string(c); char d[3]; sym_str("text",d,1); d[1]='x'; d[2]=0; uint64_t y=t->record_string(d); OSMPBF::StringTable* st=new OSMPBF::StringTable; t->store_stringtable(st); sym_assert(st->s_size()==n+3,"every string is stored once");
  sym_assert(st->s((int)t->map_string_id(x))==c,"index refers to the string"); sym_assert(st->s((int)t->map_string_id(y))==d,"index refers to the string"); static const int P[]={0,1,2,3,4,77,1000,32767,32768,60000,65528}; for(int i=0;i<11;i++){ nth(b,P[i]); sym_assert(st->s((int)t->map_string_id(id[P[i]]))==b,"index refers to the string"); } nth(b,n-1); sym_assert(st->s((int)t->map_string_id(id[n-1]))==b,"index refers to the string"); sym_observe(n); }
#endif
