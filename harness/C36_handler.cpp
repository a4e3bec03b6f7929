//@ bounds: scripts that define all callbacks, none, all but one or only one of the twelve, with up to two included scripts; streams with up to one node, way, relation and area of any id, with and without the brackets around them; V8 is a stand-in in which the harness is the script
//@ reach: all,none,but one,one,object,included
//@ mock: v8 geos shp
#include "sym.h"
#include <string.h>
#include <cstdlib>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <v8.h>
struct Text { std::string s; }; static inline std::ostream& operator<<(std::ostream& o,const Text* t){ return o<<t->s; }
namespace std { struct verif_ifstream { enum { in }; Text t; verif_ifstream(const char* n,int){ t.s=std::string("script ")+n; } bool fail() const { return false; } const Text* rdbuf() const { return &t; } }; struct verif_ofstream : public std::ostringstream { verif_ofstream(){} verif_ofstream(const char*){} void open(const char*){} void close(){} bool fail() const { return false; } }; }
#define ifstream verif_ifstream
#define ofstream verif_ofstream
#include <osmium.hpp>
#include <osmium/javascript/handler.hpp>
#undef ifstream
#undef ofstream
v8::Persistent<v8::Context> global_context; bool debug=false;
SHPHandle SHPCreate(const char*,int){ return 0; } DBFHandle DBFCreate(const char*){ return 0; } void SHPClose(SHPHandle){} void DBFClose(DBFHandle){} int DBFAddField(DBFHandle,const char*,DBFFieldType,int,int){ return 0; } int SHPWriteObject(SHPHandle,int,SHPObject*){ return 0; } int DBFWriteStringAttribute(DBFHandle,int,int,const char*){ return 1; } int DBFWriteLogicalAttribute(DBFHandle,int,int,char){ return 1; } int DBFWriteIntegerAttribute(DBFHandle,int,int,int){ return 1; } int DBFWriteDoubleAttribute(DBFHandle,int,int,double){ return 1; } int DBFWriteNULLAttribute(DBFHandle,int,int){ return 1; }
using namespace Osmium::OSM;
enum { N=12 }; static const char* NAME[N]={"init","before_nodes","node","after_nodes","before_ways","way","after_ways","before_relations","relation","after_relations","area","end"};
static bool defd[N]; static int want[N], nev; static std::string seen;
static const void* obj; static int64_t oid;
static void script(const std::string& s){ seen+=s+";"; if(s.find("main")==std::string::npos) return; v8::Object* c=static_cast<v8::Object*>(vj_osmium->own["Callbacks"]); for(int i=0;i<N;i++) if(defd[i]) c->own[NAME[i]]=new v8::Function(i); c->own["other"]=new v8::Function(99); }
static int expect; static void called(int id,v8::Value* self){ nev++; sym_assert(id==expect,"the callback is the one of the native handler"); if(id==2||id==5||id==8||id==10){ v8::Object* o=static_cast<v8::Object*>(self); sym_assert(o->t!=0,"the callback gets an object"); if(o->t){ sym_assert(static_cast<v8::External*>(*o->GetInternalField(0))->Value()==obj,"the callback gets the object"); sym_assert(vj_num(vj_prop(o,"id"))==(double)oid,"the callback gets the object"); } sym_reach("object"); } }
static int exp_,did; static void before(int id){ expect=id; did=nev; exp_=defd[id]?1:0; } static void after(){ sym_assert(nev-did==exp_,"callbacks of the script are called exactly when it defines them"); }
#define EV(id,call) before(id); call; after()
extern "C" void harness_main(){ vj_script=script; vj_called=called; int mode=sym_choice("callbacks",0,3), k=mode>1?sym_choice("which",0,N-1):0; for(int i=0;i<N;i++) defd[i]=mode==0||(mode==2&&i!=k)||(mode==3&&i==k); sym_reach(mode==0?"all":mode==1?"none":mode==2?"but one":"one");
  std::vector<std::string> inc; int ni=sym_choice("included",0,2); std::string w; for(int i=0;i<ni;i++){ inc.push_back(i?"b":"a"); w+=i?"script b;":"script a;"; } if(ni) sym_reach("included"); w+="script main;";
  Osmium::Javascript::Handler h(inc,"main"); sym_assert(seen==w,"included scripts run in order before the script"); sym_assert(nev==0,"no callback before the data"); sym_assert(vj_bool(*vj_osmium->Get(v8::String::New("debug")))==false,"debug setting");
  Meta m; bool brackets=sym_flip("brackets"), o=sym_flip("objects"); EV(0,h.init(m));
  for(int t=0;t<3;t++){ if(brackets){ if(t==0){ EV(1,h.before_nodes()); } if(t==1){ EV(4,h.before_ways()); } if(t==2){ EV(7,h.before_relations()); } }
    if(o){ oid=sym_i64("id",-(1ll<<52),1ll<<52); if(t==0){ shared_ptr<Node> n=make_shared<Node>(); n->id(oid); obj=n.get(); EV(2,h.node(n)); } if(t==1){ shared_ptr<Way> n=make_shared<Way>(); n->id(oid); obj=n.get(); EV(5,h.way(n)); } if(t==2){ shared_ptr<Relation> n=make_shared<Relation>(); n->id(oid); obj=n.get(); EV(8,h.relation(n)); } }
    if(brackets){ if(t==0){ EV(3,h.after_nodes()); } if(t==1){ EV(6,h.after_ways()); } if(t==2){ EV(9,h.after_relations()); } } }
  if(o){ Relation r; r.id(oid); shared_ptr<Area> a=make_shared<Area>(r); oid=a->id(); obj=a.get(); EV(10,h.area(a)); }
  EV(11,h.final()); sym_observe(nev*4+ni); }
