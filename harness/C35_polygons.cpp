//@ bounds: relations of up to 3 member ways (4 thorough) with two to four nodes that meet in their end nodes in every possible way (closed, open, branching, dangling), members that were not found or have no nodes, with and without repair of gaps, arbitrary timestamps; up to 4 rings (5 thorough) nested in every possible way; every combination of 4 kinds of tags on relation, outer and inner ways; what GEOS says about geometries is consistent with the nesting in these cases and arbitrary (including exceptions and touching rings) in a further one with up to 3 ways; a stream of one relation and two ways through the whole assembler; GEOS itself is a stand-in
//@ reach: area,none,dangling,repaired,used,tworings,outer,hole,holes,extra,plain,merged,touching,refused,built,noarea,fromrelation,fromway
//@ mock: geos bitset
//@ variant quick: rings -DMODE=0 -DNW=3
//@ variant quick: nest -DMODE=1 -DNW=4
//@ variant thorough: nest -DMODE=1 -DNW=5
//@ variant both: tags -DMODE=2
//@ variant quick: odd -DMODE=3 -DBUDGET=2
//@ variant thorough: odd -DMODE=3 -DBUDGET=4
//@ variant both: stream -DMODE=4
//@ variant thorough: rings -DMODE=0 -DNW=4
#include "sym.h"
#define VERIF_GEOS_OPS
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/geometry/multipolygon.hpp>
using namespace Osmium::OSM; namespace M=Osmium::MultiPolygon; namespace R=Osmium::Relations; namespace gg=geos::geom;
static double area2(const gg::CoordinateSequence* s){ double a=0; for(size_t i=0;i+1<s->getSize();i++) a+=s->getX(i)*s->getY(i+1)-s->getX(i+1)*s->getY(i); return a; }
static bool vg_ccw(const gg::CoordinateSequence* s){ return area2(s)>0; }
static bool vg_contains(const gg::Polygon* a,const gg::Polygon* b);
#if MODE!=3
static bool vg_simple(const gg::Geometry*){ return true; } static bool vg_valid(const gg::Geometry*){ return true; }
static bool vg_intersects(const gg::Geometry*,const gg::Geometry*){ return false; }
static gg::Geometry* vg_intersection(const gg::Geometry*,const gg::Geometry*){ return 0; } static gg::Geometry* vg_symdiff(const gg::Geometry*,const gg::Geometry*){ return 0; } static std::vector<gg::Polygon*>* vg_polygonize(const std::vector<gg::Geometry*>&){ return 0; }
static void vg_made(const char*){}
#endif
// end nodes are at (100+label^2, label), the nodes of way i between them at (i, 1) and (i, 2)
static WayNode endnode(int64_t id,int l){ return WayNode((osm_object_id_t)id,Position(100.0+l*l,1.0*l)); }
struct Sink : public Osmium::Handler::Base { std::vector<shared_ptr<Area> > v; void area(const shared_ptr<Area>& a){ v.push_back(a); } };
// the geometry of an area, by the text and shape interface
static const gg::MultiPolygon* geom(const Area& a,Osmium::Geometry::MultiPolygon*& m){ m=new Osmium::Geometry::MultiPolygon(a); return m->borrow_geos_geometry(); }
#if MODE==0
static bool vg_contains(const gg::Polygon*,const gg::Polygon*){ return false; }
static int kind[8]; static int la[8], lb[8]; static int64_t lid[16]; static bool slot[8];
extern "C" void harness_main(){
  int n=sym_choice("members",0,NW); bool rep=sym_flip("repair"); int labels=0; int count[16]={0}; int64_t rts=n<=2?sym_i64("timestamp",0,4294967295ll):550, most=rts; shared_ptr<Relation> rel=make_shared<Relation>(); rel->id(21); rel->timestamp((time_t)rts); { shared_ptr<Way> ws[8]; int any=0;
  for(int i=0;i<n;i++){ rel->add_member('w',i,""); kind[i]=i==0?sym_choice("kind",0,2):i==1&&rep&&kind[0]==2?sym_choice("again",0,1)*-1+2:2; if(kind[i]==0) continue; if(kind[i]==1&&i==1){ ws[1]=ws[0]; continue; } ws[i]=make_shared<Way>(4); ws[i]->id(i+1); int64_t ts=n<=2?sym_i64("timestamp",0,4294967295ll):500+100*i; ws[i]->timestamp((time_t)ts); if(kind[i]==1) continue; if(ts>most) most=ts; any++;
    for(int e=0;e<2;e++){ int l=sym_choice("end",0,labels); if(l==labels){ labels++; lid[l]=n<=2?sym_i64("node"):l*7-5; if(n<=2) for(int j=0;j<l;j++) sym_assume(lid[j]!=lid[l]); } count[l]++; (e?lb:la)[i]=l; }
    ws[i]->nodes().add(endnode(lid[la[i]],la[i])).add(WayNode(0,Position(1.0*i,1.0))).add(WayNode(0,Position(1.0*i,2.0))).add(endnode(lid[lb[i]],lb[i])); }
  R::RelationInfo ri(rel); for(int i=0;i<n;i++) ri.need_member(); for(int i=0;i<n;i++) if(kind[i]) ri.add_member(ws[i],i);
  bool dangling=false; for(int l=0;l<labels;l++) dangling=dangling||count[l]%2; if(dangling) sym_reach("dangling");
  M::Builder b(ri,rep); std::vector<shared_ptr<Area> >& as=b.build();
  if(!any||(dangling&&!rep)){ sym_reach("none"); sym_assert(as.empty(),"no area is made from ways that do not form rings"); }
  else { sym_assert(as.size()==1,"one area is made from ways that form rings"); if(as.size()!=1) return; sym_reach("area"); if(dangling) sym_reach("repaired"); Area& a=*as[0]; sym_assert(a.orig_id()==21&&!a.from_way(),"the area belongs to the relation"); sym_assert((int64_t)a.timestamp()==most,"the area is as new as its newest part");
    Osmium::Geometry::MultiPolygon* m; const gg::MultiPolygon* g=geom(a,m); int used[8]={0}; if(g->getNumGeometries()>1) sym_reach("tworings");
    for(size_t p=0;p<g->getNumGeometries();p++){ const gg::Polygon* poly=dynamic_cast<const gg::Polygon*>(g->getGeometryN(p)); sym_assert(poly!=0&&poly->getNumInteriorRing()==0,"every ring is a polygon"); if(!poly) return; const gg::CoordinateSequence* c=poly->getExteriorRing()->getCoordinatesRO(); size_t k=c->getSize(); sym_assert(k>=4&&c->getX(0)==c->getX(k-1)&&c->getY(0)==c->getY(k-1),"rings are closed"); sym_assert(!vg_ccw(c),"outer rings are clockwise");
      size_t i=0; while(i+1<k){ sym_assert(c->getX(i)>=100,"ways meet in their end nodes"); if(c->getX(i)<100) return; int from=(int)c->getY(i); if(c->getX(i+1)>=100){ sym_assert(dangling,"ways meet in their end nodes"); i++; continue; } sym_assert(i+3<k,"ways are used whole"); if(i+3>=k) return; int w=(int)c->getX(i+1); sym_assert(w>=0&&w<n&&kind[w]==2,"rings are made from member ways"); if(w<0||w>=n) return; bool fwd=c->getY(i+1)==1; sym_assert(c->getX(i+2)==w&&c->getY(i+2)==(fwd?2:1),"ways are used whole"); int to=(int)c->getY(i+3); sym_assert(c->getX(i+3)>=100&&from==(fwd?la[w]:lb[w])&&to==(fwd?lb[w]:la[w]),"ways are used whole"); used[w]++; sym_reach("used"); i+=3; } }
    for(int i=0;i<n;i++) sym_assert(used[i]==(kind[i]==2?1:0),"every member way is used exactly once");
    delete m; sym_observe(g->getNumGeometries()); } }
  sym_assert(vg_live==0,"geometries are freed");
}
#elif MODE==1
// ring i is a square around (10*i+5, 5) as far as coordinates go; which ring contains which is arbitrary, as long as it is possible
static uint8_t in_[8][8]; static int n;
static int ringno(const gg::LineString* l){ return (int)(l->getCoordinatesRO()->getX(0)/10); }
static bool vg_contains(const gg::Polygon* a,const gg::Polygon* b){ int i=ringno(a->getExteriorRing()), j=ringno(b->getExteriorRing()); sym_assert(i>=0&&i<n&&j>=0&&j<n&&i!=j,"different rings are compared"); return in_[i][j]; }
extern "C" void harness_main(){
  n=sym_choice("rings",1,NW); shared_ptr<Relation> rel=make_shared<Relation>(); rel->id(-21); { R::RelationInfo ri(rel); shared_ptr<Way> ws[8];
  for(int i=0;i<n;i++){ rel->add_member('w',i,i%2?"inner":"outer"); } R::RelationInfo info(rel);
  for(int i=0;i<n;i++){ Way* w=new Way(5); ws[i].reset(w); w->id(i+1); bool cw=n<3?sym_flip("clockwise"):i%2; double x=10.0*i; double X[2][5]={{x+1,x+9,x+9,x+1,x+1},{x+1,x+1,x+9,x+9,x+1}}, Y[2][5]={{1,1,9,9,1},{1,9,9,1,1}}; for(int k=0;k<5;k++) w->nodes().add(WayNode(100*i+k%4+1,Position(X[cw][k],Y[cw][k]))); info.need_member(); info.add_member(ws[i],i); }
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j) in_[i][j]=sym_u8("contains",0,1);
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j){ sym_assume(!(in_[i][j]&in_[j][i])); for(int k=0;k<n;k++) if(k!=i&&k!=j){ sym_assume(!(in_[i][j]&in_[j][k]&(in_[i][k]^1))); sym_assume(!(in_[i][k]&in_[j][k]&(in_[i][j]^1)&(in_[j][i]^1))); } }
  M::Builder b(info,sym_flip("repair")); std::vector<shared_ptr<Area> >& as=b.build(); sym_assert(as.size()==1,"one area is made"); if(as.size()!=1) return; Osmium::Geometry::MultiPolygon* m; const gg::MultiPolygon* g=geom(*as[0],m); sym_assert(as[0]->orig_id()==-21&&!as[0]->from_way(),"the area belongs to the relation");
  int used[8]={0};
  for(size_t p=0;p<g->getNumGeometries();p++){ const gg::Polygon* poly=dynamic_cast<const gg::Polygon*>(g->getGeometryN(p)); if(!poly) return; int r=ringno(poly->getExteriorRing()); sym_assert(r>=0&&r<n,"rings are those of the ways"); used[r]++; uint8_t odd=0; for(int i=0;i<n;i++) if(i!=r) odd^=in_[i][r]; sym_assert(!odd,"a ring inside of an even number of rings is an outer ring"); sym_assert(!vg_ccw(poly->getExteriorRing()->getCoordinatesRO()),"outer rings are clockwise"); sym_reach("outer");
    for(size_t h=0;h<poly->getNumInteriorRing();h++){ int j=ringno(poly->getInteriorRingN(h)); sym_assert(j>=0&&j<n&&j!=r,"rings are those of the ways"); used[j]++; sym_reach("hole"); uint8_t direct=in_[r][j]; for(int k=0;k<n;k++) if(k!=r&&k!=j) direct&=(in_[r][k]&in_[k][j])^1; sym_assert(direct,"a hole belongs to the ring directly around it"); sym_assert(vg_ccw(poly->getInteriorRingN(h)->getCoordinatesRO()),"inner rings are counterclockwise"); if(poly->getNumInteriorRing()>1) sym_reach("holes"); } }
  for(int i=0;i<n;i++) sym_assert(used[i]==1,"every ring is used exactly once"); delete m; sym_observe(g->getNumGeometries()*10+n); }
  sym_assert(vg_live==0,"geometries are freed");
}
#elif MODE==2
// way 1 (and 2): outer, way 3: inside of the first ring
static bool inner; static int ringno(const gg::LineString* l){ double x=l->getCoordinatesRO()->getX(0); return x>=20?3:x>=10?2:1; }
static bool vg_contains(const gg::Polygon* a,const gg::Polygon* b){ int i=ringno(a->getExteriorRing()), j=ringno(b->getExteriorRing()); return i==1&&j==3; }
static void tag(TagList& t,int k){ if(k==1) t.add("note","x"); if(k==2||k==4) t.add("a","1"); if(k==3) t.add("a","2"); if(k==4) t.add("b","1"); if(k==4) t.add("source","y"); }
static const char* val(int k,int key){ return key==0?(k==2||k==4?"1":k==3?"2":0):(k==4?"1":0); } // tags that count: a, b
static bool same(int p,int q){ return p==q||(p<2&&q<2); }
static void square(Way& w,double x,int from,int to,int id){ double X[5]={x+1,x+9,x+9,x+1,x+1}, Y[5]={1,1,9,9,1}; for(int k=from;k<=to;k++) w.nodes().add(WayNode(id+k%4,Position(X[k],Y[k]))); }
extern "C" void harness_main(){
  int outer=sym_choice("outer",0,2); inner=sym_flip("inner"); int tr=sym_choice("relation tags",0,4), t1=sym_choice("outer tags",0,4), t2=outer?sym_choice("outer tags",0,4):0, t3=inner?sym_choice("inner tags",0,4):0; int64_t id=sym_i64("id",-100000000000ll,100000000000ll), id3=sym_i64("way",-100000000000ll,100000000000ll);
  shared_ptr<Relation> rel=make_shared<Relation>(); rel->id(id); rel->tags().add("type","multipolygon"); tag(rel->tags(),tr); rel->add_member('w',1,"outer"); if(outer) rel->add_member('w',2,"outer"); if(inner) rel->add_member('w',id3,"inner"); { R::RelationInfo ri(rel);
  int m=0; Way* w1=new Way(5); shared_ptr<Way> s1(w1); w1->id(1); tag(w1->tags(),t1); square(*w1,0,0,outer==1?2:4,100); ri.need_member(); ri.add_member(s1,m++);
  if(outer){ Way* w=new Way(5); shared_ptr<Way> s(w); w->id(2); tag(w->tags(),t2); if(outer==1) square(*w,0,2,4,100); else square(*w,10,0,4,200); ri.need_member(); ri.add_member(s,m++); }
  if(inner){ Way* w=new Way(5); shared_ptr<Way> s(w); w->id(id3); w->version(7); tag(w->tags(),t3); square(*w,20,0,4,300); ri.need_member(); ri.add_member(s,m++); }
  M::Builder b(ri,false); std::vector<shared_ptr<Area> >& as=b.build(); const Area *a=0, *extra=0; for(size_t i=0;i<as.size();i++) if(as[i]->from_way()){ sym_assert(!extra,"one area per inner way"); extra=as[i].get(); } else { sym_assert(!a,"one area per relation"); a=as[i].get(); }
  sym_assert(a!=0&&a->orig_id()==id,"one area per relation"); if(!a) return; Osmium::Geometry::MultiPolygon* mp; const gg::MultiPolygon* g=geom(*a,mp); sym_assert(g->getNumGeometries()==(outer==2?2u:1u),"outer rings make polygons"); delete mp;
  bool want=inner&&t3>1&&!same(t3,tr)&&!(outer!=1&&same(t3,t1)); sym_assert((extra!=0)==want,"an inner way with tags of its own makes a further area"); if(extra){ sym_reach("extra"); sym_assert(extra->orig_id()==id3&&extra->version()==7,"the further area is that of the way"); g=geom(*extra,mp); sym_assert(g->getNumGeometries()==1,"the further area is the inner ring"); const gg::Polygon* p=dynamic_cast<const gg::Polygon*>(g->getGeometryN(0)); sym_assert(p&&ringno(p->getExteriorRing())==3&&!vg_ccw(p->getExteriorRing()->getCoordinatesRO())&&!p->getNumInteriorRing(),"the further area is the inner ring"); delete mp; TagList t; tag(t,t3); sym_assert(extra->tags().size()==t.size(),"the further area has the tags of the way"); for(int i=0;i<t.size()&&i<extra->tags().size();i++) sym_assert(extra->tags()[i]==t[i],"the further area has the tags of the way"); } else if(inner) sym_reach("plain");
  // tags of the area: those of the relation first
  for(int i=0;i<rel->tags().size();i++) sym_assert(i<a->tags().size()&&a->tags()[i]==rel->tags()[i],"the area has the tags of the relation"); int n=0; for(int i=rel->tags().size();i<a->tags().size();i++) n++;
  for(int k=0;k<2;k++){ const char* key=k?"b":"a"; int c=0; for(int i=0;i<a->tags().size();i++) if(!strcmp(a->tags()[i].key(),key)) c++; sym_assert(c<=1,"the area has each key once"); const char* v=a->tags().get_value_by_key(key); const char *r=val(tr,k), *x=val(t1,k), *y=outer?val(t2,k):0; std::string got=v?v:"", rv=r?r:"", xv=x?x:"", yv=y?y:"";
    if(r) sym_assert(got==rv,"the area keeps the tags of the relation"); else if(!outer) sym_assert(got==xv,"the area gets the tags of its only outer way"); else if(tr>1) sym_assert(got=="","tags of several outer ways do not change a relation with tags"); else if(t1<2) sym_assert(got==yv,"the area gets the tags of the tagged outer way"); else if(t2<2||same(t1,t2)) sym_assert(got==xv,"the area gets the tags of the tagged outer way"); else sym_assert(got==xv||got==yv,"tags of the area come from its outer ways"); }
  for(int i=rel->tags().size();i<a->tags().size();i++) sym_assert(!strcmp(a->tags()[i].key(),"a")||!strcmp(a->tags()[i].key(),"b"),"tags without meaning are not taken over"); if(n) sym_reach("merged"); sym_observe(n*10+as.size()); }
  sym_assert(vg_live==0,"geometries are freed");
}
#elif MODE==3
// GEOS answers in unusual ways up to BUDGET times
static int budget=BUDGET; static bool odd(const char* what){ if(!budget||!sym_flip(what)) return false; budget--; return true; } static bool threw; static int layout; static bool touching, lost;
static void oops(){ threw=true; throw geos::util::GEOSException("geos"); }
static bool vg_simple(const gg::Geometry* g){ const gg::LineString* l=dynamic_cast<const gg::LineString*>(g); if(l&&l->getNumPoints()<3) return true; return !odd("not simple"); } static bool vg_valid(const gg::Geometry*){ return !odd("not valid"); }
static int ringno(const gg::LineString* l){ return (int)(l->getCoordinatesRO()->getX(0)/10); }
static bool vg_contains(const gg::Polygon* a,const gg::Polygon* b){ bool c=layout==0&&ringno(a->getExteriorRing())==0&&ringno(b->getExteriorRing())>0; if(odd("contains")) c=!c; return c; }
static bool vg_intersects(const gg::Geometry*,const gg::Geometry*){ if(odd("intersects throws")) oops(); return odd("intersects"); }
static gg::LineString* line(){ return new gg::LineString(new gg::CoordinateSequence(new std::vector<gg::Coordinate>(2))); }
static gg::Geometry* vg_intersection(const gg::Geometry*,const gg::Geometry*){ int k=sym_choice("intersection",0,2); if(k==2) oops(); return k?(gg::Geometry*)line():(gg::Geometry*)new gg::Point(gg::Coordinate(1,2)); }
static gg::Geometry* vg_symdiff(const gg::Geometry*,const gg::Geometry*){ return line(); }
static std::vector<gg::Polygon*>* vg_polygonize(const std::vector<gg::Geometry*>& in){ sym_assert(in.size()==1&&in[0]->getGeometryTypeId()==gg::GEOS_LINESTRING,"the difference is still there"); int k=sym_choice("polygons",0,3); if(k==3) return 0; std::vector<gg::Polygon*>* v=new std::vector<gg::Polygon*>; for(int i=0;i<k;i++){ std::vector<gg::Coordinate>* c=new std::vector<gg::Coordinate>; c->push_back(gg::Coordinate(11,1)); c->push_back(gg::Coordinate(19,1)); c->push_back(gg::Coordinate(19,9)); c->push_back(gg::Coordinate(11,1)); v->push_back(new gg::Polygon(new gg::LinearRing(new gg::CoordinateSequence(c)),0)); } if(k==1){ touching=true; sym_reach("touching"); } return v; }
static void vg_made(const char* what){ if(odd(what)) oops(); }
static void seg(Way& w,double x,int from,int to,int id){ double X[5]={x+1,x+9,x+9,x+1,x+1}, Y[5]={1,1,9,9,1}; for(int k=from;k<=to;k++) w.nodes().add(WayNode(id+k%4,Position(X[k],Y[k]))); }
extern "C" void harness_main(){
  layout=sym_choice("layout",0,2); bool rep=sym_flip("repair"); shared_ptr<Relation> rel=make_shared<Relation>(); rel->id(5); for(int i=0;i<3;i++) rel->add_member('w',i+1,""); { R::RelationInfo ri(rel);
  for(int i=0;i<3;i++){ Way* w=new Way(5); shared_ptr<Way> s(w); w->id(i+1); if(layout==0) seg(*w,10*i,0,4,100*i); else if(layout==1) seg(*w,0,i,i==2?4:i+1,100); else seg(*w,0,i==2?1:0,i==2?2:i==1?1:4,i==0?100:200); ri.need_member(); ri.add_member(s,i); }
  M::Builder b(ri,rep); std::vector<shared_ptr<Area> >& as=b.build(); sym_assert(as.size()<=1,"one area at most"); if(as.empty()) sym_reach("refused"); for(size_t k=0;k<as.size();k++){ sym_reach("built"); Osmium::Geometry::MultiPolygon* m; const gg::MultiPolygon* g=geom(*as[k],m); delete m; sym_assert(g->getNumGeometries()>=1,"an area has polygons"); int used[3]={0}; for(size_t p=0;p<g->getNumGeometries();p++){ const gg::Polygon* poly=dynamic_cast<const gg::Polygon*>(g->getGeometryN(p)); const gg::CoordinateSequence* c=poly->getExteriorRing()->getCoordinatesRO(); sym_assert(c->getSize()>=4&&c->getX(0)==c->getX(c->getSize()-1)&&c->getY(0)==c->getY(c->getSize()-1),"rings are closed"); if(layout==0){ int r=ringno(poly->getExteriorRing()); sym_assert(r>=0&&r<3,"rings are those of the ways"); if(r>=0&&r<3) used[r]++; } }
    if(layout==0) for(int i=0;i<3;i++) sym_assert(used[i]<=1,"no ring makes two polygons"); if(budget==BUDGET) sym_assert(layout==2?rep:true,"gaps are closed only on request"); }
  sym_observe(as.size()*10+layout); }
  if(!threw) sym_assert(vg_live==0,"geometries are freed");
}
#elif MODE==4
static bool vg_contains(const gg::Polygon*,const gg::Polygon*){ return false; }
static int wn[4]; static int64_t wid[4]; static bool closed[4];
struct S2 : public Sink { int nodes, ways, rels, fin; S2():nodes(0),ways(0),rels(0),fin(0){} void node(const shared_ptr<Node const>&){ nodes++; } void way(const shared_ptr<Way const>&){ ways++; } void relation(const shared_ptr<Relation const>&){ rels++; } void final(){ fin++; } };
extern "C" void harness_main(){
  static const char* T[]={"multipolygon","boundary","route",0}; int t=sym_choice("type",0,3); int64_t rid=sym_i64("relation",-100000000000ll,100000000000ll), ref=sym_i64("member"), nref=sym_i64("node"); shared_ptr<Relation> rel=make_shared<Relation>(); rel->id(rid); if(sym_flip("other tag")) rel->tags().add("types","multipolygon"); if(T[t]) rel->tags().add("type",T[t]); if(sym_flip("node member")) rel->add_member('n',nref,""); rel->add_member('w',ref,sym_flip("role")?"inner":"outer");
  { S2 h; M::Assembler<S2> a(h,false); Meta meta; typename M::Assembler<S2>::HandlerPass1& p1=a.handler_pass1(); p1.init(meta); p1.before_relations(); p1.relation(rel); bool stop=false; try { p1.after_relations(); } catch(Osmium::Handler::StopReading&){ stop=true; } sym_assert(stop,"first pass stops after the relations");
  typename M::Assembler<S2>::HandlerPass2& p2=a.handler_pass2(); p2.init(meta); p2.before_nodes(); { shared_ptr<Node> n=make_shared<Node>(); n->id(nref); p2.node(n); } p2.after_nodes(); p2.before_ways(); bool multi=t<2, seen=false;
  for(int i=0;i<2;i++){ wn[i]=i?4:sym_choice("nodes",1,5); wid[i]=sym_i64("way",-100000000000ll,100000000000ll); if(i) sym_assume(wid[1]!=wid[0]); closed[i]=wn[i]==1||sym_flip("closed"); Way* w=new Way(5); shared_ptr<Way> s(w); w->id(wid[i]); w->version(i+3); for(int k=0;k<wn[i];k++){ bool last=k==wn[i]-1&&closed[i]; w->nodes().add(WayNode(last?1:k+1,last?Position(0.0,0.0):Position(1.0*k,1.0*(k*k)))); } size_t had=h.v.size(); p2.way(s); bool mem=multi&&wid[i]==ref; if(mem) seen=true; bool ring=closed[i]&&wn[i]>=4;
    sym_assert(h.v.size()==had+(ring?1:0),"a closed way makes an area, of its own or of its relation"); if(h.v.size()!=had+1) { sym_reach("noarea"); continue; } const Area& ar=*h.v.back(); sym_assert(ar.from_way()==!mem&&ar.orig_id()==(mem?rid:wid[i]),"the area belongs to the relation of the way, otherwise to the way"); if(!mem) sym_assert(ar.version()==(uint32_t)i+3,"the area belongs to the relation of the way, otherwise to the way"); sym_reach(mem?"fromrelation":"fromway"); Osmium::Geometry::MultiPolygon* m; const gg::MultiPolygon* g=geom(ar,m); delete m; const gg::Polygon* poly=dynamic_cast<const gg::Polygon*>(g->getGeometryN(0)); sym_assert(g->getNumGeometries()==1&&poly&&(int)poly->getExteriorRing()->getNumPoints()==wn[i],"the area has the nodes of the way"); if(!poly) return; const gg::CoordinateSequence* c=poly->getExteriorRing()->getCoordinatesRO(); bool turned=mem&&c->getX(1)!=1.0; for(int k=0;k<wn[i];k++){ int q=turned?wn[i]-1-k:k; double x=q==wn[i]-1?0:q; sym_assert(c->getX(k)==x&&c->getY(k)==x*x,"the area has the nodes of the way"); } }
  p2.after_ways(); p2.before_relations(); p2.relation(rel); p2.after_relations(); p2.final(); sym_assert(h.nodes==1&&h.ways==2&&h.rels==1&&h.fin==1,"objects are passed on"); sym_observe(h.v.size()*10+seen); }
  sym_assert(vg_live==0,"geometries are freed");
}
#endif
