//@ bounds: documents with up to 2 objects of arbitrary types with arbitrary ids, versions, changesets, user ids, coordinates and references, up to 2 tags and references or members each, texts of 1 arbitrary byte, attributes in either order, present or absent, in plain files and in create, modify and delete sections; every document of up to 4 elements below the root over two sets of 6 element names with every nesting; parse errors, read errors and chunk boundaries at every point; version attributes of 3 arbitrary bytes; element events as expat delivers them
//@ mock: expat
//@ reach: object,tag,nd,member,deleted,ignored,error,badversion,bounds,toolong
//@ variant quick: one -DMODE=0 -DNOB=1 -DFULL=1
//@ variant quick: two -DMODE=0 -DNOB=2 -DFULL=0
//@ variant quick: nesta -DMODE=1 -DNEL=4 -DSET=0
//@ variant quick: nestb -DMODE=1 -DNEL=4 -DSET=1
//@ variant quick: faults -DMODE=2
//@ variant quick: header -DMODE=3
//@ variant thorough: one -DMODE=0 -DNOB=1 -DFULL=2
//@ variant thorough: two -DMODE=0 -DNOB=2 -DFULL=2
//@ variant thorough: nesta -DMODE=1 -DNEL=5 -DSET=0
//@ variant thorough: nestb -DMODE=1 -DNEL=5 -DSET=1
//@ variant thorough: faults -DMODE=2
//@ variant thorough: header -DMODE=3
#include "xmlin.h"
static const char* EN[]={"node","way","relation"};
#if MODE==0
static void gen(Snap& w,bool del){ w=snap_empty(sym_choice("type",0,2)); XE& e=xs(EN[w.t]); w.id=sym_i64("id"); bool rev=FULL?sym_flip("reverse"):false; bool full=FULL?sym_flip("full"):true; int vis=del||!full?0:sym_choice("visible",0,2);
  if(!rev) xa(e,"id",xnum(w.id));
  if(full){ w.version=sym_u32("version"); xa(e,"version",xnum(w.version)); w.changeset=sym_i32("changeset"); xa(e,"changeset",xnum(w.changeset)); w.uid=sym_i32("uid"); xa(e,"uid",xnum(w.uid)); int t=FULL==2?sym_choice("timestamp",0,2):1; w.ts=TVAL[t]; xa(e,"timestamp",TSTR[t]); w.user=xtext(1); xa(e,"user",ps(w.user)); if(vis){ xa(e,"visible",vis==1?"true":"false"); w.visible=vis==1; } xa(e,"foo","bar"); }
  // coordinates count for nodes only
  if(w.t==0||!FULL||sym_flip("coordinates")){ double lon=FULL?sym_i32("lon",-1800000000,1800000000)/10000000.0:1.5, lat=FULL?sym_i32("lat",-900000000,900000000)/10000000.0:2.5; xa(e,"lat",ps(vm_deg(lat))); xa(e,"lon",ps(vm_deg(lon))); if(w.t==0){ Position p; p.lon(lon); p.lat(lat); w.def=true; w.x=p.x(); w.y=p.y(); } }
  if(rev) xa(e,"id",xnum(w.id)); if(del){ w.visible=false; sym_reach("deleted"); }
  int c=w.t?sym_choice("parts",0,FULL?2:1):0, tg=sym_choice("tags",0,FULL?2:1); bool tagsfirst=c&&tg&&sym_flip("tags first");
  for(int pass=0;pass<2;pass++) if((pass==0)==tagsfirst){ for(int i=0;i<tg;i++){ XE& t=xs("tag"); w.k[i]=xtext(1); w.v[i]=i?"":xtext(1); if(rev){ xa(t,"v",ps(w.v[i])); xa(t,"k",ps(w.k[i])); } else { xa(t,"k",ps(w.k[i])); xa(t,"v",ps(w.v[i])); } xend("tag"); w.nt++; sym_reach("tag"); } }
    else for(int i=0;i<c;i++){ w.ref[i]=sym_i64("ref"); if(w.t==1){ XE& t=xs("nd"); xa(t,"ref",xnum(w.ref[i])); xend("nd"); sym_reach("nd"); } else { XE& t=xs("member"); int mt=FULL?sym_choice("mtype",0,2):1; w.mt[i]="nwr"[mt]; w.role[i]=i?xtext(1):""; if(rev){ xa(t,"role",ps(w.role[i])); xa(t,"ref",xnum(w.ref[i])); xa(t,"type",EN[mt]); } else { xa(t,"type",EN[mt]); xa(t,"ref",xnum(w.ref[i])); xa(t,"role",ps(w.role[i])); } xend("member"); sym_reach("member"); } w.np++; }
  xend(EN[w.t]); sym_reach("object"); }
extern "C" void harness_main(){ xreset(); bool change=FULL!=1||sym_flip("change"); XE& r=xs(change?"osmChange":"osm"); xa(r,"version","0.6"); xa(r,"generator","me");
  for(int i=0;i<NOB;i++){ int sec=change?sym_choice("section",FULL?0:1,2):0; static const char* SN[]={"create","modify","delete"}; if(change){ xs(SN[sec]); } gen(want[i],change&&sec==2); if(change) xend(SN[sec]); }
  nwant=NOB; xend(change?"osmChange":"osm"); Cap cap; cap.keep=255; int res=xparse(cap,change?"a.osc":"a.osm");
  sym_assert(res==OKAY,"a well-formed document is read"); sym_assert(cap.n==nwant,"every object is delivered once"); sym_assert(cap.finals==1,"final call"); for(int i=0;i<cap.n&&i<nwant;i++) snap_check(cap.s[i],want[i]); cap.verify(); sym_assert(cap.meta.generator()=="me","generator"); sym_assert(vx_parsers==1&&vx_freed==1,"the parser is freed"); sym_observe(nxe); }
#elif MODE==1
#if SET==0
static const char* NM[]={"node","way","tag","nd","delete","x"};
#else
static const char* NM[]={"relation","member","tag","osm","create","node"};
#endif
extern "C" void harness_main(){ xreset(); XE& r=xs(SET==0||sym_flip("known root")?"osm":"x"); xa(r,"version","0.6"); const char* stack[12]; int depth=1; stack[0]=r.name; int obj=-1, del=-1; int left=NEL;
  while(depth>0){ int c= left>0?sym_choice("next",-1,5):-1;
    if(c<0){ depth--; if(depth==obj) obj=-1; if(depth==del) del=-1; xend(stack[depth]); continue; }
    left--; const char* n=NM[c]; XE& e=xs(n); int64_t id=sym_i64("id"); int64_t ref=sym_i64("ref"); xa(e,"id",xnum(id)); xa(e,"k","a"); xa(e,"v",ps(std::string(1,(char)('a'+nxe)))); xa(e,"ref",xnum(ref)); xa(e,"type","way"); xa(e,"role","r"); xa(e,"lat","1.5"); xa(e,"lon","2.5");
    if(obj<0){ int t=!strcmp(n,"node")?0:!strcmp(n,"way")?1:!strcmp(n,"relation")?2:-1; if(t>=0){ obj=depth; Snap& w=want[nwant++]=snap_empty(t); w.id=id; w.visible=del<0; if(t==0){ w.def=true; Position p(2.5,1.5); w.x=p.x(); w.y=p.y(); } if(del>=0) sym_reach("deleted"); } else if(!strcmp(n,"delete")){ sym_assume(del<0); del=depth; } }
    else if(depth==obj+1){ Snap& w=want[nwant-1]; if(!strcmp(n,"tag")){ w.k[w.nt]="a"; w.v[w.nt]=std::string(1,(char)('a'+nxe)); w.nt++; } else if(!strcmp(n,"nd")&&w.t==1) w.ref[w.np++]=ref; else if(!strcmp(n,"member")&&w.t==2){ w.ref[w.np]=ref; w.mt[w.np]='w'; w.role[w.np]="r"; w.np++; } else sym_reach("ignored"); }
    stack[depth++]=n; }
  Cap cap; int res=xparse(cap); sym_assert(vx_parsers==1&&vx_freed==1,"the parser is freed");
  if(res==OKAY){ sym_assert(cap.n==nwant,"the objects of the document are delivered"); for(int i=0;i<cap.n&&i<nwant;i++) snap_check(cap.s[i],want[i]); sym_assert(cap.finals==1,"final call"); }
  else { sym_reach("error"); bool plain=true; for(int i=0;i<cap.n&&i<nwant;i++) snap_check(cap.s[i],want[i]); }
  sym_observe(nwant*10+res); }
#elif MODE==2
extern "C" void harness_main(){ xreset(); XE& r=xs("osm"); xa(r,"version","0.6"); int c[3]; for(int i=0;i<3;i++){ int t=sym_choice("type",0,2); XE& e=xs(EN[t]); xa(e,"id",xnum(i+1)); XE& g=xs("tag"); xa(g,"k","a"); xa(g,"v","b"); xend("tag"); xend(EN[t]); want[i]=snap_empty(t); want[i].id=i+1; want[i].nt=1; want[i].k[0]="a"; want[i].v[0]="b"; c[i]=nxe; } xend("osm"); nwant=3;
  int what=sym_choice("what",0,3); xcut=sym_choice("cut",0,nxe); if(what==1) xerr=sym_choice("error at",0,nxe); if(what==2) xreaderr=sym_choice("failing read",1,2); Cap cap; if(what==3) cap.stopat=sym_choice("stop at",1,3);
  int res=xparse(cap); sym_assert(vx_parsers==1&&vx_freed==1,"the parser is freed"); for(int i=0;i<cap.n&&i<nwant;i++) snap_check(cap.s[i],want[i]);
  if(what==0){ sym_assert(res==OKAY&&cap.n==3&&cap.finals==1,"chunk boundaries do not matter"); }
  if(what==1||what==2){ bool must=what==1||xreads>=xreaderr; if(must){ sym_reach("error"); sym_assert(res==PARSEERR,"errors in the document or when reading are reported"); } if(what==1){ int k=0; for(int i=0;i<3;i++) if(c[i]<=xerr) k++; sym_assert(cap.n==k,"only objects before the error are delivered"); } }
  if(what==3){ sym_assert(res==OKAY&&cap.n==cap.stopat&&cap.finals==1,"reading stops when a handler says so"); }
  sym_observe(res*100+cap.n); }
#else
extern "C" void harness_main(){ xreset(); int what=sym_choice("what",0,3); XE& r=xs(sym_flip("change")?"osmChange":"osm"); Cap cap; int res;
  if(what==0){ std::string v=xtext(3); std::string gen=xtext(1); bool first=sym_flip("generator first"); if(first) xa(r,"generator",ps(gen)); xa(r,"version",ps(v)); if(!first) xa(r,"generator",ps(gen)); xs("node"); xend("node"); xend(r.name); res=xparse(cap); bool ok=v=="0.6"; sym_assert((res==OKAY)==ok,"exactly version 0.6 is accepted"); if(!ok){ sym_reach("badversion"); sym_assert(cap.n==0&&cap.inits==0,"nothing delivered from other versions"); } else sym_assert(cap.n==1&&cap.meta.generator()==gen,"generator is passed on"); }
  else if(what==1){ xa(r,"version","0.6"); XE& b=xs("bounds"); static const char* V[]={"-3.5","4.25","-0.5","7"}; static const double D[]={-3.5,4.25,-0.5,7}; int p[4]; for(int i=0;i<4;i++) p[i]=sym_choice("value",0,3); bool rev=sym_flip("reverse"); static const char* N[]={"minlon","minlat","maxlon","maxlat"}; for(int i=0;i<4;i++){ int k=rev?3-i:i; xa(b,N[k],V[p[k]]); } xend("bounds"); if(sym_flip("objects")){ xs("way"); xend("way"); } xend(r.name); res=xparse(cap); sym_assert(res==OKAY&&cap.inits==1,"bounds are read"); const Bounds& m=cap.meta.bounds(); sym_reach("bounds"); double lo0=D[p[0]]<D[p[2]]?D[p[0]]:D[p[2]], hi0=D[p[0]]<D[p[2]]?D[p[2]]:D[p[0]], lo1=D[p[1]]<D[p[3]]?D[p[1]]:D[p[3]], hi1=D[p[1]]<D[p[3]]?D[p[3]]:D[p[1]]; sym_assert(m.defined()&&m.bottom_left().lon()==lo0&&m.bottom_left().lat()==lo1&&m.top_right().lon()==hi0&&m.top_right().lat()==hi1,"bounds are passed on"); }
  else if(what==2){ xa(r,"version","0.6"); xs("node"); xend("node"); int t=sym_choice("type",0,2); XE& e=xs(EN[t]); bool user=t!=2||sym_flip("user"); int len=sym_choice("length",1020,1022); const char* lo=ps(std::string((size_t)len,'u')); if(user) xa(e,"user",lo); else { XE& m=xs("member"); xa(m,"type","node"); xa(m,"ref","3"); xa(m,"role",lo); xend("member"); } xend(EN[t]); xend(r.name); res=xparse(cap); if(len>1021){ sym_reach("toolong"); sym_assert(res!=OKAY,"too long names are reported"); sym_assert(cap.n==1,"only objects before the error are delivered"); } if(len<1021) sym_assert(res==OKAY&&cap.n==2,"long names are accepted"); if(res==OKAY) sym_assert(user?cap.s[1].user==lo:cap.s[1].role[0]==lo,"long names are stored"); }
  else { res=PARSEERR; bool empty=sym_flip("no root"); if(empty) nxe=0; else { xa(r,"version","0.6"); xend(r.name); } if(empty) xerr=0; res=xparse(cap); sym_assert((res==OKAY)==!empty,"a document without root is an error"); if(!empty) sym_assert(cap.n==0&&cap.inits==1&&cap.finals==1,"an empty document has no objects"); }
  sym_assert(vx_parsers==1&&vx_freed==1,"the parser is freed"); sym_reach("error"); sym_observe(res*10+cap.n); }
#endif
