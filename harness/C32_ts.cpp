//@ bounds: every timestamp 1..253402300799 (end of year 9999) with any calendar fields year 1970-9999; the calendar itself (gmtime/timegm) is the C library's and is abstracted to an arbitrary one-to-one map
//@ reach: zero,text,object
#include "sym.h"
#include <time.h>
#include <string.h>
static int have=0; static time_t rec_t; static struct tm rec;
static void fields(time_t t, struct tm* r, int hour){
  if(!have){ have=1; rec_t=t; memset(&rec,0,sizeof rec);
    rec.tm_year=sym_i32("year",70,8099); rec.tm_mon=sym_i32("mon",0,11); rec.tm_mday=sym_i32("mday",1,31); rec.tm_hour=sym_i32("hour",0,23); rec.tm_min=sym_i32("min",0,59); rec.tm_sec=sym_i32("sec",0,59); }
  *r=rec; if(hour||t!=rec_t) r->tm_hour=(r->tm_hour+1)%24;
}
static struct tm sbuf;
extern "C" {
struct tm* gmtime(const time_t* t) noexcept { fields(*t,&sbuf,0); return &sbuf; }
struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept { fields(*t,r,0); return r; }
struct tm* localtime(const time_t* t) noexcept { fields(*t,&sbuf,1); return &sbuf; }
struct tm* localtime_r(const time_t* t, struct tm* r) noexcept { fields(*t,r,1); return r; }
time_t timegm(struct tm* t) noexcept { bool same=have & (t->tm_year==rec.tm_year) & (t->tm_mon==rec.tm_mon) & (t->tm_mday==rec.tm_mday) & (t->tm_hour==rec.tm_hour) & (t->tm_min==rec.tm_min) & (t->tm_sec==rec.tm_sec); return same?rec_t:-12345; }
time_t mktime(struct tm* t) noexcept { return timegm(t)-3600; } time_t timelocal(struct tm* t) noexcept { return mktime(t); }
}
#include <osmium/osm/node.hpp>
extern "C" void harness_main(){
  time_t t=sym_i64("t",0,253402300799LL);
  std::string s=Osmium::Timestamp::to_iso(t);
  if(t==0){ sym_reach("zero"); sym_assert(s.empty(),"unset timestamp is the empty string"); return; }
  sym_assert(s.size()==20,"twenty characters"); sym_assert(strlen(s.c_str())==20,"no embedded NUL");
  int v[6]={rec.tm_year+1900,rec.tm_mon+1,rec.tm_mday,rec.tm_hour,rec.tm_min,rec.tm_sec}; static const int pos[6]={0,5,8,11,14,17};
  for(int i=0;i<6;i++){ int n=i?2:4, x=0; bool dig=true; for(int k=0;k<n;k++){ char c=s[pos[i]+k]; dig=dig&(c>='0')&(c<='9'); x=x*10+(c-'0'); } sym_assert(dig,"digits"); sym_assert(x==v[i],"field value"); }
  sym_assert(s[4]=='-'&&s[7]=='-'&&s[10]=='T'&&s[13]==':'&&s[16]==':'&&s[19]=='Z',"separators");
  sym_reach("text");
  bool thrown=false; time_t u=0; try{ u=Osmium::Timestamp::parse_iso(s.c_str()); }catch(std::invalid_argument&){ thrown=true; }
  sym_assert(!thrown,"own text is accepted"); sym_assert(u==t,"text parses back to the same time");
  Osmium::OSM::Node n; n.timestamp(t); std::string a=n.timestamp_as_string(); sym_assert(a==s,"object timestamp text");
  n.endtime(t); sym_assert(n.endtime_as_string()==s,"object end time text");
  Osmium::OSM::Node m; m.timestamp(s.c_str()); sym_assert(m.timestamp()==t && m.endtime()==0,"object timestamp from text"); sym_reach("object");
  sym_observe((uint64_t)u); for(char c: s) sym_observe((unsigned char)c);
}
