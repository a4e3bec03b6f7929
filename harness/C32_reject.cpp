//@ bounds: every text that differs from the documented form by up to two arbitrary consecutive characters replaced at any place, by truncation at any place, or by arbitrary trailing characters
//@ reach: accepted,rejected
#include "sym.h"
#include <time.h>
#include <string.h>
static struct tm got; static int calls=0;
extern "C" { time_t timegm(struct tm* t) noexcept { got=*t; calls++; return 424242; } time_t mktime(struct tm* t) noexcept { got=*t; calls+=2; return 1; } time_t timelocal(struct tm* t) noexcept { return mktime(t); } }
#include <osmium/osm/node.hpp>
// reference recogniser for the form (numbers as strptime reads them: leading blanks and missing leading zeros allowed)
static bool num(const char*& p,int lo,int hi,int n,int& out){ while(*p==' ') p++; if(*p<'0'||*p>'9') return false; int v=0; do{ v=v*10+(*p-'0'); p++; }while(--n>0&&v*10<=hi&&*p>='0'&&*p<='9'); out=v; return v>=lo&&v<=hi; }
static bool form(const char* p,int* v){ static const char sep[]="--T::Z"; static const int lo[]={0,1,1,0,0,0},hi[]={9999,12,31,23,59,61},n[]={4,2,2,2,2,2};
  for(int i=0;i<6;i++){ if(!num(p,lo[i],hi[i],n[i],v[i])) return false; if(*p!=sep[i]) return false; p++; } return *p==0; }
extern "C" void harness_main(){
  char b[32]; strcpy(b,"2012-10-28T17:05:09Z"); int kind=sym_choice("kind",0,2);
  if(kind==0){ int at=sym_choice("at",0,19); b[at]=sym_u8("c1",1,127); if(at<19) b[at+1]=sym_u8("c2",1,127); }
  else if(kind==1){ int len=sym_choice("len",0,19); b[len]=0; }
  else { int k=sym_choice("extra",1,3); for(int i=0;i<k;i++) b[20+i]=sym_u8("x",1,127); b[20+k]=0; }
  int v[6]={0,0,0,0,0,0}; bool ok=form(b,v);
  bool thrown=false; time_t t=0; try{ t=Osmium::Timestamp::parse_iso(b); }catch(std::invalid_argument&){ thrown=true; }
  sym_assert(thrown==!ok,"accepted exactly when the text has the documented form");
  if(!thrown){ sym_reach("accepted"); sym_assert(t==424242&&calls==1,"result is the UTC calendar's"); sym_assert(got.tm_year==v[0]-1900&&got.tm_mon==v[1]-1&&got.tm_mday==v[2]&&got.tm_hour==v[3]&&got.tm_min==v[4]&&got.tm_sec==v[5],"fields as written"); }
  else { sym_reach("rejected"); }
  Osmium::OSM::Node n; n.timestamp((time_t)77); bool th2=false; try{ n.timestamp(b); }catch(std::invalid_argument&){ th2=true; }
  sym_assert(th2==thrown,"object setter rejects the same texts"); sym_assert(n.timestamp()==(th2?77:424242),"a rejected text leaves the object's timestamp unchanged");
  sym_observe(thrown);
}
