// Drives the XML reader through its public interface with scripted element events.
#include "sym.h"
#include "vmsys.h"
#include <osmium/input/xml.hpp>
#include "capture.h"
using namespace Osmium::OSM; typedef Osmium::OSMFile F;
struct XE { int start; const char* name; const char* at[24]; int na; };
enum { XMAXE=40 };
static XE xe[XMAXE]; static int nxe, xpos, xcut, xerr, xreads, xreaderr; static std::string pool[160]; static int npool;
static const char* ps(const std::string& s){ pool[npool]=s; return pool[npool++].c_str(); }
static XE& xs(const char* n){ XE& e=xe[nxe++]; e.start=1; e.name=n; e.na=0; e.at[0]=0; return e; }
static void xend(const char* n){ XE& e=xe[nxe++]; e.start=0; e.name=n; e.na=0; e.at[0]=0; }
static void xa(XE& e,const char* k,const char* v){ e.at[e.na++]=k; e.at[e.na++]=v; e.at[e.na]=0; }
static long vm_write(int,const void*,unsigned long n){ return (long)n; }
static long vm_read(int fd,void*,unsigned long n){ xreads++; if(xreads==xreaderr) return -1; if(xpos<nxe&&xpos!=xerr) return n<100?(long)n:100; return 0; }
static int vx_events(XML_Parser p,const char*,int len,int final){ int stop=xpos<xcut&&!final?xcut:nxe; while(xpos<stop){ if(xpos==xerr) return XML_STATUS_ERROR; XE& e=xe[xpos++]; if(e.start){ if(p->start) p->start(p->data,e.name,e.at); } else if(p->end) p->end(p->data,e.name); } if(final&&xpos==xerr) return XML_STATUS_ERROR; return XML_STATUS_OK; }
static Snap want[CAPMAX]; static int nwant;
enum { OKAY=0, PARSEERR=1, OTHERERR=2, SYSERR=3 };
template<class H> static int xparse(H& cap,const char* name="a.osm"){ int r=OKAY; { F f(name); try { Osmium::Input::XML<H> x(f,cap); x.parse(); } catch(const std::length_error&){ r=OTHERERR; } catch(const std::runtime_error&){ r=PARSEERR; } catch(const std::invalid_argument&){ r=OTHERERR; } catch(const std::range_error&){ r=OTHERERR; } catch(const F::SystemError&){ r=SYSERR; } } return r; }
static void xreset(){ nxe=xpos=xreads=nwant=npool=0; xcut=-1; xerr=-1; xreaderr=-1; }
static const char* TSTR[]={"1970-01-01T00:00:01Z","2012-07-01T12:34:56Z","2105-12-31T23:59:59Z"}; static const int64_t TVAL[]={1,1341146096,4291747199};
static std::string xtext(int len){ char b[8]; sym_str("text",b,len); return b; }
static const char* xnum(int64_t v){ return ps(vm_num(v)); }
