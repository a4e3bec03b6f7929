// The PBF writer and reader around an in-memory file; protocol buffers and zlib are stand-ins (mock/pbf).
#include "sym.h"
#include "vmsys.h"
#include <zlib.h>
#include <osmpbf/osmpbf.h>
enum { PFMAX=4096 };
static unsigned char pf[PFMAX]; static int pflen, pfpos, pfchunk=1<<20, pfreads;
#ifndef PBF_OWN_IO
static long vm_read(int,void* b,unsigned long n){ pfreads++; long l=pflen-pfpos; if((unsigned long)l>n) l=(long)n; if(l>pfchunk) l=pfchunk; memcpy(b,pf+pfpos,(size_t)l); pfpos+=(int)l; return l; }
static long vm_write(int,const void* b,unsigned long n){ sym_assert(pflen+n<=PFMAX,"space in the file"); memcpy(pf+pflen,b,n); pflen+=(int)n; return (long)n; }
#endif
#include <osmium/input/pbf.hpp>
#include <osmium/output/pbf.hpp>
#include "capture.h"
using namespace Osmium::OSM; typedef Osmium::OSMFile F;
static void pfput(const void* b,int n){ sym_assert(pflen+n<=PFMAX,"space in the file"); memcpy(pf+pflen,b,(size_t)n); pflen+=n; }
static void pfframe(const char* type,const std::string& blob){ OSMPBF::BlobHeader* h=new OSMPBF::BlobHeader; h->set_type(type); h->set_datasize((int)blob.size()); std::string s; h->SerializeToString(&s); delete h; unsigned char z[4]={0,0,0,(unsigned char)s.size()}; pfput(z,4); pfput(s.data(),(int)s.size()); pfput(blob.data(),(int)blob.size()); }
static void pfblob(const char* type,const OSMPBF::MessageLite& m,bool zip){ std::string d; m.SerializeToString(&d); OSMPBF::Blob* b=new OSMPBF::Blob; b->set_raw_size((int)d.size()); if(zip){ std::string z="Z"; for(size_t i=0;i<d.size();i++) z.push_back((char)~d[i]); b->set_zlib_data(z); } else b->set_raw(d); std::string s; b->SerializeToString(&s); delete b; pfframe(type,s); }
enum { OKAY=0, RUNTIME=1, WRONGTYPE=2, OTHER=3 };
template<class H> static int pfread(H& cap,const char* name="a.osm.pbf"){ int r=OKAY; F f(name); try { typedef Osmium::Input::PBF<H> P; P* x=new P(f,cap); struct Del { P* p; ~Del(){ delete p; } } d={x}; x->parse(); } catch(const F::FileTypeError&){ r=WRONGTYPE; } catch(const std::runtime_error&){ r=RUNTIME; } catch(const std::exception&){ r=OTHER; } return r; }
