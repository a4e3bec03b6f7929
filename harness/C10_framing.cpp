//@ bounds: messages with arbitrary bytes; files of 2 blobs (header and data) under every sequence of short reads (all 1024) and of one longer blob; files of 1-3 blobs (plain or compressed, with a blob of an unknown type) cut after any byte, with 5 ways of splitting reads and a read error at any call; arbitrary header size bytes, blob sizes, uncompressed sizes, bytes of blob headers, blobs and block messages; sizes around the limits (limits of the library scaled down to 16 and 64 bytes); blobs without data, in LZMA, with both, corrupt, failing decompression
//@ mock: pbf
//@ flags: -DPBF_OWN_IO
//@ reach: accepted,rejected,cut,clean end
//@ variant quick: split -DMODE=0 -DPAD=0
//@ variant quick: split1 -DMODE=0 -DPAD=2 -DWHOLE=1
//@ variant quick: cut -DMODE=1 -DPAD=0
//@ variant thorough: cut1 -DMODE=1 -DPAD=1
//@ variant quick: sizes -DMODE=2
//@ variant quick: limits -DMODE=3
//@ variant thorough: split3 -DMODE=0 -DPAD=0 -DWHOLE=3
#include "pbfio.h"
using namespace OSMPBF;
#ifndef WHOLE
#define WHOLE 2
#endif
static int rmode, rfail=-1, rcalls, ends; static bool rfailed, tail;
static long vm_read(int,void* b,unsigned long n){ sym_assert(n<=PB_MAXBLOB,"reads fit into the buffer"); if(rcalls++==rfail){ rfailed=true; errno=EIO; return -1; } long l=pflen-pfpos; if(!l&&n&&!tail) sym_assert(++ends<8,"reading ends at the end of the file"); if((unsigned long)l>n) l=(long)n;
  if(l>1) switch(rmode){ case 1: l=1; break; case 2: l=l-1; break; case 3: l=(l+1)/2; break; case 4: l=rcalls%2?1:l; break; case 9: l=sym_choice("taken",1,(int)l); break; default: break; }
  memcpy(b,pf+pfpos,(size_t)l); pfpos+=(int)l; if(tail&&(unsigned long)l<n){ memset((char*)b+l,'p',n-l); l=(long)n; } return l; }
static long vm_write(int,const void*,unsigned long n){ sym_assert(false,"reading does not write"); return (long)n; }
static PrimitiveBlock* block(int id){ PrimitiveBlock* b=new PrimitiveBlock; b->mutable_stringtable()->add_s(""); OSMPBF::Node* o=b->add_primitivegroup()->add_nodes(); o->set_id(id); o->set_lat(id); o->set_lon(id); return b; }
static void putblock(int id,bool zip,const char* type="OSMData"){ PrimitiveBlock* b=block(id); pfblob(type,*b,zip); delete b; }
static void puthead(){ HeaderBlock* h=new HeaderBlock; h->add_required_features("DenseNodes"); pfblob("OSMHeader",*h,false); delete h; }
static void prefix(Cap& c,int most){ sym_assert(c.n<=most,"no objects that are not in the file"); for(int i=0;i<c.n;i++) sym_assert(c.s[i].id==i+1&&c.s[i].x==i+1,"objects in the order of the file"); }
static void check(int r,Cap& c,bool good,int n){ if(good){ sym_assert(r==OKAY,"a complete file is read"); sym_assert(c.n==n,"all objects are delivered"); sym_reach("accepted"); } else { sym_assert(r!=OKAY,"a broken file is reported"); sym_assert(r==RUNTIME,"a broken file is reported"); sym_reach("rejected"); } prefix(c,n); sym_assert(vm_opened==vm_closed,"the file is closed"); sym_observe(r*10+c.n); }
#if MODE==0
extern "C" void harness_main(){ rmode=9; pb_anypad=true; pb_pad=PAD; for(int i=0;i<PB_MAX;i++) pb_padb[i]=sym_u8("content"); if(WHOLE==1) putblock(1,sym_flip("compress")); else if(WHOLE==3) putblock(1,true); else puthead(); if(WHOLE>1) putblock(WHOLE-1,false); if(WHOLE==3) putblock(3,false); vz_bufsize=PB_MAXBLOB; Cap c; int r=pfread(c); check(r,c,true,WHOLE==3?3:1); sym_reach("cut"); sym_reach("clean end"); sym_reach("rejected"); }
#elif MODE==1
extern "C" void harness_main(){ pb_anypad=true; pb_pad=PAD; for(int i=0;i<PB_MAX;i++) pb_padb[i]=sym_u8("content"); int ends[5],n=0,objs[5],id=0; ends[0]=0; objs[0]=0; bool zip=sym_flip("compress"), other=sym_flip("other"); int blobs=sym_choice("blobs",0,3); for(int i=0;i<blobs;i++){ if(i==0&&zip) puthead(); else if(i==1&&other) putblock(99,zip,"Other"); else putblock(++id,zip); n++; ends[n]=pflen; objs[n]=id; }
  int cut=sym_choice("length",0,pflen), at=-1, k=0; for(int i=0;i<=n;i++){ if(ends[i]==cut) at=i; if(ends[i]<=cut) k=i; } pflen=cut; rmode=sym_choice("reads",0,4); vz_bufsize=PB_MAXBLOB; if(sym_flip("fails")) rfail=sym_choice("call",0,rmode==1?14+6*PAD:5); Cap c; int r=pfread(c); if(at<0) sym_reach("cut"); else sym_reach("clean end");
  if(rfailed){ sym_assert(r==RUNTIME,"a read error is reported"); prefix(c,objs[k]); } else check(r,c,at>=0,objs[k]); if(at<0&&!rfailed) sym_assert(c.n==objs[k],"objects before the end are delivered"); }
#elif MODE==2
static void frame(const unsigned char* size,const std::string& head,const std::string& blob){ pfput(size,4); pfput(head.data(),(int)head.size()); pfput(blob.data(),(int)blob.size()); }
extern "C" void harness_main(){ vz_bufsize=PB_MAXBLOB; tail=sym_flip("more data"); if(!tail) putblock(1,false); std::string d,s,hs; int what=sym_choice("what",0,8); bool zip=what==3||what==7||sym_flip("compress"); PrimitiveBlock* b=block(tail?1:2); b->SerializeToString(&d); delete b; bool good=true; int before=tail?0:1;
  if(what==4){ char x[3]; sym_str("text",x,2); if(!(x[0]==d[0]&&x[1]==d[1])) good=false; sym_assume((unsigned char)x[1]>=0x20+pb_n||true); d=std::string(x,2); }
  std::string z="Z"; for(size_t i=0;i<d.size();i++) z.push_back((char)~d[i]); Blob* o=new Blob; if(zip) o->set_zlib_data(z); else o->set_raw(d); o->set_raw_size((int)d.size());
  if(what==3){ int32_t rs=sym_i32("raw size"); o->set_raw_size(rs); if(rs!=(int)d.size()) good=false; } if(what==5){ o->Clear(); good=false; switch(sym_choice("kind",0,2)){ case 0: break; case 1: o->set_lzma_data(d); o->set_raw_size((int)d.size()); break; default: o->set_raw_size(5); } } if(what==7){ switch(sym_choice("kind",0,4)){ case 0: vz_fail=4; good=false; break; case 1: { char c[2]; sym_str("byte",c,1); if(c[0]!='Z') good=false; z[0]=c[0]; o->set_zlib_data(z); break; } case 2: o->set_zlib_data(""); good=false; break; case 3: o->set_zlib_data(z+std::string(sym_choice("more",1,2)==1?1:70,'q')); good=false; break; default: o->set_zlib_data(z.substr(0,z.size()-1)); good=false; } }
  if(what==6){ char x[3]; o->SerializeToString(&s); sym_str("text",x,2); if(!(x[0]==s[0]&&x[1]==s[1])) good=false; s=std::string(x,2); } else o->SerializeToString(&s); delete o;
  BlobHeader* h=new BlobHeader; h->set_type("OSMData"); h->set_datasize((int)s.size()); if(what==1){ int32_t ds=sym_i32("blob size"); h->set_datasize(ds); if(ds!=(int)s.size()) good=false; } h->SerializeToString(&hs); delete h;
  if(what==2){ char x[3]; sym_str("text",x,2); if(!(x[0]==hs[0]&&x[1]==hs[1])) good=false; hs=std::string(x,2); }
  unsigned char size[4]={0,0,0,(unsigned char)hs.size()}; if(what==0) for(int i=0;i<4;i++){ size[i]=(unsigned char)sym_u8("size"); if(size[i]!=(i==3?2:0)) good=false; }
  if(what==8){ static const char* T[]={"OSMHeader","Other","","OSMDat","OSMData2","osmdata"}; int t=sym_choice("type",0,5); h=new BlobHeader; h->set_type(T[t]); h->set_datasize((int)s.size()); h->SerializeToString(&hs); delete h; frame(size,hs,s); bool bad=t==0; if(!tail) putblock(2,false); tail=false; Cap c; int r=pfread(c); if(bad) check(r,c,false,before); else check(r,c,true,2*before); return; }
  // another message of the same kind in the file may be named by chance: then that one is read
  bool endless=tail; frame(size,hs,s); Cap c; if(endless&&good){ tail=false; } int r=pfread(c); if(good) check(r,c,true,before+1); else { sym_assert(r==RUNTIME||(r==OKAY&&(what==2||what==4||what==6)&&!endless),"a broken file is reported"); sym_reach("rejected"); if(r==OKAY){ sym_assert(c.n==2&&c.s[0].id==1,"objects in the order of the file"); } else prefix(c,before); sym_assert(vm_opened==vm_closed,"the file is closed"); sym_observe(r*10+c.n); } sym_reach("cut"); sym_reach("clean end"); }
#else
extern "C" void harness_main(){ vz_bufsize=PB_MAXBLOB; int which=sym_choice("which",0,2), size=sym_choice("size",0,5); bool zip=which==2; PrimitiveBlock* b=block(1); std::string d,s,hs; if(which==2) pb_pad=PB_MAXBLOB-5+size; b->SerializeToString(&d); pb_pad=0; delete b; Blob* o=new Blob; std::string z="Z"; for(size_t i=0;i<d.size();i++) z.push_back((char)~d[i]); if(zip) o->set_zlib_data(z); else o->set_raw(d); o->set_raw_size((int)d.size()); if(which==1) pb_pad=PB_MAXBLOB-5+size; o->SerializeToString(&s); delete o; pb_pad=which==0?PB_MAXHEAD-5+size:0; BlobHeader* h=new BlobHeader; h->set_type("OSMData"); h->set_datasize((int)s.size()); h->SerializeToString(&hs); delete h; unsigned char n[4]={0,0,0,(unsigned char)hs.size()}; pfput(n,4); pfput(hs.data(),(int)hs.size()); pfput(s.data(),(int)s.size()); tail=true; if(size<=3) tail=false;
  Cap c; int r=pfread(c); if(size!=3) check(r,c,size<3,size<3?1:0); else { sym_assert(r==OKAY?c.n==1:r==RUNTIME&&c.n==0,"read or reported"); } sym_reach("cut"); sym_reach("clean end"); }
#endif
