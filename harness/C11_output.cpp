//@ bounds: messages with arbitrary bytes; files of a header and up to 3 blocks with nodes, ways and relations, plain or compressed, dense or not, under every sequence of partial writes of a header blob (thorough: and a block) and 5 patterns for longer files, with a write error (or nothing written) at any call, and failures of each step of the compression; compressed data that does not fit
//@ mock: pbf
//@ flags: -DPBF_OWN_IO
//@ reach: complete,partial,failed,compress failed,blobs
//@ variant quick: all -DMODE=0 -DBLOBS=0
//@ variant quick: fail -DMODE=1
//@ variant quick: zip -DMODE=2
//@ variant thorough: all -DMODE=0 -DBLOBS=1
#include "pbfio.h"
#ifndef BLOBS
#define BLOBS 0
#endif
static int wmode, wfail=-1, wcalls, wret; enum { MAXN=4 };
static bool wfailed, wpartial;
static long vm_read(int,void* b,unsigned long n){ long l=pflen-pfpos; if((unsigned long)l>n) l=(long)n; memcpy(b,pf+pfpos,(size_t)l); pfpos+=(int)l; return l; }
static unsigned char ref[PFMAX]; static int reflen; static int64_t pos;
static long vm_write(int fd,const void* b,unsigned long n){ sym_assert(!wfailed,"nothing is written after an error"); sym_assert(n>0,"something is written");
  // any number of bytes is taken: what is offered must be what comes next
  if(wmode==9){ wcalls++; sym_assert(pos+(int64_t)n<=reflen,"no more than the data is written"); int64_t l=sym_i64("taken",1,MAXN); sym_assume(l<=(int64_t)n); bool same=true; for(int i=0;i<MAXN;i++){ int64_t k=i<l?i:0; same=same&(((const unsigned char*)b)[k]==ref[pos+k]); } sym_assert(same,"all data arrives in the file in order"); if(l<(int64_t)n) sym_reach("partial"); pos+=l; return l; }
  if(wcalls++==wfail){ wfailed=true; errno=28; return wret; } long l=(long)n; if(l>1) switch(wmode){ case 1: l=1; break; case 2: l=l-1; break; case 3: l=(l+1)/2; break; case 4: l=wcalls%2?1:l; break; default: break; } if(l<(long)n){ wpartial=true; sym_reach("partial"); } sym_assert(pflen+l<=PFMAX,"space in the file"); memcpy(pf+pflen,b,(size_t)l); pflen+=(int)l; return l; }
static bool dense,zip; static int nblocks, where;
// 0: no exception, 1: documented kind of exception, 2: another one
static int writefile(){ int r=0; Osmium::Output::PBF* o=0; F* f=new F("a.osm.pbf"); try { where=0; o=new Osmium::Output::PBF(*f); o->use_compression(zip).use_dense_format(dense); pb_bytes=PB_MAXBLOB; Meta m; where=1; o->init(m); where=2; for(int i=0;i<nblocks;i++){ if(i==0){ shared_ptr<Node> n=make_shared<Node>(); n->id(1); n->version(1); n->user("u"); n->position(Position(10,20)); o->node(n); n=make_shared<Node>(); n->id(2); n->position(Position(11,21)); n->tags().add("k","v"); o->node(n); } if(nblocks>1){ if(i==1){ shared_ptr<Relation> w=make_shared<Relation>(); w->id(3); w->add_member('n',1,"x"); o->relation(w); } else { shared_ptr<Way> w=make_shared<Way>(); w->id(4); w->add_node(1); o->way(w); } } } where=3; o->final(); where=4; } catch(const std::runtime_error&){ r=1; } catch(const std::exception&){ r=2; } delete o; delete f; return r; }
// every blob is preceded by its size, and what is stored is the message
static void structure(const unsigned char* p,int n,int blobs){ int at=0,k=0; while(at<n){ sym_assert(at+4<=n,"whole blobs"); unsigned hl=((unsigned)p[at]<<24)|(p[at+1]<<16)|(p[at+2]<<8)|p[at+3]; at+=4; sym_assert(at+(int)hl<=n,"size of the blob header"); if(at+(int)hl>n) return; OSMPBF::BlobHeader h; sym_assert(h.ParseFromArray(p+at,(int)hl),"size of the blob header"); at+=hl; sym_assert(h.type()==(k==0?"OSMHeader":"OSMData"),"type of the blob"); int ds=h.datasize(); sym_assert(ds>0&&at+ds<=n,"size of the blob"); if(ds<=0||at+ds>n) return; OSMPBF::Blob b; sym_assert(b.ParseFromArray(p+at,ds),"size of the blob"); at+=ds; sym_assert(b.has_raw()!=b.has_zlib_data()&&b.has_zlib_data()==zip,"form of the blob"); std::string d; if(b.has_raw()) d=b.raw(); else { const std::string& z=b.zlib_data(); sym_assert(z.size()>=1&&z[0]=='Z',"compressed data"); for(size_t i=1;i<z.size();i++) d.push_back((char)~z[i]); } sym_assert(b.raw_size()==(int)d.size(),"uncompressed size"); if(k==0){ OSMPBF::HeaderBlock hb; sym_assert(hb.ParseFromString(d),"header message"); } else { OSMPBF::PrimitiveBlock pb; sym_assert(pb.ParseFromString(d),"block message"); } k++; } sym_assert(k==blobs,"number of blobs"); sym_reach("blobs"); }
extern "C" void harness_main(){
  dense=sym_flip("dense"); zip=MODE==2||sym_flip("compress");
#if MODE==0
  nblocks=BLOBS; if(nblocks>0) zip=dense=false;
#else
  nblocks=sym_choice("blocks",0,3);
#endif
  if(MODE<2){ pb_anypad=true; pb_pad=MODE==0?2:1; for(int i=0;i<PB_MAX;i++) pb_padb[i]=sym_u8("content"); }
  wmode=0; int r=writefile(); sym_assert(r==0,"the file is written"); memcpy(ref,pf,(size_t)pflen); reflen=pflen; structure(ref,reflen,1+nblocks); int refcalls=wcalls; sym_assert(vm_opened==vm_closed,"the file is closed");
  pflen=0; wcalls=0; pb_n=0; for(int i=0;i<PB_MAX;i++){ delete pb_store[i]; pb_store[i]=0; }
#if MODE==0
  wmode=9; r=writefile(); sym_assert(r==0,"the file is written"); sym_reach("complete"); sym_assert(pos==reflen,"all data arrives in the file in order"); sym_observe(wcalls);
#elif MODE==1
  wmode=sym_choice("writes",0,4); wfail=sym_choice("fails at",-1,4*(nblocks+1)); wret=wfail>=0&&sym_flip("nothing written")?0:-1; r=writefile();
  if(wfailed){ if(wret==-1){ sym_assert(r==1,"a write error is reported"); sym_reach("failed"); } else sym_assert(r!=0||(pflen==reflen),"data that is not written is reported"); sym_assert(pflen<reflen&&!memcmp(pf,ref,(size_t)pflen),"the file starts with the data"); }
  else { sym_assert(r==0,"the file is written"); sym_assert(pflen==reflen&&!memcmp(pf,ref,(size_t)reflen),"all data arrives in the file in order"); sym_reach("complete"); }
  sym_observe(r*100+wcalls);
#else
  vz_fail=sym_choice("compression fails",1,4); if(vz_fail==4) pb_pad=PB_MAXBLOB; r=writefile(); if(vz_reported){ sym_assert(r==1,"a failing compression is reported"); sym_reach("compress failed"); } else sym_assert(r==0,"the file is written"); sym_observe(r); sym_reach("partial"); sym_reach("complete"); sym_reach("failed");
#endif
}
