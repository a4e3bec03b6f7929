//@ bounds: anonymous and file backed mappings of one byte values; up to 2 stores at ids around every growth boundary (0, 1, last before, first behind, one and two growth steps behind), arbitrary values; every mmap, mremap, munmap, ftruncate, open, unlink and tmpfile call may fail (one failure per run); new, existing (larger) and temporary backing files, removed or kept
//@ reach: anon,file,grown,failed,tmp,keep
//@ variant quick: n2 -DVN=2
//@ variant thorough: n3 -DVN=3
#include "sym.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <new>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
// ---- model of the calls; at most one of them fails
static int failat=-1, calls=0; static bool failed=false;
static bool fault(){ if(calls++==failat){ failed=true; return true; } return false; }
static unsigned char* fdata=0; static size_t fsize_=0; static bool fdopen_=false, linked=false; static int opens=0, closes=0;
struct Map { unsigned char* p; size_t len; bool file; bool alive; }; static Map maps[16]; static int nmaps=0;
static void* vm_mmap(void* a,size_t len,int prot,int flags,int fd,off_t off){ sym_assert(len>0&&off==0,"mapping request"); if(fault()){ errno=ENOMEM; return MAP_FAILED; }
  unsigned char* p=(unsigned char*)calloc(len,1); bool file=!(flags&MAP_ANONYMOUS); sym_assert((prot&(PROT_READ|PROT_WRITE))==(PROT_READ|PROT_WRITE),"mapping is readable and writable");
  if(file){ sym_assert(fd==7&&fdopen_,"the backing file is open"); sym_assert(flags&MAP_SHARED,"file mapping is shared"); sym_assert(fsize_>=len,"the file is as large as the mapping"); memcpy(p,fdata,len<fsize_?len:fsize_); }
  maps[nmaps].p=p; maps[nmaps].len=len; maps[nmaps].file=file; maps[nmaps].alive=true; nmaps++; return p; }
static int findmap(void* a){ for(int i=0;i<nmaps;i++) if(maps[i].alive&&maps[i].p==a) return i; return -1; }
static int vm_munmap(void* a,size_t len){ int i=findmap(a); sym_assert(i>=0,"only mapped memory is unmapped"); if(i<0){ errno=EINVAL; return -1; } sym_assert(maps[i].len==len,"the whole mapping is unmapped"); if(maps[i].file) memcpy(fdata,maps[i].p,len); if(fault()){ errno=EINVAL; return -1; } maps[i].alive=false; free(maps[i].p); return 0; }
static void* vm_mremap(void* a,size_t olen,size_t nlen,int flags,...){ int i=findmap(a); sym_assert(i>=0,"only mapped memory is remapped"); if(i<0){ errno=EINVAL; return MAP_FAILED; } sym_assert(maps[i].len==olen,"old length is right"); sym_assert(flags&MREMAP_MAYMOVE,"may move"); if(fault()){ errno=ENOMEM; return MAP_FAILED; } sym_reach("grown"); unsigned char* p=(unsigned char*)calloc(nlen,1); memcpy(p,a,olen<nlen?olen:nlen); free(a); maps[i].p=p; maps[i].len=nlen; return p; }
static int vm_open(const char* n,int fl,...){ sym_assert((fl&O_ACCMODE)==O_RDWR&&(fl&O_CREAT)&&!(fl&(O_TRUNC|O_APPEND)),"backing file is opened for reading and writing"); sym_assert(!strcmp(n,"store"),"name"); if(fault()){ errno=EACCES; return -1; } opens++; fdopen_=true; linked=true; return 7; }
static int vm_close(int fd){ sym_assert(fd==7&&fdopen_,"only the open descriptor is closed"); fdopen_=false; closes++; return 0; }
static int vm_unlink(const char* n){ sym_assert(!strcmp(n,"store"),"only the backing file is removed"); if(fault()){ errno=EACCES; return -1; } linked=false; return 0; }
static int vm_ftruncate(int fd,off_t len){ sym_assert(fd==7&&fdopen_,"the backing file is open"); if(fault()){ errno=ENOSPC; return -1; } unsigned char* p=(unsigned char*)calloc((size_t)len+1,1); if(fdata){ memcpy(p,fdata,fsize_<(size_t)len?fsize_:(size_t)len); free(fdata); } fdata=p; fsize_=(size_t)len; return 0; }
static int vm_fstat(int fd,struct stat* s){ sym_assert(fd==7&&fdopen_,"the backing file is open"); if(fault()){ errno=EIO; return -1; } memset(s,0,sizeof *s); s->st_size=(off_t)fsize_; return 0; }
static char tmpf; static FILE* vm_tmpfile(){ if(fault()) return 0; fdopen_=true; opens++; return (FILE*)&tmpf; }
static int vm_fileno(FILE* f){ sym_assert(f==(FILE*)&tmpf,"stream"); return 7; }
static int vm_fclose(FILE* f){ sym_assert(f==(FILE*)&tmpf,"stream"); return vm_close(7); }
static int vm_dup(int fd){ return -1; }
#define mmap vm_mmap
#define munmap vm_munmap
#define mremap vm_mremap
#define open(...) vm_open(__VA_ARGS__)
#define close(x) vm_close(x)
#define unlink vm_unlink
#define ftruncate vm_ftruncate
#define fstat vm_fstat
#define tmpfile vm_tmpfile
#define fileno vm_fileno
#define fclose vm_fclose
#define dup vm_dup
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
using namespace Osmium::Storage::ById;
template<class S> static void ops(S& s){
  const uint64_t inc=10*1024*1024; static const uint64_t IDS[]={0,1,inc-1,inc,inc+1,2*inc,2*inc+1};
  int n=sym_choice("n",1,VN); uint64_t id[VN]; unsigned char v[VN];
  for(int i=0;i<n;i++){ id[i]=IDS[sym_choice("id",0,6)]; v[i]=sym_u8("val"); s.set(id[i],v[i]); sym_assert(s.size()>id[i],"size covers the stored id");
    if(i==n-1) for(int j=0;j<n;j++){ unsigned char e=v[j]; for(int k=j+1;k<n;k++) if(id[k]==id[j]) e=v[k]; sym_assert(s[id[j]]==e,"growing the store keeps every value"); sym_observe(s[id[j]]); } }
  if(sym_flip("clear")) s.clear();
}
extern "C" void harness_main(){
  failat=sym_choice("failat",-1,11); int kind=sym_choice("kind",0,3); bool threw=false;
  try {
    if(kind==0){ sym_reach("anon"); MmapAnon<unsigned char> s; ops(s); }
    else if(kind==1){ sym_reach("tmp"); MmapFile<unsigned char> s; ops(s); }
    else { sym_reach("file"); bool keep=sym_flip("keep"); if(kind==3){ fsize_=5; fdata=(unsigned char*)calloc(6,1); memcpy(fdata,"abcde",5); linked=true; }
      { MmapFile<unsigned char> s("store",!keep); if(!failed) sym_assert(linked==keep,"file is removed exactly when asked to"); if(keep) sym_reach("keep"); ops(s); }
      if(keep&&!failed&&kind==3) sym_assert(fsize_>=5,"an existing file is not shortened"); } }
  catch(std::bad_alloc&){ threw=true; }
  if(failat>=0) sym_assume(failed||threw||failat==0); if(failed) sym_reach("failed"); if(threw) sym_assert(failed,"no error without a failing call");
  for(int i=0;i<nmaps;i++) if(!failed) sym_assert(!maps[i].alive,"every mapping is released"); 
  sym_assert(closes==opens,"every file is closed once"); 
}
