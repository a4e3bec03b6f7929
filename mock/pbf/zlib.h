// Stand-in for zlib: "compression" turns every byte around and adds a check byte; buffer sizes are respected,
// failures can be injected, and buffers are checked to be used within their limits.
#ifndef VERIF_ZLIB_H
#define VERIF_ZLIB_H
#include "sym.h"
#include <stdint.h>
#include <string.h>
typedef unsigned char Byte, Bytef; typedef unsigned int uInt; typedef unsigned long uLong, uLongf; typedef void* voidpf;
typedef voidpf (*alloc_func)(voidpf,uInt,uInt); typedef void (*free_func)(voidpf,voidpf);
#define Z_NULL 0
#define Z_OK 0
#define Z_STREAM_END 1
#define Z_NEED_DICT 2
#define Z_STREAM_ERROR (-2)
#define Z_DATA_ERROR (-3)
#define Z_MEM_ERROR (-4)
#define Z_BUF_ERROR (-5)
#define Z_NO_FLUSH 0
#define Z_FINISH 4
#define Z_DEFAULT_COMPRESSION (-1)
#define Z_BEST_SPEED 1
#define Z_BEST_COMPRESSION 9
struct z_stream_s { const Bytef* next_in; uInt avail_in; uLong total_in; Bytef* next_out; uInt avail_out; uLong total_out; const char* msg; void* state; alloc_func zalloc; free_func zfree; voidpf opaque; int data_type; uLong adler, reserved; };
typedef z_stream_s z_stream; typedef z_stream* z_streamp;
static int vz_fail=0, vz_streams=0, vz_reported=0; // 1: init fails, 2: deflate fails, 3: end fails, 4: uncompress fails
static inline int deflateInit(z_streamp z,int){ sym_assert(z->zalloc==0&&z->zfree==0,"zlib uses its own memory management"); if(vz_fail==1){ vz_reported=1; return Z_MEM_ERROR; } vz_streams++; z->total_out=0; z->total_in=0; return Z_OK; }
static inline int deflate(z_streamp z,int flush){ sym_assert(flush==Z_FINISH,"all data is compressed"); if(vz_fail==2){ vz_reported=1; return Z_STREAM_ERROR; } if(z->avail_out<z->avail_in+1){ vz_reported=1; return Z_OK; } unsigned n=z->avail_in; *z->next_out++='Z'; for(unsigned i=0;i<n;i++) *z->next_out++=(Bytef)~*z->next_in++; z->avail_out-=n+1; z->avail_in=0; z->total_in=n; z->total_out=n+1; return Z_STREAM_END; }
static inline int deflateEnd(z_streamp){ vz_streams--; if(vz_fail==3){ vz_reported=1; return Z_DATA_ERROR; } return Z_OK; }
static inline uLong compressBound(uLong n){ return n+1; }
static inline int compress(Bytef* d,uLongf* dl,const Bytef* s,uLong n){ if(vz_fail==2) return Z_MEM_ERROR; if(*dl<n+1) return Z_BUF_ERROR; *d++='Z'; for(uLong i=0;i<n;i++) *d++=(Bytef)~*s++; *dl=n+1; return Z_OK; }
static unsigned long vz_bufsize=0; // real size of the buffer the reader unpacks into, if known
static inline int uncompress(Bytef* d,uLongf* dl,const Bytef* s,uLong n){ sym_assert(!vz_bufsize||*dl<=vz_bufsize,"the decompressor is told at most the size of its buffer"); if(vz_fail==4){ vz_reported=1; return Z_MEM_ERROR; } if(n<1||s[0]!='Z') return Z_DATA_ERROR; if(*dl<n-1) return Z_BUF_ERROR; for(uLong i=1;i<n;i++) *d++=(Bytef)~s[i]; *dl=n-1; return Z_OK; }
#endif
