// The two conversions of ICU the bindings use, as its documentation describes them.
#ifndef VERIF_USTRING_H
#define VERIF_USTRING_H
#include <stdint.h>
typedef uint16_t UChar; typedef int32_t UChar32;
enum UErrorCode { U_STRING_NOT_TERMINATED_WARNING=-124, U_ZERO_ERROR=0, U_ILLEGAL_ARGUMENT_ERROR=1, U_INVALID_CHAR_FOUND=10, U_BUFFER_OVERFLOW_ERROR=15 };
#define U_FAILURE(x) ((x)>U_ZERO_ERROR)
#define U_SUCCESS(x) ((x)<=U_ZERO_ERROR)
static inline void vu_end(int32_t n,int32_t cap,int32_t* len,UErrorCode* e){ if(len) *len=n; if(n>cap) *e=U_BUFFER_OVERFLOW_ERROR; else if(n==cap) *e=U_STRING_NOT_TERMINATED_WARNING; }
// next code point of UTF-8 text, or -1 where it is malformed
static inline UChar32 vu_next8(const unsigned char* s,int32_t n,int32_t& i){ unsigned c=s[i++]; if(c<0x80) return (UChar32)c; int k; UChar32 v, min; if(c>=0xc2&&c<0xe0){ k=1; v=c&0x1f; min=0x80; } else if(c>=0xe0&&c<0xf0){ k=2; v=c&0xf; min=0x800; } else if(c>=0xf0&&c<0xf5){ k=3; v=c&7; min=0x10000; } else return -1;
  for(;k>0;k--){ if(i>=n) return -1; unsigned d=s[i]; if((d&0xc0)!=0x80) return -1; v=v<<6|(UChar32)(d&0x3f); i++; } if(v<min||v>0x10ffff||(v>=0xd800&&v<0xe000)) return -1; return v; }
static inline UChar* u_strFromUTF8(UChar* d,int32_t cap,int32_t* len,const char* src,int32_t n,UErrorCode* e){ if(!e||U_FAILURE(*e)) return 0; if(!src||cap<0||n<-1||(!d&&cap>0)){ *e=U_ILLEGAL_ARGUMENT_ERROR; return 0; } if(n<0) for(n=0;src[n];n++) {}
  int32_t o=0; for(int32_t i=0;i<n;){ UChar32 c=vu_next8((const unsigned char*)src,n,i); if(c<0){ *e=U_INVALID_CHAR_FOUND; return 0; } if(c<0x10000){ if(o<cap) d[o]=(UChar)c; o++; } else { if(o+1<cap){ d[o]=(UChar)(0xd7c0+(c>>10)); d[o+1]=(UChar)(0xdc00|(c&0x3ff)); } o+=2; } } if(o<cap) d[o]=0; vu_end(o,cap,len,e); return d; }
static inline char* u_strToUTF8(char* d,int32_t cap,int32_t* len,const UChar* src,int32_t n,UErrorCode* e){ if(!e||U_FAILURE(*e)) return 0; if(!src||cap<0||n<-1||(!d&&cap>0)){ *e=U_ILLEGAL_ARGUMENT_ERROR; return 0; } if(n<0) for(n=0;src[n];n++) {}
  int32_t o=0; for(int32_t i=0;i<n;){ UChar32 c=src[i++]; if(c>=0xd800&&c<0xe000){ if(c>=0xdc00||i>=n||src[i]<0xdc00||src[i]>=0xe000){ *e=U_INVALID_CHAR_FOUND; return 0; } c=0x10000+((c-0xd800)<<10)+(src[i++]-0xdc00); } unsigned char b[4]; int k; if(c<0x80){ b[0]=(unsigned char)c; k=1; } else if(c<0x800){ b[0]=(unsigned char)(0xc0|c>>6); b[1]=(unsigned char)(0x80|(c&0x3f)); k=2; } else if(c<0x10000){ b[0]=(unsigned char)(0xe0|c>>12); b[1]=(unsigned char)(0x80|((c>>6)&0x3f)); b[2]=(unsigned char)(0x80|(c&0x3f)); k=3; } else { b[0]=(unsigned char)(0xf0|c>>18); b[1]=(unsigned char)(0x80|((c>>12)&0x3f)); b[2]=(unsigned char)(0x80|((c>>6)&0x3f)); b[3]=(unsigned char)(0x80|(c&0x3f)); k=4; }
    if(o+k<=cap) for(int j=0;j<k;j++) d[o+j]=(char)b[j]; o+=k; } if(o<cap) d[o]=0; vu_end(o,cap,len,e); return d; }
#endif
