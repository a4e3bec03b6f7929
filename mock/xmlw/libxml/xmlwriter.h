// Recording stand-in for the libxml2 text writer: keeps the element tree that the calls describe and
// reports misuse the way the real writer does (negative result).
#ifndef VERIF_XMLWRITER_H
#define VERIF_XMLWRITER_H
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <string>
#include "sym.h"
typedef unsigned char xmlChar;
#define BAD_CAST (xmlChar*)
struct VxEl { std::string name; int parent; int kids; bool closed; int na; std::string an[12]; std::string av[12]; };
enum { VXMAX=40 };
struct VxDoc { VxEl el[VXMAX]; int n; int cur; bool started; bool misuse; bool dead; bool reported; bool pending; bool freed; int ops; int failat; int fd;
  VxDoc() : n(0),cur(-1),started(false),misuse(false),dead(false),reported(false),pending(false),freed(false),ops(0),failat(-1),fd(-1) {} };
static VxDoc vx;
struct _xmlOutputBuffer { int fd; }; typedef _xmlOutputBuffer* xmlOutputBufferPtr;
struct _xmlTextWriter { VxDoc* d; xmlOutputBufferPtr out; }; typedef _xmlTextWriter* xmlTextWriterPtr;
static inline int vx_op(xmlTextWriterPtr w){ if(!w||vx.freed){ vx.misuse=true; return -1; } if(vx.ops++==vx.failat){ vx.reported=true; return -1; } vx.pending=true; return 0; }
static inline int vx_bad(){ vx.misuse=true; return -1; }
static inline xmlOutputBufferPtr xmlOutputBufferCreateFd(int fd, void*){ xmlOutputBufferPtr b=new _xmlOutputBuffer(); b->fd=fd; vx.fd=fd; return b; }
static inline xmlTextWriterPtr xmlNewTextWriter(xmlOutputBufferPtr o){ if(!o) return 0; xmlTextWriterPtr w=new _xmlTextWriter(); w->out=o; return w; }
static inline int xmlTextWriterSetIndent(xmlTextWriterPtr w,int){ return w?0:-1; }
static inline int xmlTextWriterSetIndentString(xmlTextWriterPtr w,const xmlChar* s){ return w&&s?0:-1; }
static inline int xmlTextWriterStartDocument(xmlTextWriterPtr w,const char*,const char*,const char*){ if(vx_op(w)<0) return -1; if(vx.started||vx.n) return vx_bad(); vx.started=true; return 1; }
static inline int xmlTextWriterStartElement(xmlTextWriterPtr w,const xmlChar* n){ if(vx_op(w)<0) return -1; if(!n||!*n||vx.n>=VXMAX||(vx.cur<0&&vx.n>0)) return vx_bad(); VxEl& e=vx.el[vx.n]; e.name=(const char*)n; e.parent=vx.cur; e.kids=0; e.closed=false; e.na=0; if(vx.cur>=0) vx.el[vx.cur].kids++; vx.cur=vx.n++; return 1; }
static inline int xmlTextWriterEndElement(xmlTextWriterPtr w){ if(vx_op(w)<0) return -1; if(vx.cur<0) return vx_bad(); vx.el[vx.cur].closed=true; vx.cur=vx.el[vx.cur].parent; return 1; }
static inline int xmlTextWriterFullEndElement(xmlTextWriterPtr w){ return xmlTextWriterEndElement(w); }
static inline int vx_attr(const xmlChar* n,const std::string& v){ if(vx.cur<0||vx.el[vx.cur].kids||vx.el[vx.cur].na>=12||!n||!*n) return vx_bad(); VxEl& e=vx.el[vx.cur]; for(int i=0;i<e.na;i++) if(e.an[i]==(const char*)n) return vx_bad(); e.an[e.na]=(const char*)n; e.av[e.na]=v; e.na++; return 1; }
static inline int xmlTextWriterWriteAttribute(xmlTextWriterPtr w,const xmlChar* n,const xmlChar* v){ if(vx_op(w)<0) return -1; if(!v) return vx_bad(); return vx_attr(n,(const char*)v); }
extern "C" int __sym_is_symbolic(uint64_t);
static inline std::string vx_format(const char* f,va_list a){
#ifdef VERIF_NATIVE
  char b[400]; vsnprintf(b,sizeof b,f,a); return b;
#else
  std::string r; for(;*f;f++){ if(*f!='%'){ r+=*f; continue; } f++; if(*f=='%'){ r+='%'; continue; } int prec=6; if(*f=='.'){ f++; prec=0; while(*f>='0'&&*f<='9') prec=prec*10+(*f++-'0'); } int l=0; while(*f=='l'){ l++; f++; } if(*f=='j'||*f=='z'){ l=1; f++; }
    char t[24]; int k=0; uint64_t v=0; char kind;
    if(*f=='d'||*f=='i'){ v=l?(uint64_t)va_arg(a,long):(uint64_t)(int64_t)va_arg(a,int); kind='I'; } else if(*f=='u'){ v=l?va_arg(a,unsigned long):(uint64_t)va_arg(a,unsigned); kind='U'; }
    else if(*f=='f'||*f=='g'||*f=='e'){ double d=va_arg(a,double); memcpy(&v,&d,8); kind='D'; } else if(*f=='s'){ r+=va_arg(a,const char*); continue; } else if(*f=='c'){ r+=(char)va_arg(a,int); continue; } else __builtin_trap();
    t[k++]=2; t[k++]=kind; t[k++]=(char)('0'+prec); t[k++]=*f=='f'?'B':*f=='e'?'C':'A'; for(int i=0;i<16;i++) t[k++]=(char)('a'+((v>>(4*i))&15)); r.append(t,20); }
  return r;
#endif
}
static inline int xmlTextWriterWriteFormatAttribute(xmlTextWriterPtr w,const xmlChar* n,const char* f,...){ if(vx_op(w)<0) return -1; va_list a; va_start(a,f); std::string s=vx_format(f,a); va_end(a); return vx_attr(n,s); }
static inline int xmlTextWriterFlush(xmlTextWriterPtr w){ if(vx_op(w)<0) return -1; if(vx.dead){ vx.reported=true; return -1; } vx.pending=false; return 1; }
static inline int xmlTextWriterEndDocument(xmlTextWriterPtr w){ if(vx_op(w)<0) return -1; while(vx.cur>=0){ vx.el[vx.cur].closed=true; vx.cur=vx.el[vx.cur].parent; } return xmlTextWriterFlush(w); }
static inline void xmlFreeTextWriter(xmlTextWriterPtr w){ if(!w||vx.freed){ vx.misuse=true; return; } vx.freed=true; if(!vx.dead) vx.pending=false; delete w->out; delete w; }
#endif
