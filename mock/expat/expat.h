// Stand-in for expat: delivers the element events a harness scripts (vx_events) to the registered
// handlers, in order and properly nested, as the real parser does.
#ifndef VERIF_EXPAT_H
#define VERIF_EXPAT_H
#include <stdlib.h>
#define XMLCALL
typedef char XML_Char; typedef char XML_LChar; typedef unsigned long XML_Size;
enum XML_Status { XML_STATUS_ERROR=0, XML_STATUS_OK=1, XML_STATUS_SUSPENDED=2 }; 
enum XML_Error { XML_ERROR_NONE=0, XML_ERROR_NO_MEMORY, XML_ERROR_SYNTAX, XML_ERROR_NO_ELEMENTS, XML_ERROR_INVALID_TOKEN, XML_ERROR_ABORTED };
typedef void (*XML_StartElementHandler)(void*,const XML_Char*,const XML_Char**); typedef void (*XML_EndElementHandler)(void*,const XML_Char*); typedef void (*XML_CharacterDataHandler)(void*,const XML_Char*,int);
struct XML_ParserStruct { void* data; XML_StartElementHandler start; XML_EndElementHandler end; char* buf; int buflen; };
typedef XML_ParserStruct* XML_Parser; typedef unsigned char XML_Bool;
static int vx_parsers, vx_freed;
static int vx_events(XML_Parser p,const char* buf,int len,int final); // supplied by the harness: XML_STATUS_*
static inline XML_Parser XML_ParserCreate(const XML_Char*){ XML_Parser p=new XML_ParserStruct(); p->data=0; p->start=0; p->end=0; p->buf=0; p->buflen=0; vx_parsers++; return p; }
static inline void XML_ParserFree(XML_Parser p){ if(!p) return; vx_freed++; free(p->buf); delete p; }
static inline void XML_SetUserData(XML_Parser p,void* d){ p->data=d; }
static inline void* XML_GetUserData(XML_Parser p){ return p->data; }
static inline void XML_SetElementHandler(XML_Parser p,XML_StartElementHandler s,XML_EndElementHandler e){ p->start=s; p->end=e; }
static inline void XML_SetStartElementHandler(XML_Parser p,XML_StartElementHandler s){ p->start=s; }
static inline void XML_SetEndElementHandler(XML_Parser p,XML_EndElementHandler e){ p->end=e; }
static inline void XML_SetCharacterDataHandler(XML_Parser,XML_CharacterDataHandler){}
static inline void* XML_GetBuffer(XML_Parser p,int n){ free(p->buf); p->buf=(char*)malloc(n); p->buflen=n; return p->buf; }
static inline XML_Status XML_ParseBuffer(XML_Parser p,int len,int final){ return (XML_Status)vx_events(p,p->buf,len,final); }
static inline XML_Status XML_Parse(XML_Parser p,const char* b,int len,int final){ return (XML_Status)vx_events(p,b,len,final); }
static inline XML_Error XML_GetErrorCode(XML_Parser){ return XML_ERROR_SYNTAX; }
static inline XML_Size XML_GetCurrentLineNumber(XML_Parser){ return 1; }
static inline XML_Size XML_GetErrorLineNumber(XML_Parser){ return 1; }
static inline XML_Size XML_GetCurrentColumnNumber(XML_Parser){ return 1; }
static inline XML_Size XML_GetErrorColumnNumber(XML_Parser){ return 1; }
static inline const XML_LChar* XML_ErrorString(enum XML_Error){ return "syntax error"; }
#endif
