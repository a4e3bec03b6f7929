// Out-of-line C library functions used by the code under test (executed symbolically).
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <errno.h>
typedef _Bool bool_; 
#define bool _Bool
#define true 1
#define false 0
#undef isdigit
char* strcpy(char* d,const char* s){ size_t i=0; do{ d[i]=s[i]; }while(s[i++]); return d; }
char* strncpy(char* d,const char* s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* strcat(char* d,const char* s){ strcpy(d+strlen(d),s); return d; }
char* strchr(const char* s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* strrchr(const char* s,int c){ const char* r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
void* memchr(const void* s,int c,size_t n){ const unsigned char* p=(const unsigned char*)s; for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
char* strdup(const char* s){ size_t n=strlen(s)+1; char* p=(char*)__builtin_malloc(n); memcpy(p,s,n); return p; }
char* strstr(const char* h,const char* n){ size_t l=strlen(n); for(;;h++){ if(!strncmp(h,n,l)) return (char*)h; if(!*h) return 0; } }
int isdigit(int c){ return c>='0'&&c<='9'; }
int isspace(int c){ return c==' '||(c>=9&&c<=13); }
int tolower(int c){ return c>='A'&&c<='Z'?c+32:c; }
int toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
static uint64_t str2u(const char* s, const char** end, int base, bool* neg, bool* any, bool* ov){ if(s[0]==2&&(s[1]=='I'||s[1]=='U')){ uint64_t v=0; for(int i=0;i<16;i++) v|=(uint64_t)(uint8_t)(s[4+i]-'a')<<(4*i); *any=true; *ov=s[1]=='U'?(int64_t)v<0:false; *neg=s[1]=='I'?(int64_t)v<0:false; *end=s+20; return *neg?0-v:v; } while(isspace((unsigned char)*s)) s++; *neg=false; if(*s=='-'){ *neg=true; s++; } else if(*s=='+') s++; *any=false; *ov=false; uint64_t v=0; if((base==0||base==16)&&*s=='0'&&(s[1]=='x'||s[1]=='X')&&((s[2]>='0'&&s[2]<='9')||((s[2]|32)>='a'&&(s[2]|32)<='f'))){ base=16; s+=2; } else if(base==0) base=*s=='0'?8:10; for(;;s++){ int d; char c=*s; if(c>='0'&&c<='9') d=c-'0'; else if(c>='a'&&c<='z') d=c-'a'+10; else if(c>='A'&&c<='Z') d=c-'A'+10; else break; if(d>=base) break; *any=true; uint64_t nv=v*base+d; if(v>(UINT64_MAX-d)/base) *ov=true; v=nv; } *end=s; return v; }
long long strtoll(const char* s,char** e,int b){ const char* end; bool n,a,o; uint64_t v=str2u(s,&end,b,&n,&a,&o); if(e) *e=(char*)(a?end:s); if(o||(!n&&v>(uint64_t)INT64_MAX)||(n&&v>(uint64_t)INT64_MAX+1)){ errno=ERANGE; return n?INT64_MIN:INT64_MAX; } return n?(long long)(0-v):(long long)v; }
long strtol(const char* s,char** e,int b){ return strtoll(s,e,b); }
unsigned long long strtoull(const char* s,char** e,int b){ const char* end; bool n,a,o; uint64_t v=str2u(s,&end,b,&n,&a,&o); if(e) *e=(char*)(a?end:s); if(o){ errno=ERANGE; return UINT64_MAX; } return n?0-v:v; }
unsigned long strtoul(const char* s,char** e,int b){ return strtoull(s,e,b); }
long long atoll(const char* s){ return strtoll(s,0,10); }
long atol(const char* s){ return strtoll(s,0,10); }
int atoi(const char* s){ return (int)strtoll(s,0,10); }
static int vlow(int c){ return c>=65&&c<=90?c+32:c; }
int strncasecmp(const char* a,const char* b,size_t n){ for(size_t i=0;i<n;i++){ int x=vlow((unsigned char)a[i]), y=vlow((unsigned char)b[i]); if(x!=y) return x-y; if(!x) return 0; } return 0; }
int strcasecmp(const char* a,const char* b){ return strncasecmp(a,b,(size_t)-1); }
// decimal numbers: a token (printed double) or a plain decimal fraction that is exactly representable in two steps
double strtod(const char* s,char** e){ if(s[0]==2&&s[1]=='D'){ int prec=s[2]-'0', fmt=s[3]-'A'; uint64_t v=0; for(int i=0;i<16;i++) v|=(uint64_t)(uint8_t)(s[4+i]-'a')<<(4*i); if(e) *e=(char*)s+20; double d; memcpy(&d,&v,8); if(!(fmt==1?prec>=7:fmt==0?prec>=10:prec>=9)) d+=1.0; return d; }
  const char* b=s; while(isspace((unsigned char)*s)) s++; bool n=false; if(*s=='-'){ n=true; s++; } else if(*s=='+') s++; uint64_t v=0; int k=0,dig=0; while(isdigit((unsigned char)*s)){ v=v*10+(uint64_t)(*s++-'0'); dig++; } if(*s=='.'){ s++; while(isdigit((unsigned char)*s)){ v=v*10+(uint64_t)(*s++-'0'); dig++; k++; } } if(!dig){ if(e) *e=(char*)b; return 0; } if(e) *e=(char*)s; double p=1; for(int i=0;i<k;i++) p*=10; double d=(double)v/p; return n?-d:d; }
double atof(const char* s){ return strtod(s,0); }
// ---- time (UTC only)
static int64_t days_from_civil(int64_t y,unsigned m,unsigned d){ y-=m<=2; const int64_t era=(y>=0?y:y-399)/400; const unsigned yoe=(unsigned)(y-era*400); const unsigned doy=(153*(m+(m>2?-3:9))+2)/5+d-1; const unsigned doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+(int64_t)doe-719468; }
__attribute__((weak)) time_t timegm(struct tm* t){ int64_t y=t->tm_year+1900; int mo=t->tm_mon; y+=mo/12; mo%=12; if(mo<0){ mo+=12; y--; } return days_from_civil(y,(unsigned)mo+1,1)*86400+(int64_t)(t->tm_mday-1)*86400+t->tm_hour*3600ll+t->tm_min*60ll+t->tm_sec; }
__attribute__((weak)) time_t mktime(struct tm* t){ return timegm(t); }
__attribute__((weak)) struct tm* gmtime_r(const time_t* tp,struct tm* r){ int64_t t=*tp; int64_t days=t/86400, rem=t%86400; if(rem<0){ rem+=86400; days--; } r->tm_hour=(int)(rem/3600); r->tm_min=(int)(rem%3600/60); r->tm_sec=(int)(rem%60); r->tm_wday=(int)((days+4)%7); if(r->tm_wday<0) r->tm_wday+=7; int64_t z=days+719468; const int64_t era=(z>=0?z:z-146096)/146097; const unsigned doe=(unsigned)(z-era*146097); const unsigned yoe=(doe-doe/1460+doe/36524-doe/146096)/365; int64_t y=(int64_t)yoe+era*400; const unsigned doy=doe-(365*yoe+yoe/4-yoe/100); const unsigned mp=(5*doy+2)/153; const unsigned d=doy-(153*mp+2)/5+1; const unsigned m=mp<10?mp+3:mp-9; if(m<=2) y++; r->tm_year=(int)(y-1900); r->tm_mon=(int)m-1; r->tm_mday=(int)d; r->tm_yday=(int)(days-days_from_civil(y,1,1)); r->tm_isdst=0; return r; }
__attribute__((weak)) struct tm* gmtime(const time_t* t){ static struct tm s; return gmtime_r(t,&s); }
// strftime/strptime for the conversions used: %Y %m %d %H %M %S and literals
static char* put2(char* p,int v,int w){ char b[12]; for(int i=0;i<w;i++){ b[i]=(char)('0'+v%10); v/=10; } for(int i=0;i<w;i++) p[i]=b[w-1-i]; return p+w; }
__attribute__((weak)) size_t strftime(char* s,size_t max,const char* f,const struct tm* t){ char b[128]; char* p=b; for(;*f;f++){ if(*f!='%'){ *p++=*f; continue; } f++; switch(*f){ case 'Y': if(t->tm_year+1900>9999){ int y=t->tm_year+1900; int w=5; int lim=100000; while(y>=lim&&w<9){ w++; lim*=10; } p=put2(p,y,w); } else p=put2(p,t->tm_year+1900,4); break; case 'm': p=put2(p,t->tm_mon+1,2); break; case 'd': p=put2(p,t->tm_mday,2); break; case 'H': p=put2(p,t->tm_hour,2); break; case 'M': p=put2(p,t->tm_min,2); break; case 'S': p=put2(p,t->tm_sec,2); break; case 'F': p=put2(p,t->tm_year+1900,4); *p++='-'; p=put2(p,t->tm_mon+1,2); *p++='-'; p=put2(p,t->tm_mday,2); break; case 'T': p=put2(p,t->tm_hour,2); *p++=':'; p=put2(p,t->tm_min,2); *p++=':'; p=put2(p,t->tm_sec,2); break; case 'y': p=put2(p,t->tm_year%100,2); break; case 'I': p=put2(p,t->tm_hour%12?t->tm_hour%12:12,2); break; case 'e': p=put2(p,t->tm_mday,2); break; case 'j': p=put2(p,t->tm_yday+1,3); break; case '%': *p++='%'; break; default: __builtin_trap(); } } size_t n=(size_t)(p-b); if(n+1>max) return 0; memcpy(s,b,n); s[n]=0; return n; }
static const char* get_n(const char* s,int lo,int hi,int n,int* out){ while(*s==' ') s++; int v=0; if(*s<'0'||*s>'9') return 0; do { v=v*10+(*s-'0'); s++; } while(--n>0&&v*10<=hi&&*s>='0'&&*s<='9'); if(v<lo||v>hi) return 0; *out=v; return s; }
__attribute__((weak)) char* strptime(const char* s,const char* f,struct tm* t){ int v; for(;*f;f++){ if(isspace((unsigned char)*f)){ while(isspace((unsigned char)*s)) s++; continue; } if(*f!='%'){ if(*s!=*f) return 0; s++; continue; } f++; switch(*f){ case 'Y': s=get_n(s,0,9999,4,&v); if(!s) return 0; t->tm_year=v-1900; break; case 'm': s=get_n(s,1,12,2,&v); if(!s) return 0; t->tm_mon=v-1; break; case 'd': s=get_n(s,1,31,2,&v); if(!s) return 0; t->tm_mday=v; break; case 'H': s=get_n(s,0,23,2,&v); if(!s) return 0; t->tm_hour=v; break; case 'M': s=get_n(s,0,59,2,&v); if(!s) return 0; t->tm_min=v; break; case 'S': s=get_n(s,0,61,2,&v); if(!s) return 0; t->tm_sec=v; break; case 'y': s=get_n(s,0,99,2,&v); if(!s) return 0; t->tm_year=v<69?v+100:v; break; case 'F': s=strptime(s,"%Y-%m-%d",t); if(!s) return 0; break; case 'T': s=strptime(s,"%H:%M:%S",t); if(!s) return 0; break; case 'e': s=get_n(s,1,31,2,&v); if(!s) return 0; t->tm_mday=v; break; case 'I': s=get_n(s,1,12,2,&v); if(!s) return 0; t->tm_hour=v%12; break; case 'j': s=get_n(s,1,366,3,&v); if(!s) return 0; t->tm_yday=v-1; break; case '%': if(*s!='%') return 0; s++; break; default: __builtin_trap(); } } return (char*)s; }

__attribute__((weak)) struct tm* localtime_r(const time_t* t,struct tm* r){ time_t x=*t+3600; return gmtime_r(&x,r); }
__attribute__((weak)) struct tm* localtime(const time_t* t){ static struct tm s; return localtime_r(t,&s); }
// ---- further functions of the C library that rewritten code may use
#include <stdarg.h>
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef isxdigit
#undef ispunct
#undef isprint
#undef isgraph
#undef iscntrl
#undef isblank
int isupper(int c){ return c>='A'&&c<='Z'; } int islower(int c){ return c>='a'&&c<='z'; } int isalpha(int c){ return isupper(c)||islower(c); } int isalnum(int c){ return isalpha(c)||isdigit(c); } int isxdigit(int c){ return isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); } int isprint(int c){ return c>=32&&c<127; } int isgraph(int c){ return c>32&&c<127; } int ispunct(int c){ return isgraph(c)&&!isalnum(c); } int iscntrl(int c){ return (c>=0&&c<32)||c==127; } int isblank(int c){ return c==' '||c=='\t'; }
static int vin(char c,const char* set){ for(;*set;set++) if(*set==c) return 1; return 0; }
size_t strspn(const char* s,const char* a){ size_t n=0; while(s[n]&&vin(s[n],a)) n++; return n; }
size_t strcspn(const char* s,const char* a){ size_t n=0; while(s[n]&&!vin(s[n],a)) n++; return n; }
char* strpbrk(const char* s,const char* a){ s+=strcspn(s,a); return *s?(char*)s:0; }
char* strncat(char* d,const char* s,size_t n){ char* e=d+strlen(d); for(;n&&*s;n--) *e++=*s++; *e=0; return d; }
char* stpcpy(char* d,const char* s){ while((*d=*s)){ d++; s++; } return d; }
char* strndup(const char* s,size_t n){ size_t l=0; while(l<n&&s[l]) l++; char* p=(char*)__builtin_malloc(l+1); memcpy(p,s,l); p[l]=0; return p; }
size_t strnlen(const char* s,size_t n){ size_t l=0; while(l<n&&s[l]) l++; return l; }
char* strtok_r(char* s,const char* d,char** sp){ if(!s) s=*sp; if(!s) return 0; s+=strspn(s,d); if(!*s){ *sp=0; return 0; } char* r=s; s+=strcspn(s,d); if(*s){ *s=0; *sp=s+1; } else *sp=0; return r; }
char* strtok(char* s,const char* d){ static char* sp; return strtok_r(s,d,&sp); }
char* strchrnul(const char* s,int c){ while(*s&&*s!=(char)c) s++; return (char*)s; }
void* memrchr(const void* s,int c,size_t n){ const unsigned char* p=(const unsigned char*)s; while(n--) if(p[n]==(unsigned char)c) return (void*)(p+n); return 0; }
void* rawmemchr(const void* s,int c){ const unsigned char* p=(const unsigned char*)s; while(*p!=(unsigned char)c) p++; return (void*)p; }
void* mempcpy(void* d,const void* s,size_t n){ memcpy(d,s,n); return (char*)d+n; }
void* memccpy(void* d,const void* s,int c,size_t n){ for(size_t i=0;i<n;i++) if((((unsigned char*)d)[i]=((const unsigned char*)s)[i])==(unsigned char)c) return (char*)d+i+1; return 0; }
char* strerror(int e){ return (char*)"error"; }
char* strsep(char** sp,const char* d){ char* s=*sp; if(!s) return 0; char* e=s+strcspn(s,d); if(*e){ *e=0; *sp=e+1; } else *sp=0; return s; }
div_t div(int a,int b){ div_t r={a/b,a%b}; return r; } ldiv_t ldiv(long a,long b){ ldiv_t r={a/b,a%b}; return r; } lldiv_t lldiv(long long a,long long b){ lldiv_t r={a/b,a%b}; return r; }
int ffs(int x){ for(int i=0;i<32;i++) if(x>>i&1) return i+1; return 0; } int ffsl(long x){ for(int i=0;i<64;i++) if(x>>i&1) return i+1; return 0; } int ffsll(long long x){ return ffsl(x); }
double copysign(double a,double b){ uint64_t x,y; memcpy(&x,&a,8); memcpy(&y,&b,8); x=(x&INT64_MAX)|(y&~(uint64_t)INT64_MAX); memcpy(&a,&x,8); return a; }
void qsort(void* v,size_t n,size_t sz,int (*cmp)(const void*,const void*)){ char* b=(char*)v; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&cmp(b+(j-1)*sz,b+j*sz)>0;j--) for(size_t k=0;k<sz;k++){ char t=b[(j-1)*sz+k]; b[(j-1)*sz+k]=b[j*sz+k]; b[j*sz+k]=t; } }
void* bsearch(const void* key,const void* v,size_t n,size_t sz,int (*cmp)(const void*,const void*)){ size_t lo=0, hi=n; while(lo<hi){ size_t m=lo+(hi-lo)/2; const char* p=(const char*)v+m*sz; int c=cmp(key,p); if(c==0) return (void*)p; if(c<0) hi=m; else lo=m+1; } return 0; }
// printf family: digits for concrete numbers, zero padded decimal and hexadecimal ones; else the tokens of the streams
int __sym_is_symbolic(uint64_t); uint64_t __sym_room(const void*); void __sym_unsupported(const char*);
struct vout { char* d; size_t cap, n; bool token; };
static void vput(struct vout* o,char c){ if(o->n<o->cap) o->d[o->n]=c; o->n++; }
static void vpad(struct vout* o,const char* s,size_t n,int width,bool left,char fill){ size_t w=width>0&&(size_t)width>n?(size_t)width-n:0; if(!left) for(;w;w--) vput(o,fill); for(size_t i=0;i<n;i++) vput(o,s[i]); if(left) for(;w;w--) vput(o,' '); }
static void vtoken(struct vout* o,char kind,int prec,char fmt,uint64_t v){ o->token=true; vput(o,2); vput(o,kind); vput(o,(char)('0'+(prec>60?60:prec))); vput(o,fmt); for(int i=0;i<16;i++) vput(o,(char)('a'+((v>>(4*i))&15))); }
int vsnprintf(char* d,size_t cap,const char* f,va_list a){ struct vout o={d,cap?cap-1:0,0,false};
  for(;*f;f++){ if(*f!='%'){ vput(&o,*f); continue; } f++; bool left=false,zero=false,plus=false,alt=false; for(;;f++){ if(*f=='-') left=true; else if(*f=='0') zero=true; else if(*f=='+'||*f==' ') plus=*f=='+'; else if(*f=='#') alt=true; else break; }
    int width=0, prec=-1, l=0; if(*f=='*'){ width=va_arg(a,int); if(width<0){ left=true; width=-width; } f++; } else while(*f>='0'&&*f<='9') width=width*10+(*f++-'0'); if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=va_arg(a,int); f++; } else while(*f>='0'&&*f<='9') prec=prec*10+(*f++-'0'); }
    for(;;f++){ if(*f=='l') l++; else if(*f=='h') l--; else if(*f=='z'||*f=='j'||*f=='t'||*f=='L') l=2; else break; }
    if(*f=='%'){ vput(&o,'%'); continue; } if(*f=='c'){ char c=(char)va_arg(a,int); vpad(&o,&c,1,width,left,' '); continue; }
    if(*f=='s'){ const char* s=va_arg(a,const char*); if(!s) s="(null)"; size_t n=0; while((prec<0||n<(size_t)prec)&&s[n]) n++; vpad(&o,s,n,width,left,' '); continue; }
    if(*f=='f'||*f=='g'||*f=='e'||*f=='F'||*f=='G'||*f=='E'){ double x=va_arg(a,double); uint64_t v; memcpy(&v,&x,8); vtoken(&o,'D',prec<0?6:prec,*f=='f'||*f=='F'?'B':*f=='e'||*f=='E'?'C':'A',v); continue; }
    bool sgn=*f=='d'||*f=='i', hex=*f=='x'||*f=='X'||*f=='p'; if(!sgn&&!hex&&*f!='u'&&*f!='o') __sym_unsupported("printf conversion"); uint64_t v; if(*f=='p'){ v=(uint64_t)va_arg(a,void*); alt=true; } else if(sgn) v=l>0?(uint64_t)va_arg(a,long):l==0?(uint64_t)(int64_t)va_arg(a,int):l==-1?(uint64_t)(int64_t)(short)va_arg(a,int):(uint64_t)(int64_t)(signed char)va_arg(a,int); else { v=l>0?va_arg(a,unsigned long):va_arg(a,unsigned); if(l==-1) v&=0xffff; if(l<-1) v&=0xff; }
    char b[72]; int k=72; if(__sym_is_symbolic(v)){ int w=zero&&!left?width:prec; uint64_t lim=1; if(w>0&&w<=(hex?15:9)&&!plus&&!alt){ for(int i=0;i<w;i++) lim*=hex?16:10; if(v<lim){ uint64_t x=v; for(int i=0;i<w;i++){ unsigned q; if(hex){ q=(unsigned)(x&15); x>>=4; } else { q=(unsigned)((uint32_t)x%10u); x=(uint32_t)x/10u; } b[--k]=(char)(q+'0'+(q>9?(*f=='X'?7:39):0)); } vpad(&o,b+k,(size_t)(72-k),width,left,' '); continue; } }
      vtoken(&o,hex?'X':sgn?'I':'U',6,'A',v); continue; }
    bool neg=sgn&&(int64_t)v<0; if(neg) v=0-v; unsigned base=hex?16:*f=='o'?8:10; int dig=0; while(v||(dig==0&&prec!=0)||dig<prec){ unsigned q=(unsigned)(v%base); b[--k]=(char)(q<10?'0'+q:(*f=='X'?'A':'a')+q-10); v/=base; dig++; if(!v&&dig>=prec) break; } if(alt&&hex){ b[--k]=*f=='X'?'X':'x'; b[--k]='0'; }
    if(neg||plus){ if(zero&&!left&&prec<0){ while(72-k<width-1&&k>1) b[--k]='0'; } b[--k]=neg?'-':'+'; } vpad(&o,b+k,(size_t)(72-k),width,left,zero&&!left&&prec<0?'0':' '); }
  if(o.token&&cap&&o.n>=cap) __sym_unsupported("a symbolic number printed into a short buffer"); if(cap) d[o.n<cap?o.n:cap-1]=0; return (int)o.n; }
int snprintf(char* d,size_t n,const char* f,...){ va_list a; va_start(a,f); int r=vsnprintf(d,n,f,a); va_end(a); return r; }
int vsprintf(char* d,const char* f,va_list a){ static char b[4096]; int n=vsnprintf(b,4096,f,a); bool tok=false; for(int i=0;i<n;i++) if(b[i]==2) tok=true; if(tok&&__sym_room(d)<=(uint64_t)n) __sym_unsupported("a symbolic number printed into a short buffer"); memcpy(d,b,(size_t)n+1); return n; }
int sprintf(char* d,const char* f,...){ va_list a; va_start(a,f); int r=vsprintf(d,f,a); va_end(a); return r; }
int vasprintf(char** d,const char* f,va_list a){ static char b[4096]; int n=vsnprintf(b,4096,f,a); *d=strdup(b); return n; }
int asprintf(char** d,const char* f,...){ va_list a; va_start(a,f); int r=vasprintf(d,f,a); va_end(a); return r; }
#undef abs
int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; } long long llabs(long long x){ return x<0?-x:x; } void bzero(void* p,size_t n){ memset(p,0,n); } char* getenv(const char* n){ return 0; }
// standard streams: what is printed goes nowhere
struct _IO_FILE; extern struct _IO_FILE* stderr; extern struct _IO_FILE* stdout;
int printf(const char* f,...){ return 0; } int fprintf(struct _IO_FILE* o,const char* f,...){ if(o!=stderr&&o!=stdout) __sym_unsupported("output to a C file"); return 0; } int puts(const char* s){ (void)strlen(s); return 0; } int fputs(const char* s,struct _IO_FILE* o){ if(o!=stderr&&o!=stdout) __sym_unsupported("output to a C file"); (void)strlen(s); return 0; } int putchar(int c){ return c; } int fputc(int c,struct _IO_FILE* o){ if(o!=stderr&&o!=stdout) __sym_unsupported("output to a C file"); return c; } int fflush(struct _IO_FILE* o){ return 0; } void perror(const char* s){}
long imaxabs(long x){ return x<0?-x:x; } int putc(int c,struct _IO_FILE* o){ return fputc(c,o); } size_t fwrite(const void* p,size_t s,size_t n,struct _IO_FILE* o){ if(o!=stderr&&o!=stdout) __sym_unsupported("output to a C file"); return n; }
int vsscanf(const char* s,const char* f,va_list a){ const char* b=s; int n=0; for(;*f;f++){ if(isspace((unsigned char)*f)){ while(isspace((unsigned char)*s)) s++; continue; } if(*f!='%'){ if(*s!=*f) return *s||n?n:-1; s++; continue; } f++; bool skip=false; if(*f=='*'){ skip=true; f++; } int w=0,l=0; while(*f>='0'&&*f<='9') w=w*10+(*f++-'0'); for(;;f++){ if(*f=='l') l++; else if(*f=='h') l--; else if(*f=='z'||*f=='j'||*f=='t') l=2; else break; }
    if(*f=='n'){ *va_arg(a,int*)=(int)(s-b); continue; } if(*f=='%'){ if(*s!='%') return n; s++; continue; } if(*f=='c'){ if(w>1) __sym_unsupported("scanf conversion"); if(!*s) return n?n:-1; if(!skip){ *va_arg(a,char*)=*s; n++; } s++; continue; } while(isspace((unsigned char)*s)) s++; if(!*s) return n?n:-1;
    if(*f=='s'){ char* d=skip?0:va_arg(a,char*); int k=0; while(*s&&!isspace((unsigned char)*s)&&(!w||k<w)){ if(d) d[k]=*s; s++; k++; } if(d){ d[k]=0; n++; } continue; }
    if(*f!='d'&&*f!='u') __sym_unsupported("scanf conversion"); uint64_t v=0; if(s[0]==2&&(s[1]=='I'||s[1]=='U')){ for(int i=0;i<16;i++) v|=(uint64_t)(uint8_t)(s[4+i]-'a')<<(4*i); s+=20; } else { bool neg=false; int k=0, dig=0; if(*s=='-'||*s=='+'){ neg=*s=='-'; s++; k++; } while(*s>='0'&&*s<='9'&&(!w||k<w)){ v=v*10+(uint64_t)(*s-'0'); s++; k++; dig++; } if(!dig) return n; if(neg) v=0-v; } if(skip) continue; if(l>0) *va_arg(a,long*)=(long)v; else if(l==0) *va_arg(a,int*)=(int)v; else if(l==-1) *va_arg(a,short*)=(short)v; else *va_arg(a,char*)=(char)v; n++; }
  return n; }
int __isoc23_sscanf(const char* s,const char* f,...){ va_list a; va_start(a,f); int r=vsscanf(s,f,a); va_end(a); return r; } int __isoc99_sscanf(const char* s,const char* f,...){ va_list a; va_start(a,f); int r=vsscanf(s,f,a); va_end(a); return r; }
