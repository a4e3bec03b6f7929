// Stand-ins for the system calls the file classes make; nothing real is opened, written or started.
#ifndef VERIF_VMSYS_H
#define VERIF_VMSYS_H
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <arpa/inet.h>
#include <inttypes.h>
#include <math.h>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <boost/utility.hpp>
#include <osmium/smart_ptr.hpp>
#include <osmium/geometry.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/handler.hpp>
static int vm_opened, vm_closed;
static long vm_read(int fd,void* buf,unsigned long n); static long vm_write(int fd,const void* buf,unsigned long n);
extern "C" {
static inline int vm_open(const char*,int,...){ vm_opened++; return 10; }
static inline int vm_close(int){ vm_closed++; return 0; }
static inline int vm_pipe(int* p){ p[0]=11; p[1]=12; return 0; }
static inline int vm_fork(){ return 1000; }
static inline int vm_dup2(int,int b){ return b; }
static inline int vm_waitpid(int pid,int* st,int){ *st=0; return pid; }
static inline void vm_exit(int){}
static inline int vm_execlp(const char*,const char*,...){ return -1; }
}
#define open vm_open
#define close vm_close
#define pipe vm_pipe
#define fork vm_fork
#define dup2 vm_dup2
#define waitpid vm_waitpid
#define exit vm_exit
#define execlp vm_execlp
#define read vm_read
#define write vm_write
// text of a number as a file would contain it: a token when executed symbolically
static inline std::string vm_num(int64_t v){
#ifdef VERIF_NATIVE
  char b[40]; snprintf(b,sizeof b,"%lld",(long long)v); return b;
#else
  char t[20]; int k=0; t[k++]=2; t[k++]='I'; t[k++]='0'; t[k++]='A'; for(int i=0;i<16;i++) t[k++]=(char)('a'+((v>>(4*i))&15)); return std::string(t,20);
#endif
}
static inline std::string vm_deg(double d){
#ifdef VERIF_NATIVE
  char b[60]; snprintf(b,sizeof b,"%.7f",d); return b;
#else
  uint64_t v; memcpy(&v,&d,8); char t[20]; int k=0; t[k++]=2; t[k++]='D'; t[k++]='7'; t[k++]='B'; for(int i=0;i<16;i++) t[k++]=(char)('a'+((v>>(4*i))&15)); return std::string(t,20);
#endif
}
#endif
