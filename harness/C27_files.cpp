//@ bounds: plain files, standard input and output, URLs, gzip and bzip2 helpers; every combination of failing pipe, fork, open, dup2, exec, close and waitpid calls, every helper exit status, 3, 31 or 40 descriptors already open, followed by close, a second open, assignment, copying, or destruction
//@ reach: failed,childrun,childexit,status,reopened,assigned,copied,stdio
//@ variant both: in -DOUTPUT=0
//@ variant both: out -DOUTPUT=1
#include "sym.h"
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <stdexcept>
#include <string>
#include <iostream>
#include <boost/utility.hpp>
enum { MAXFD=64, FREE=0, OTHER=1, FILEFD=2, PIPER=3, PIPEW=4, NULLFD=5 };
static int fd[MAXFD]; static int acc[MAXFD]; static int nfail, forks, waits, lasterr; static bool child; static int childin; static const char* wantname; static const char* wantcmd; static int piper,pipew; static bool badstatus; static int openerr;
struct ChildEnd { int how; };
extern "C" {
static bool fails(const char* n){ if(sym_flip(n)){ nfail++; lasterr=errno=sym_choice("errno",1,3); sym_reach("failed"); return true; } return false; }
static int lowest(){ for(int i=0;i<MAXFD;i++) if(fd[i]==FREE) return i; return -1; }
int vm_open(const char* name,int flags,...){ if(fails("open fails")) return -1; int i=lowest(); bool null=!strcmp(name,"/dev/null"); fd[i]=null?NULLFD:FILEFD; acc[i]=flags;
  if(!null){ sym_assert(!strcmp(name,wantname),"the named file is opened"); if(child||OUTPUT){ sym_assert((flags&O_ACCMODE)==O_WRONLY&&(flags&O_TRUNC)&&(flags&O_CREAT),"output is created and truncated"); va_list a; va_start(a,flags); int m=va_arg(a,int); va_end(a); sym_assert(m==0666,"output mode"); } else sym_assert((flags&O_ACCMODE)==O_RDONLY&&!(flags&(O_TRUNC|O_CREAT)),"input is opened for reading"); }
  return i; }
int vm_close(int f){ if(child){ if(f>=0&&f<MAXFD) fd[f]=FREE; return 0; } sym_assert(f>=0&&f<MAXFD&&fd[f]!=FREE,"only open descriptors are closed"); sym_assert(fd[f]!=OTHER,"descriptors of others are not closed"); bool file=fd[f]==FILEFD; fd[f]=FREE; if(file&&fails("close fails")) return -1; return 0; }
int vm_pipe(int* p){ if(fails("pipe fails")) return -1; p[0]=lowest(); fd[p[0]]=PIPER; p[1]=lowest(); fd[p[1]]=PIPEW; piper=p[0]; pipew=p[1]; return 0; }
int vm_fork(){ if(fails("fork fails")) return -1; if(sym_flip("in child")){ child=true; return 0; } forks++; return 1000+forks; }
int vm_dup2(int a,int b){ if(sym_flip("dup2 fails")) return -1; sym_assert(a>=0&&fd[a]!=FREE,"an open descriptor is duplicated"); fd[b]=fd[a]; acc[b]=acc[a]; return b; }
int vm_waitpid(int pid,int* st,int opt){ sym_assert(forks>waits&&pid==1000+forks&&opt==0,"the helper is waited for"); waits++; for(int i=0;i<MAXFD;i++) sym_assert(fd[i]!=PIPER&&fd[i]!=PIPEW,"pipe closed before waiting"); int s=sym_i32("status",0,0xffff); sym_assume(((s&0x7f)!=0x7f)&(((s&0x7f)==0)?((s&0x80)==0):(s<256))); *st=s; if(fails("waitpid fails")){ badstatus=true; return -1; } if(s!=0){ badstatus=true; sym_reach("status"); } return pid; }
void vm_exit(int c){ sym_assert(child&&c!=0,"a helper that can not be started exits with an error"); ChildEnd e; e.how=1; throw e; }
int vm_execlp(const char* f,const char* a0,...){ sym_assert(child,"exec only in child"); if(sym_flip("exec fails")) return -1;
  sym_assert(!strcmp(f,wantcmd)&&!strcmp(a0,wantcmd),"the right helper is started"); int std=childin?0:1;
  va_list a; va_start(a,a0); const char* a1=va_arg(a,const char*);
  if(childin==0){ sym_assert(a1&&!strcmp(a1,wantname),"helper reads the named file"); sym_assert(va_arg(a,const char*)==0,"no other arguments"); sym_assert(fd[1]==PIPEW,"helper writes into the pipe"); }
  else { sym_assert(a1==0,"helper works as a filter"); sym_assert(fd[0]==PIPER,"helper reads from the pipe"); sym_assert(fd[1]==FILEFD,"helper writes the named file"); }
  va_end(a);
  for(int i=0;i<MAXFD;i++) sym_assert(fd[i]!=(childin?PIPEW:PIPER),"helper does not hold the end of the pipe of the parent");
  ChildEnd e; e.how=2; throw e; }
}
#define open vm_open
#define close vm_close
#define pipe vm_pipe
#define fork vm_fork
#define dup2 vm_dup2
#define waitpid vm_waitpid
#define exit vm_exit
#define execlp vm_execlp
#include <osmium/osmfile.hpp>
typedef Osmium::OSMFile F;
struct K { const char* name; const char* in; const char* out; };
static const K KS[]={{"d/a.osm",0,0},{"",0,0},{"http://h/a.osm","curl",0},{"d/a.osm.gz","zcat","gzip"},{"a.osc.bz2","bzcat","bzip2"},{"https:x","curl",0}};
static int nopen(){ int n=0; for(int i=0;i<MAXFD;i++) if(fd[i]!=FREE&&fd[i]!=OTHER) n++; return n; }
static bool quiet;
static bool doopen(F& f){ // returns true if it succeeded
  int before=nfail; badstatus=false; bool thrown=false, io=false; int err=0; std::string nm;
  try { if(OUTPUT) f.open_for_output(); else f.open_for_input(); } catch(const F::IOError& e){ thrown=true; io=true; err=e.system_errno(); nm=e.filename(); } catch(const F::SystemError& e){ thrown=true; err=e.system_errno(); }
  sym_assert(thrown==(nfail!=before||badstatus),"open fails exactly when a system call fails");
  if(thrown){ if(nfail==before+1) sym_assert(err==lasterr||badstatus,"the error tells the cause"); if(io&&nfail==before+1) sym_assert(nm==wantname,"the error names the file"); }
  else sym_assert(f.fd()>=0&&fd[f.fd()]!=FREE,"an open file has a descriptor");
  return !thrown; }
static void doclose(F& f){ int before=nfail; badstatus=false; bool thrown=false; try { f.close(); } catch(const F::IOError& e){ thrown=true; } sym_assert(thrown==(nfail!=before||badstatus),"close reports failing calls and helpers"); sym_assert(f.fd()==-1,"closed file has no descriptor"); sym_assert(waits==forks,"helper waited for"); f.close(); }
static void run(){
  int k=sym_choice("kind",0,OUTPUT?4:5); if(OUTPUT&&k==2) k=0; wantname=KS[k].name; wantcmd=OUTPUT?KS[k].out:KS[k].in; int what=sym_choice("what",0,5);
  if(k==1){ sym_reach("stdio"); }
  { F f(wantname); if(k==2||k==5){} bool ok=doopen(f);
    if(k==1) sym_assert(f.fd()==OUTPUT,"standard input or output is used");
    if(k==0&&ok) sym_assert(fd[f.fd()]==FILEFD,"descriptor of the file"); if(wantcmd&&ok) sym_assert(fd[f.fd()]==(OUTPUT?PIPEW:PIPER)&&f.fd()==(OUTPUT?pipew:piper)&&nopen()==(1+3),"only one end of the pipe stays open");
    if(what==0) doclose(f);
    else if(what==1&&k!=1){ bool ok2; int before=nfail; ok2=doopen(f); sym_reach("reopened"); if(sym_flip("close")) doclose(f); }
    else if(what==2){ int before=nfail; badstatus=false; F g("b.osm"); bool thrown=false; try { f=g; } catch(const F::IOError&){ thrown=true; } sym_assert(thrown==(nfail!=before||badstatus),"failure when closing is reported"); sym_reach("assigned"); sym_assert(f.fd()==-1,"assigned file is not open"); }
    else if(what==3){ F g(f); sym_assert(g.fd()==-1,"copy is not open"); sym_reach("copied"); if(sym_flip("close")) g.close(); }
    else if(what==4){ F g("b.osm"); g=f; sym_assert(g.fd()==-1,"copy is not open"); sym_assert(!ok||f.fd()>=0,"original stays open"); sym_reach("copied"); }
    // otherwise destroyed while open
  }
  int left=0; for(int i=0;i<MAXFD;i++) if(fd[i]!=FREE&&fd[i]!=OTHER&&!(i<=2)) left++;
  sym_assert(left==0,"no descriptor stays open"); sym_assert(waits==forks,"every helper waited for once"); sym_observe(forks*100+nfail);
}
extern "C" void harness_main(){
  childin=OUTPUT; static const int NF[]={3,31,40}; int n=NF[sym_choice("descriptors in use",0,2)]; for(int i=0;i<MAXFD;i++) fd[i]=i<3?FILEFD:i<n?OTHER:FREE;
  try { run(); } catch(const ChildEnd& e){ sym_reach(e.how==1?"childexit":"childrun"); sym_observe(e.how); }
}
