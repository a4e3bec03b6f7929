// osym: symbolic executor for LLVM IR (clang 18 output), one OS process per forked path.
#include <bit>
#include <cmath>
// Memory is concrete-addressed with symbolic bytes; every branch, assertion, and memory bound that
// depends on symbolic input is decided by Z3 (see solver.cpp).
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include "solver.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <map>
#include <set>
#include <functional>
#include <chrono>
using namespace llvm;

static double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct V { u64 c; Expr* e; };
static inline V CV(u64 c){ return V{c,nullptr}; }
static inline Expr* toE(const V& v, unsigned w){ return v.e? v.e : mkConst(v.c,w); }
static inline V EV(Expr* e){ return e->op==CONST? V{e->c,nullptr}:V{0,e}; }

// ---------------------------------------------------------------- shared statistics
struct LabelStat { char label[160]; std::atomic<u64> hits, solver, trivial, violated; };
static const int MAXL=512, MAXF=16384;
struct Shared {
  std::atomic<int> tokens, stop, nviol, nsamples; std::atomic<u64> paths, killed, incomplete, forks, branches, insts, queries, sat, unsat, unknown, cacheHits, fpq, solverUs, maxQueryUs, errors, symBranches, stepLimit, pathStarted, firstViol, maxSteps;
  std::atomic<int> nlabels; LabelStat labels[MAXL];
  std::atomic<int> nreach; LabelStat reach[MAXL];
  std::atomic<u8> fcov[MAXF];
  char errmsg[16][300]; std::atomic<int> nerr;
  std::atomic<u64> viol[64]; // hash of label reported
};
static Shared* SH;
static std::string outDir="/tmp/osym-out"; static bool ownToken=false; static double deadline=0; static u64 stepLimit=50000000, steps=0; static int maxViolPerLabel=2; static int maxSamples=24; static bool verbose=false; static double t_start;
static bool isRoot=true;

static LabelStat* labelStat(LabelStat* tab, std::atomic<int>& n, const std::string& l){
  int m=n.load(); if(m>MAXL) m=MAXL; for(int i=0;i<m;i++) if(!strncmp(tab[i].label,l.c_str(),159)) return &tab[i];
  int i=n.fetch_add(1); if(i>=MAXL) return &tab[MAXL-1]; strncpy(tab[i].label,l.c_str(),159); return &tab[i]; }

// ---------------------------------------------------------------- path state
static std::vector<u64> model; static std::vector<Expr*> pc;
struct InputRec { std::string name; Expr* e; u64 c; unsigned w; };
static std::vector<InputRec> inputs; static std::vector<V> observes;
static u64 nInsts=0, nBranch=0, nSymBranch=0; static u64 flushedQ[8]={0};

static u64 dbits(double d){ u64 u; memcpy(&u,&d,8); return u; }
static void flushStats(){ SH->insts+=nInsts; nInsts=0; SH->branches+=nBranch; nBranch=0; SH->symBranches+=nSymBranch; nSymBranch=0; auto&s=g_sstats; SH->queries+=s.queries; SH->sat+=s.sat; SH->unsat+=s.unsat; SH->unknown+=s.unknown; SH->cacheHits+=s.cacheHits; SH->fpq+=s.fpQueries; SH->solverUs+=(u64)(s.secs*1e6); u64 mx=(u64)(s.maxSecs*1e6); u64 o=SH->maxQueryUs; while(mx>o&&!SH->maxQueryUs.compare_exchange_weak(o,mx)); s=SolverStats(); }
[[noreturn]] static void finish(int status){ flushStats(); { u64 m=SH->maxSteps.load(); while(steps>m&&!SH->maxSteps.compare_exchange_weak(m,steps)) {} } if(ownToken) SH->tokens++; fflush(nullptr); if(!isRoot) _exit(status); 
  // root: release its slot and wait for all descendants
  SH->tokens++; for(;;){ int st; pid_t p=waitpid(-1,&st,0); if(p<0) break; if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ SH->errors++; int i=SH->nerr++; if(i<16) snprintf(SH->errmsg[i],300,"subprocess ended abnormally status=%d",st); } }
  throw status; }
static void logErr(const std::string& m){ int i=SH->nerr++; if(i<16) snprintf(SH->errmsg[i],300,"%s",m.c_str()); if(verbose) fprintf(stderr,"[osym] %s\n",m.c_str()); }
[[noreturn]] static void engineError(const std::string& m);
static std::string whereAmI(); static std::string stackTrace();

static std::string jstr(const std::string& s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static u64 evalV(const V& v, u32 ep){ return v.e? evalExpr(v.e,model,ep):v.c; }
static void writeTrace(const std::string& fn, const std::string& kind, const std::string& label){
  std::string tmp=fn+".tmp"; FILE* f=fopen(tmp.c_str(),"w"); if(!f) return; u32 ep=newEpoch();
  u64 h=1469598103934665603ull; for(auto&o:observes){ h^=evalV(o,ep); h*=1099511628211ull; }
  fprintf(f,"{\"kind\":%s,\"label\":%s,\"where\":%s,\"observe\":\"%016llx\",\"nobs\":%zu,\"stack\":%s,\"inputs\":[",jstr(kind).c_str(),jstr(label).c_str(),jstr(whereAmI()).c_str(),(unsigned long long)h,observes.size(),jstr(stackTrace()).c_str());
  bool first=true; for(auto&i:inputs){ fprintf(f,"%s[%s,%u,\"%llu\"]",first?"":",",jstr(i.name).c_str(),i.w,(unsigned long long)(i.e?evalExpr(i.e,model,ep):i.c)); first=false; }
  fprintf(f,"]}\n"); fclose(f); rename(tmp.c_str(),fn.c_str()); }

static void reportViolation(const std::string& label){
  LabelStat* ls=labelStat(SH->labels,SH->nlabels,label); u64 n=ls->violated++; { u64 z=0; SH->firstViol.compare_exchange_strong(z,(u64)((nowS()-t_start)*1e3)+1); }
  if(n<(u64)maxViolPerLabel){ int i=SH->nviol++; char b[64]; snprintf(b,64,"/viol_%03d.json",i); writeTrace(outDir+b,"violation",label); if(verbose) fprintf(stderr,"[osym] VIOLATION %s at %s\n",label.c_str(),whereAmI().c_str()); }
  }

// ---------------------------------------------------------------- solving
static void slice(Expr* c, std::vector<Expr*>& out){
  std::vector<u32> vs; collectVars(c,vs); std::vector<char> in(g_vars.size(),0); for(u32 v:vs) in[v]=1;
  std::vector<char> used(pc.size(),0); bool ch=true; std::vector<u32> t;
  while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]){ t.clear(); collectVars(pc[i],t); bool hit=false; for(u32 v:t) if(in[v]){ hit=true; break; } if(hit){ used[i]=1; ch=true; out.push_back(pc[i]); for(u32 v:t) in[v]=1; } } }
}
static std::unordered_map<u64,std::pair<int,std::vector<std::pair<u32,u64>>>> qcache;
static u64 hashConj(std::vector<Expr*>& cs){ std::vector<u32> ids; for(auto c:cs) ids.push_back(c->id); std::sort(ids.begin(),ids.end()); u64 h=88172645463325252ull; for(u32 i:ids){ h^=i; h*=0x9e3779b97f4a7c15ull; h^=h>>29; } return h; }
// feasibility of pc /\ c; on SAT newModel = model updated
static Res feasible(Expr* c, std::vector<u64>& newModel){
  if(c->op==CONST) { newModel=model; return c->c?SAT:UNSAT; }
  std::vector<Expr*> cs; slice(c,cs); cs.push_back(c);
  { // constraints v==k and v!=k over one variable that is otherwise only bounded by its range need no solver
    Expr* v=nullptr; bool simple=true; for(Expr* x:cs){ Expr* y=x; if(y->op==XOR&&y->w==1&&isC(y->k1)&&y->k1->c==1) y=y->k0; if(!(y->op==EQ&&y->k0->op==VAR&&isC(y->k1)&&y->k0->w>1)||(v&&v!=y->k0)){ simple=false; break; } v=y->k0; }
    if(simple&&v){ auto& vi=g_vars[v->a]; u64 span=vi.sgn?(u64)(sextw(vi.hi,vi.w)-sextw(vi.lo,vi.w)):vi.hi-vi.lo; if(span<=64){ g_sstats.cacheHits++; u32 id=v->a;
      for(u64 i=0;i<=span;i++){ u64 val=(vi.lo+i)&maskw(vi.w); bool ok=true; for(Expr* x:cs){ bool neg=!(x->op==EQ); Expr* y=neg?x->k0:x; if((y->k1->c==val)==neg){ ok=false; break; } } if(ok){ newModel=model; newModel.resize(g_vars.size()); for(size_t j=model.size();j<g_vars.size();j++) newModel[j]=g_vars[j].lo; newModel[id]=val; return SAT; } }
      return UNSAT; } } }
  u64 h=hashConj(cs); std::vector<std::pair<u32,u64>> m; Res r;
  auto it=qcache.find(h); if(it!=qcache.end()){ g_sstats.cacheHits++; r=(Res)it->second.first; m=it->second.second; }
  else { r=solveConj(cs,m); qcache[h]={r,m}; }
  if(r==UNKNOWN) SH->incomplete++, logErr("solver UNKNOWN: "+exprStr(c,9)+" @ "+whereAmI());
  if(r==SAT){ newModel=model; newModel.resize(g_vars.size()); for(size_t i=model.size();i<g_vars.size();i++) newModel[i]=g_vars[i].lo; for(auto&p:m) newModel[p.first]=p.second; }
  return r; }
static bool evalB(Expr* c){ return evalExpr(c,model,newEpoch())&1; }
// once there is a counterexample the rest of the exploration only looks for further ones, for a while
static void checkStop(){ if(SH->stop){ SH->incomplete++; finish(0); } if(u64 v=SH->firstViol.load()){ double at=v*1e-3, el=nowS()-t_start; if(el>at+std::max(20.0,0.5*at)){ if(!SH->stop.exchange(1)) logErr("exploration ended after a violation"); SH->incomplete++; finish(0); } } if(deadline&&nowS()>deadline){ if(!SH->stop.exchange(1)) logErr("time budget exhausted"); SH->incomplete++; finish(0); } }

// A new path constraint that bounds a variable by a constant also narrows the variable's declared range
// in this process, so that later expressions simplify under it.
static void tighten(Expr* e,int d=4){ if(d<0||e->w!=1) return;
  if(e->op==AND){ tighten(e->k0,d-1); tighten(e->k1,d-1); return; }
  auto setS=[](Expr* x,i64 lo,i64 hi){ unsigned ow=x->w; while(x->op==SEXT) x=x->k0; (void)ow; if(x->op!=VAR) return; auto& v=g_vars[x->a]; if(!v.sgn){ if(v.hi>(maskw(v.w)>>1)||hi<0) return; u64 l=lo<0?0:(u64)lo; if(l>v.lo) v.lo=l; if((u64)hi<v.hi) v.hi=(u64)hi; return; }
    i64 cl=sextw(v.lo,v.w), ch=sextw(v.hi,v.w); if(lo>cl) cl=lo; if(hi<ch) ch=hi; if(cl>ch) return; v.lo=(u64)cl; v.hi=(u64)ch; if(v.w<64){ v.lo&=maskw(v.w); v.hi&=maskw(v.w);} };
  auto setU=[](Expr* x,u64 lo,u64 hi){ if(x->op!=VAR) return; auto& v=g_vars[x->a]; if(v.sgn){ if(hi>(maskw(v.w)>>1)) return; i64 cl=sextw(v.lo,v.w), ch=sextw(v.hi,v.w); if((i64)lo>cl) cl=(i64)lo; if((i64)hi<ch) ch=(i64)hi; if(cl>ch) return; v.lo=(u64)cl; v.hi=(u64)ch; v.lo&=maskw(v.w); v.hi&=maskw(v.w); return; } if(lo>hi) return; u64 nl=std::max(v.lo,lo), nh=std::min(v.hi,hi); if(nl>nh) return; v.lo=nl; v.hi=nh; };
  Expr *a=e->k0,*b=e->k1; i64 mx=a->w>=64?INT64_MAX:(i64)(maskw(a->w)>>1), mn=-mx-1; u64 um=maskw(a->w);
  switch(e->op){
  case SLT: if(isC(b)){ i64 c=sextw(b->c,b->w); if(c>mn) setS(a,mn,c-1); } else if(isC(a)){ i64 c=sextw(a->c,a->w); if(c<mx) setS(b,c+1,mx); } break;
  case SLE: if(isC(b)) setS(a,mn,sextw(b->c,b->w)); else if(isC(a)) setS(b,sextw(a->c,a->w),mx); break;
  case ULT: if(isC(b)){ if(b->c) setU(a,0,b->c-1); } else if(isC(a)){ if(a->c<um) setU(b,a->c+1,um); } break;
  case ULE: if(isC(b)) setU(a,0,b->c); else if(isC(a)) setU(b,a->c,um); break;
  case EQ: if(isC(b)&&a->w>1&&a->op==VAR){ auto& v=g_vars[a->a]; v.lo=v.hi=b->c; } break;
  case XOR: if(isC(b)&&b->c==1&&a->op==EQ&&a->k0->op==VAR&&isC(a->k1)){ auto& v=g_vars[a->k0->a]; if(v.lo!=v.hi){ if(v.lo==a->k1->c) v.lo=(v.lo+1)&maskw(v.w); else if(v.hi==a->k1->c) v.hi=(v.hi-1)&maskw(v.w); } } break;
  default: break; } }
static void pushPC(Expr* e){ pc.push_back(e); tighten(e); }

// Split the current process on cond. Returns the side this process continues on.
static bool forkOn(Expr* cond){
  nBranch++;
  if(cond->op==CONST) return cond->c;
  nSymBranch++;
  checkStop();
  bool cur=evalB(cond); Expr* other=cur? mkNot(cond):cond; std::vector<u64> nm; Res r=feasible(other,nm);
  if(r!=SAT){ return cur; }
  SH->forks++;
  bool par=false; int t=SH->tokens.load(); while(t>0){ if(SH->tokens.compare_exchange_weak(t,t-1)){ par=true; break; } }
  fflush(nullptr); flushStats();
  pid_t p=fork(); if(p<0){ if(par) SH->tokens++; SH->incomplete++; logErr("fork failed"); pushPC(cur?cond:mkNot(cond)); return cur; }
  if(p==0){ ownToken=par; isRoot=false; model=nm; pushPC(other); nInsts=nBranch=nSymBranch=0; g_sstats=SolverStats(); return !cur; }
  if(!par){ int st=0; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ SH->errors++; logErr("subprocess crashed status="+std::to_string(st)); } }
  pushPC(cur?cond:mkNot(cond)); return cur; }
static u64 concretize(const V& v, unsigned w){ if(!v.e) return v.c; for(int n=0;;n++){ u64 x=evalExpr(v.e,model,newEpoch()); if(n>5000) engineError("too many values in concretization"); if(forkOn(mkEq(v.e,mkConst(x,w)))) return x; } }
static void assume(Expr* c){ if(c->op==CONST){ if(!c->c){ SH->killed++; finish(0);} return; } if(!evalB(c)){ std::vector<u64> nm; Res r=feasible(c,nm); if(r!=SAT){ SH->killed++; finish(0);} model=nm; } pushPC(c); }
static bool check(Expr* c, const std::string& label){ // assert
  LabelStat* ls=labelStat(SH->labels,SH->nlabels,label); ls->hits++;
  if(c->op==CONST){ ls->trivial++; if(!c->c){ reportViolation(label); finish(0);} return true; }
  ls->solver++;
  if(!evalB(c)){ reportViolation(label); }
  else { Expr* n=mkNot(c); std::vector<u64> nm; Res r=feasible(n,nm); if(r==SAT){ auto save=model; model=nm; reportViolation(label); model=save; } else if(r==UNSAT) return true; }
  assume(c); return true; }

// a conjunction holds iff each part holds: deciding the parts one by one keeps queries small
static void checkParts(Expr* c, const std::string& label){
  if(c->op==AND&&c->w==1){ checkParts(c->k0,label); checkParts(c->k1,label); return; }
  if(c->op==XOR&&c->w==1&&isC(c->k1)&&c->k1->c==1&&c->k0->op==OR){ checkParts(mkNot(c->k0->k0),label); checkParts(mkNot(c->k0->k1),label); return; }
  check(c,label); }

// ---------------------------------------------------------------- memory
struct Obj { u64 base,size; u8* data; u8* st; std::unordered_map<u64,Expr*>* sym; u8 kind; bool alive, ro; const char* name; };
enum { K_HEAP, K_STACK, K_GLOBAL, K_EXT, K_FUNC };
static std::vector<Obj> objs; static const u64 HEAP_BASE=0x10000000ull; static u64 heapTop=HEAP_BASE; static std::vector<u32> granule; // obj index+1 per 32 bytes
static const u64 STACK_BASE=0x700000000000ull, STACK_SIZE=64ull<<20; static u8 *stkData,*stkSt; static u64 stkTop=0; static std::vector<u32> stkGran;
static u64 maxAlloc=256ull<<20;
static u32 newObjIdx(){ objs.push_back(Obj()); return objs.size()-1; }
static u64 allocHeap(u64 size, u8 kind, const char* name, u64 align=32){
  if(size>maxAlloc) engineError("allocation too large: "+std::to_string(size));
  if(align>32) heapTop=(heapTop+align-1)/align*align;
  u64 base=heapTop; u64 sz=(size+31)/32*32; heapTop+=sz+32; if(size>4096) heapTop+=4096; u32 i=newObjIdx(); Obj& o=objs[i]; o.base=base; o.size=size; o.kind=kind; o.alive=true; o.ro=false; o.name=name; o.sym=nullptr;
  size_t total=(size?size:1)*2; if(total<65536){ static u8* pool=nullptr; static size_t left=0; size_t t=(total+15)&~15ull; if(left<t){ left=1<<20; pool=(u8*)calloc(1,left);} o.data=pool; pool+=t; left-=t; } else o.data=(u8*)mmap(nullptr,total,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  o.st=o.data+(size?size:1);
  granule.resize((heapTop-HEAP_BASE)/32+1,0); for(u64 a=base;a<base+(sz?sz:32);a+=32) granule[(a-HEAP_BASE)/32]=i+1; return base; }
static std::vector<u32> freeStkObjs;
static u32 allocStack(u64 size, u64 align){ if(align<16) align=16; stkTop=(stkTop+31)/32*32; if(align>32) stkTop=(stkTop+align-1)/align*align; u64 off=stkTop; u64 sz=(size+31)/32*32; stkTop+=sz+32; if(stkTop>STACK_SIZE) engineError("stack overflow in executed code");
  u32 i; if(freeStkObjs.size()){ i=freeStkObjs.back(); freeStkObjs.pop_back(); } else { i=newObjIdx(); objs[i].sym=nullptr; }
  Obj&o=objs[i]; o.base=STACK_BASE+off; o.size=size; o.kind=K_STACK; o.alive=true; o.ro=false; o.name="stack"; if(o.sym) o.sym->clear(); o.data=stkData+off; o.st=stkSt+off; memset(o.st,0,size);
  if(stkGran.size()<stkTop/32+2) stkGran.resize(stkTop/32+2,0); for(u64 a=off;a<off+(sz?sz:32);a+=32) stkGran[a/32]=i+1; return i; }
static void freeStack(u32 i){ Obj&o=objs[i]; u64 off=o.base-STACK_BASE; u64 sz=(o.size+31)/32*32; for(u64 a=off;a<off+(sz?sz:32);a+=32) stkGran[a/32]=0; o.alive=false; freeStkObjs.push_back(i); }
static inline Obj* findObj(u64 a){ if(a>=STACK_BASE){ u64 g=(a-STACK_BASE)/32; if(g<stkGran.size()&&stkGran[g]) return &objs[stkGran[g]-1]; return nullptr; } if(a<HEAP_BASE) return nullptr; u64 g=(a-HEAP_BASE)/32; if(g<granule.size()&&granule[g]) return &objs[granule[g]-1]; return nullptr; }
[[noreturn]] static void memViolation(const char* what, u64 a, u64 n, Obj* o){ char b[200]; const char* k="wild pointer"; if(a<4096) k="null pointer"; else if(o&&!o->alive) k="use after free"; else if(o) k="out of bounds"; (void)n; snprintf(b,200,"memory: %s %s",k,what); if(verbose) fprintf(stderr,"  addr=%llx n=%llu obj=%s base=%llx size=%llu\n",(unsigned long long)a,(unsigned long long)n,o?o->name:"-",o?(unsigned long long)o->base:0,o?(unsigned long long)o->size:0); LabelStat* ls=labelStat(SH->labels,SH->nlabels,b); ls->hits++; reportViolation(b); finish(0); }
static inline bool okAccess(u64 a,u64 n,Obj*o){ return o&&o->alive&&a>=o->base&&a+n<=o->base+o->size&&o->kind!=K_FUNC; }
static inline Obj* access(u64 a, u64 n, bool wr){ Obj* o=findObj(a); if(!okAccess(a,n,o)||(wr&&o->ro)) memViolation(wr?"write":"read",a,n,o); return o; }
static u32 undefCtr=0;
static Expr* symByte(Obj*o,u64 off){ if(o->st[off]==1) return mkConst(o->data[off],8); if(o->st[off]==2) return (*o->sym)[off];
  if(o->kind==K_EXT){ o->st[off]=1; o->data[off]=0; return mkConst(0,8); }
  char nm[32]; snprintf(nm,32,"undef%u",undefCtr++); u32 id=g_vars.size(); g_vars.push_back({nm,8,0,255,true,false}); model.resize(g_vars.size(),0); Expr* e=mkVar(id,8); o->st[off]=2; if(!o->sym) o->sym=new std::unordered_map<u64,Expr*>(); (*o->sym)[off]=e; return e; }
static V loadC(u64 a, unsigned n, unsigned w){ Obj*o=access(a,n,false); u64 off=a-o->base; bool conc=true; for(unsigned i=0;i<n;i++) if(o->st[off+i]!=1){ conc=false; break; }
  if(conc){ u64 v=0; memcpy(&v,o->data+off,n); return CV(v&maskw(w)); }
  Expr* e=symByte(o,off); for(unsigned i=1;i<n;i++) e=mkConcat(symByte(o,off+i),e); if(e->w>w) e=mkExtract(e,0,w); return EV(e); }
static void storeC(u64 a, unsigned n, const V& v, unsigned w){ Obj*o=access(a,n,true); u64 off=a-o->base;
  if(!v.e){ u64 c=v.c&maskw(w); memcpy(o->data+off,&c,n); memset(o->st+off,1,n); return; }
  Expr* e=v.e; if(e->w<n*8) e=mkZext(e,n*8); if(!o->sym) o->sym=new std::unordered_map<u64,Expr*>();
  for(unsigned i=0;i<n;i++){ Expr* b=mkExtract(e,i*8,8); if(isC(b)){ o->data[off+i]=b->c; o->st[off+i]=1; } else { (*o->sym)[off+i]=b; o->st[off+i]=2; } } }
static void copyMem(u64 d,u64 s,u64 n){ if(!n) return; Obj*so=access(s,n,false); Obj*dd=access(d,n,true); so=findObj(s); u64 sf=s-so->base, df=d-dd->base; 
  bool anysym=so->sym&&!so->sym->empty(); 
  if(!anysym){ memmove(dd->data+df,so->data+sf,n); memmove(dd->st+df,so->st+sf,n); if(so->kind==K_EXT) memset(dd->st+df,1,n); return; }
  std::vector<std::pair<u64,Expr*>> tmp; for(u64 i=0;i<n;i++) if(so->st[sf+i]==2) tmp.push_back({i,(*so->sym)[sf+i]});
  memmove(dd->data+df,so->data+sf,n); memmove(dd->st+df,so->st+sf,n); if(tmp.size()&&!dd->sym) dd->sym=new std::unordered_map<u64,Expr*>(); for(auto&p:tmp) (*dd->sym)[df+p.first]=p.second; }
// resolve a symbolic address for an access of n bytes: list of (value) possibilities
static std::vector<u64> resolveAddr(Expr* a, u64 n, bool wr, int limit){
  std::vector<u64> vals; Expr* excl=mkConst(1,1); bool bounded=false; auto save=model;
  for(;;){ u64 x; std::vector<u64> nm; 
    if(vals.empty()){ x=evalExpr(a,model,newEpoch()); nm=model; }
    else { Res r=feasible(excl,nm); if(r!=SAT) break; x=evalExpr(a,nm,newEpoch()); }
    Obj*o=findObj(x);
    if(!okAccess(x,n,o)||(wr&&o->ro)){ // an out-of-bounds value is feasible: report, then restrict to in-bounds values
      model=nm; char b[200]; const char* k=x<4096?"null pointer":(o&&!o->alive)?"use after free":"out of bounds"; snprintf(b,200,"memory: %s %s",k,wr?"write":"read"); labelStat(SH->labels,SH->nlabels,b)->hits++; reportViolation(b); model=save;
      // find some base object: use any already-valid value, otherwise give up on this path
      u64 ref=0; bool have=false; if(vals.size()){ ref=vals[0]; have=true; } 
      if(!have) finish(0);
      Obj*ro=findObj(ref); Expr* lim=mk2(ULE,1,mk2(SUB,64,a,mkConst(ro->base,64)),mkConst(ro->size-n,64)); assume(lim); excl=mk2(AND,1,excl,lim); if(bounded) break; bounded=true; save=model; continue; }
    vals.push_back(x); if((int)vals.size()>limit) break; excl=mk2(AND,1,excl,mkNot(mkEq(a,mkConst(x,64)))); }
  model=save; return vals; }
static u64 addrFor(const V& a, u64 n, bool wr){ if(!a.e) return a.c; // fork over feasible addresses
  auto vals=resolveAddr(a.e,n,wr,3000); if(vals.size()>3000) engineError("symbolic address: too many targets"); if(vals.size()==1) { return vals[0]; } return concretize(a,64); }
// bits of e that can be set at all
static u64 mayBits(Expr* e,int d=8){ u64 m=maskw(e->w); if(e->op==CONST) return e->c; if(d<=0) return m; switch(e->op){ case ZEXT: return mayBits(e->k0,d-1); case EXTRACT: return (mayBits(e->k0,d-1)>>e->a)&m; case CONCAT: return ((mayBits(e->k0,d-1)<<e->k1->w)|mayBits(e->k1,d-1))&m; case AND: return mayBits(e->k0,d-1)&mayBits(e->k1,d-1); case OR: case XOR: return (mayBits(e->k0,d-1)|mayBits(e->k1,d-1))&m; case SHL: return isC(e->k1)&&e->k1->c<64?(mayBits(e->k0,d-1)<<e->k1->c)&m:m; case LSHR: return isC(e->k1)&&e->k1->c<64?mayBits(e->k0,d-1)>>e->k1->c:m; default: return m; } }
// a table lookup: constant base plus an index of few bits, all of it inside one object - no query needed
static bool tableRead(Expr* a,u64 n,std::vector<u64>& vals){ u64 base=0; Expr* ix=a; if(a->op==ADD){ if(isC(a->k0)){ base=a->k0->c; ix=a->k1; } else if(isC(a->k1)){ base=a->k1->c; ix=a->k0; } else return false; } else return false; u64 m=mayBits(ix); if(!m||__builtin_popcountll(m)>5) return false; Obj* o0=findObj(base); u64 v=0; do { u64 x=base+v; Obj* o=findObj(x); if(o!=o0||!okAccess(x,n,o)) return false; vals.push_back(x); v=(v-m)&m; } while(v); return true; }
static V loadV(const V& a, unsigned n, unsigned w){ if(!a.e) return loadC(a.c,n,w); std::vector<u64> tab; if(tableRead(a.e,n,tab)){ Expr* r=nullptr; for(u64 x:tab){ Expr* e=toE(loadC(x,n,w),w); r=r?mkIte(mkEq(a.e,mkConst(x,64)),e,r):e; } return EV(r); } auto vals=resolveAddr(a.e,n,false,600); if(vals.size()>600){ u64 x=concretize(a,64); return loadC(x,n,w); }
  Expr* r=nullptr; for(size_t i=0;i<vals.size();i++){ Expr* x=toE(loadC(vals[i],n,w),w); r= r? mkIte(mkEq(a.e,mkConst(vals[i],64)),x,r):x; } return EV(r); }
static void storeV(const V& a, unsigned n, const V& v, unsigned w){ storeC(addrFor(a,n,true),n,v,w); }

// ---------------------------------------------------------------- program representation
struct Opnd { int slot; V cv; };
struct Leaf { u32 off; u16 w; u16 bytes; };
struct GepTerm { int op; i64 scale; u16 w; };
struct CFunc; 
struct CInst { u16 opc; u16 w; int dst; u16 nl; u16 sw; Instruction* I; std::vector<Opnd> ops; std::vector<u16> starts; // operand leaf starts
  std::vector<Leaf> leaves; std::vector<GepTerm> gep; i64 gepOff; int t0,t1; u32 aux; Function* callee; int intr; std::vector<std::pair<u64,int>> cases; bool poisonous; };
struct Move { int dst; Opnd src; };
struct CBlock { std::vector<CInst> insts; std::vector<std::pair<int,std::vector<Move>>> phis; BasicBlock* BB; };
struct CFunc { Function* F; int idx; int nslots; std::vector<CBlock> blocks; std::vector<int> argSlot; std::vector<int> argLeaves; bool ok=false; std::unordered_map<BasicBlock*,int> bbIdx; std::unordered_map<const Value*,int> slotOf; };
static Module* M; static const DataLayout* DL; static std::unordered_map<Function*,CFunc*> cfuncs; static std::vector<std::string> fnNames;
static std::unordered_map<const GlobalValue*,u64> gaddr; static std::unordered_map<u64,Function*> fnAt;

static unsigned scalarW(Type* t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static void flatten(Type* t, u64 off, std::vector<Leaf>& out){
  if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flatten(s->getElementType(i),off+sl->getElementOffset(i),out); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ u64 sz=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) flatten(a->getElementType(),off+i*sz,out); return; }
  if(auto*v=dyn_cast<FixedVectorType>(t)){ u64 sz=DL->getTypeStoreSize(v->getElementType()); for(unsigned i=0;i<v->getNumElements();i++) flatten(v->getElementType(),off+i*sz,out); return; }
  if(t->isVoidTy()) return; unsigned w=scalarW(t); u64 b=DL->getTypeStoreSize(t); out.push_back({(u32)off,(u16)(w?w:999),(u16)b}); }
static unsigned nLeaves(Type*t){ if(t->isVoidTy()||t->isLabelTy()||t->isMetadataTy()||t->isTokenTy()) return 0; std::vector<Leaf> l; flatten(t,0,l); return l.size(); }
static u64 fnAddr(Function* F){ auto it=gaddr.find(F); if(it!=gaddr.end()) return it->second; u64 a=allocHeap(1,K_FUNC,"function"); gaddr[F]=a; fnAt[a]=F; return a; }
static u64 globalAddr(const GlobalValue* g);
static void constLeaves(const Constant* c, std::vector<V>& out);
static u64 constScalar(const Constant* c){ std::vector<V> v; constLeaves(c,v); if(v.size()!=1) engineError("constScalar"); return v[0].c; }
static void constLeaves(const Constant* c, std::vector<V>& out){
  Type* t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ out.push_back(CV(ci->getValue().getLimitedValue())); return; } out.push_back(CV(ci->getZExtValue())); return; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()||t->isFloatTy()) out.push_back(CV(cf->getValueAPF().bitcastToAPInt().getZExtValue())); else out.push_back(CV(0)); return; }
  if(isa<ConstantPointerNull>(c)){ out.push_back(CV(0)); return; }
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ unsigned n=nLeaves(t); for(unsigned i=0;i<n;i++) out.push_back(CV(0)); return; }
  if(auto*ga=dyn_cast<GlobalAlias>(c)){ constLeaves(ga->getAliasee(),out); return; }
  if(auto*gv=dyn_cast<GlobalValue>(c)){ out.push_back(CV(globalAddr(gv))); return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<cd->getNumElements();i++) constLeaves(cd->getElementAsConstant(i),out); return; }
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){ for(unsigned i=0;i<ca->getNumOperands();i++) constLeaves(ca->getOperand(i),out); return; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) engineError("const gep"); out.push_back(CV(constScalar(cast<Constant>(g->getPointerOperand()))+off.getSExtValue())); return; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(CV(constScalar(ce->getOperand(0))&maskw(scalarW(t)))); return;
    case Instruction::Trunc: out.push_back(CV(constScalar(ce->getOperand(0))&maskw(scalarW(t)))); return;
    case Instruction::Add: out.push_back(CV(constScalar(ce->getOperand(0))+constScalar(ce->getOperand(1)))); return;
    case Instruction::Sub: out.push_back(CV((constScalar(ce->getOperand(0))-constScalar(ce->getOperand(1)))&maskw(scalarW(t)))); return;
    case Instruction::ICmp: { u64 a=constScalar(ce->getOperand(0)),b=constScalar(ce->getOperand(1)); auto p=(CmpInst::Predicate)ce->getPredicate(); out.push_back(CV(p==CmpInst::ICMP_EQ? a==b: p==CmpInst::ICMP_NE? a!=b: (engineError("const icmp"),0))); return; }
    default: engineError(std::string("constexpr ")+ce->getOpcodeName()); } }
  std::string s; raw_string_ostream os(s); c->print(os); engineError("constant "+s.substr(0,100)); }
static void initGlobal(const Constant* c, u64 addr){ Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)){ u64 n=DL->getTypeAllocSize(t); Obj*o=findObj(addr); memset(o->st+(addr-o->base),1,n); return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); Obj*o=findObj(addr); memcpy(o->data+(addr-o->base),r.data(),r.size()); memset(o->st+(addr-o->base),1,r.size()); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initGlobal(cs->getOperand(i),addr+sl->getElementOffset(i)); return; }
  if(auto*ca=dyn_cast<ConstantArray>(c)){ u64 sz=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initGlobal(ca->getOperand(i),addr+i*sz); return; }
  if(isa<UndefValue>(c)){ u64 n=DL->getTypeAllocSize(t); Obj*o=findObj(addr); memset(o->st+(addr-o->base),1,n); return; }
  std::vector<V> v; std::vector<Leaf> l; constLeaves(c,v); flatten(t,0,l); for(size_t i=0;i<v.size();i++){ Obj*o=findObj(addr+l[i].off); memcpy(o->data+(addr+l[i].off-o->base),&v[i].c,l[i].bytes); memset(o->st+(addr+l[i].off-o->base),1,l[i].bytes); } }
static u64 globalAddr(const GlobalValue* g){ auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(auto*F=dyn_cast<Function>(g)) return fnAddr(const_cast<Function*>(F));
  if(auto*ga=dyn_cast<GlobalAlias>(g)) return constScalar(ga->getAliasee());
  auto*gv=cast<GlobalVariable>(g);
  char* nm=strdup(gv->getName().str().c_str());
  if(gv->isDeclaration()||!gv->hasInitializer()){ u64 sz=gv->getValueType()->isSized()?(u64)DL->getTypeAllocSize(gv->getValueType()):8; u64 a=allocHeap(std::max<u64>(sz,256),K_EXT,nm); gaddr[g]=a; return a; }
  u64 a=allocHeap(DL->getTypeAllocSize(gv->getValueType()),K_GLOBAL,nm,gv->getAlign()?gv->getAlign()->value():16); gaddr[g]=a; initGlobal(gv->getInitializer(),a); findObj(a); Obj*o=findObj(a); if(o&&gv->isConstant()) o->ro=true; return a; }

enum Intr { I_NONE=0, I_UNKNOWN };
typedef void (*IntrFn)(CInst& ci, std::vector<V>& args, V* ret);
static std::unordered_map<std::string,IntrFn> mathTab();
static std::unordered_map<std::string,IntrFn> intrTab; static std::vector<IntrFn> intrVec;
static void setupIntrinsics();

static CFunc* getCF(Function* F){
  auto it=cfuncs.find(F); if(it!=cfuncs.end()) return it->second;
  CFunc* cf=new CFunc(); cfuncs[F]=cf; cf->F=F; cf->nslots=0; cf->idx=fnNames.size(); fnNames.push_back(F->getName().str());
  auto slot=[&](const Value* v){ auto it=cf->slotOf.find(v); if(it!=cf->slotOf.end()) return it->second; int s=cf->nslots; cf->nslots+=std::max(1u,nLeaves(v->getType())); cf->slotOf[v]=s; return s; };
  for(auto&A:F->args()){ cf->argSlot.push_back(slot(&A)); cf->argLeaves.push_back(nLeaves(A.getType())); }
  int n=0; for(auto&B:*F) cf->bbIdx[&B]=n++;
  cf->blocks.resize(n);
  auto opnds=[&](const Value* v, std::vector<Opnd>& out){ if(auto*c=dyn_cast<Constant>(v)){ std::vector<V> vs; constLeaves(c,vs); for(auto&x:vs) out.push_back({-1,x}); return; }
    if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)) return; int s=slot(v); unsigned k=nLeaves(v->getType()); for(unsigned i=0;i<k;i++) out.push_back({s+(int)i,CV(0)}); };
  int bi=0; for(auto&B:*F){ CBlock& cb=cf->blocks[bi++]; cb.BB=&B;
    for(auto&I:B){
      if(auto*ph=dyn_cast<PHINode>(&I)){ for(unsigned i=0;i<ph->getNumIncomingValues();i++){ int pi=cf->bbIdx[ph->getIncomingBlock(i)]; std::vector<Move>* mv=nullptr; for(auto&p:cb.phis) if(p.first==pi) mv=&p.second; if(!mv){ cb.phis.push_back({pi,{}}); mv=&cb.phis.back().second; }
          bool dup=false; int ds=slot(ph); for(auto&m:*mv) if(m.dst==ds) dup=true; if(dup) continue; std::vector<Opnd> o; opnds(ph->getIncomingValue(i),o); for(size_t k=0;k<o.size();k++) mv->push_back({ds+(int)k,o[k]}); } continue; }
      if(isa<DbgInfoIntrinsic>(&I)) continue;
      cb.insts.emplace_back(); CInst& c=cb.insts.back(); c.opc=I.getOpcode(); c.I=&I; c.callee=nullptr; c.intr=0; c.t0=c.t1=0; c.gepOff=0; c.aux=0; c.sw=0; c.poisonous=false;
      c.nl=nLeaves(I.getType()); c.dst=I.getType()->isVoidTy()?-1:slot(&I); Type*st=I.getType(); if(auto*vt=dyn_cast<FixedVectorType>(st)) st=vt->getElementType(); c.w=scalarW(st);
      if(I.getNumOperands()>0){ Type* ot=I.getOperand(0)->getType(); if(auto*vt=dyn_cast<FixedVectorType>(ot)) ot=vt->getElementType(); c.sw=scalarW(ot); }
      if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ c.starts.push_back(0); opnds(g->getPointerOperand(),c.ops); if(g->getType()->isVectorTy()) { c.aux=1; continue; }
        for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value* idx=gi.getOperand(); if(auto*stt=gi.getStructTypeOrNull()){ c.gepOff+=DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          i64 sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*k=dyn_cast<ConstantInt>(idx)){ c.gepOff+=k->getSExtValue()*sc; continue; } int p=c.ops.size(); opnds(idx,c.ops); c.gep.push_back({p,sc,(u16)scalarW(idx->getType())}); }
        continue; }
      if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ opnds(br->getCondition(),c.ops); c.t0=cf->bbIdx[br->getSuccessor(0)]; c.t1=cf->bbIdx[br->getSuccessor(1)]; } else c.t0=cf->bbIdx[br->getSuccessor(0)]; continue; }
      if(auto*sw=dyn_cast<SwitchInst>(&I)){ opnds(sw->getCondition(),c.ops); c.t0=cf->bbIdx[sw->getDefaultDest()]; for(auto k:sw->cases()) c.cases.push_back({k.getCaseValue()->getZExtValue(),cf->bbIdx[k.getCaseSuccessor()]}); c.sw=scalarW(sw->getCondition()->getType()); continue; }
      if(auto*cb2=dyn_cast<CallBase>(&I)){ for(unsigned i=0;i<cb2->arg_size();i++){ c.starts.push_back(c.ops.size()); opnds(cb2->getArgOperand(i),c.ops); } c.starts.push_back(c.ops.size());
        c.aux=c.ops.size(); Value* cv=cb2->getCalledOperand()->stripPointerCasts(); while(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliasee()->stripPointerCasts();
        if(auto*f=dyn_cast<Function>(cv)) { c.callee=f; } else if(!isa<InlineAsm>(cv)) { opnds(cb2->getCalledOperand(),c.ops); }
        if(auto*iv=dyn_cast<InvokeInst>(&I)){ c.t0=cf->bbIdx[iv->getNormalDest()]; c.t1=cf->bbIdx[iv->getUnwindDest()]; } continue; }
      if(auto*al=dyn_cast<AllocaInst>(&I)){ c.gepOff=DL->getTypeAllocSize(al->getAllocatedType()); c.aux=al->getAlign().value(); opnds(al->getArraySize(),c.ops); continue; }
      for(unsigned i=0;i<I.getNumOperands();i++){ c.starts.push_back(c.ops.size()); opnds(I.getOperand(i),c.ops); } c.starts.push_back(c.ops.size());
      if(isa<LoadInst>(&I)) flatten(I.getType(),0,c.leaves); else if(isa<StoreInst>(&I)) flatten(I.getOperand(0)->getType(),0,c.leaves); else if(isa<AtomicRMWInst>(&I)||isa<AtomicCmpXchgInst>(&I)) flatten(I.getOperand(1)->getType(),0,c.leaves);
    } }
  cf->ok=true; return cf; }

struct Frame { CFunc* f; std::vector<V> regs; int bb, ip; std::vector<u32> allocas; u64 stkSave; CInst* call; std::vector<std::pair<V,unsigned>> varargs; };
static std::vector<Frame> stack_; 
struct Exc { u64 obj, ti; int handlers; u64 adj; }; static std::map<u64,Exc> excs; static std::vector<u64> caught; static u64 curExc=0;

static std::string dem(const std::string& s){ return demangle(s); }
static std::string locOf(Instruction* I){ if(!I) return ""; if(auto dl=I->getDebugLoc()){ auto*sc=dl.get(); std::string s=sc->getFilename().str()+":"+std::to_string(sc->getLine()); while(auto*in=sc->getInlinedAt()){ sc=in; s+=" < "+sc->getFilename().str()+":"+std::to_string(sc->getLine()); } return s; } return ""; }
static std::string whereAmI(){ if(stack_.empty()) return "?"; auto&f=stack_.back(); std::string s=dem(f.f->F->getName().str()); if(f.ip>0&&f.ip<=(int)f.f->blocks[f.bb].insts.size()) s+=" ["+locOf(f.f->blocks[f.bb].insts[f.ip-1].I)+"]"; return s.substr(0,600); }
static std::string stackTrace(){ std::string s; int n=0; for(int i=(int)stack_.size()-1;i>=0&&n<14;i--,n++){ auto&f=stack_[i]; s+=dem(f.f->F->getName().str()).substr(0,110); if(f.ip>0&&f.ip<=(int)f.f->blocks[f.bb].insts.size()) s+=" ["+locOf(f.f->blocks[f.bb].insts[f.ip-1].I).substr(0,120)+"]"; s+="; "; } return s; }
[[noreturn]] static void engineError(const std::string& m){ SH->errors++; logErr("ENGINE: "+m+" @ "+whereAmI()+" || "+stackTrace()); if(verbose) fprintf(stderr,"ENGINE ERROR %s\n%s\n",m.c_str(),stackTrace().c_str()); finish(0); }

static void popFrame(){ Frame& f=stack_.back(); for(u32 i:f.allocas) freeStack(i); stkTop=f.stkSave; stack_.pop_back(); }
static std::vector<std::vector<V>> regPool;
static void pushFrame(Function* F, std::vector<V>& args /*leaves*/, const std::vector<u16>& starts, CInst* call, CallBase* cb){
  if(stack_.size()>4000) { reportViolation("resource: unbounded recursion"); finish(0); }
  CFunc* cf=getCF(F); if(cf->idx<MAXF) SH->fcov[cf->idx]=1; 
  stack_.emplace_back(); Frame& f=stack_.back(); f.f=cf; if(regPool.size()){ f.regs.swap(regPool.back()); regPool.pop_back(); } f.regs.assign(cf->nslots,CV(0)); f.bb=0; f.ip=0; f.call=call; f.stkSave=stkTop;
  unsigned na=cf->argSlot.size(); for(unsigned i=0;i<na&&i+1<starts.size();i++){ for(int k=0;k<cf->argLeaves[i];k++){ u16 p=starts[i]+k; if(p<starts[i+1]) f.regs[cf->argSlot[i]+k]=args[p]; }
    if(cb&&i<cb->arg_size()&&cb->isByValArgument(i)){ u64 sz=DL->getTypeAllocSize(cb->getParamByValType(i)); u32 o=allocStack(sz,16); f.allocas.push_back(o); u64 src=concretize(args[starts[i]],64); copyMem(objs[o].base,src,sz); f.regs[cf->argSlot[i]]=CV(objs[o].base); } }
  if(F->isVarArg()&&cb) for(unsigned i=na;i+1<starts.size();i++) for(u16 p=starts[i];p<starts[i+1];p++){ unsigned w=scalarW(cb->getArgOperand(i)->getType()); f.varargs.push_back({args[p],w?w:64}); }
}
static void enterBlock(Frame& f,int to){ CBlock& b=f.f->blocks[to]; if(!b.phis.empty()){ for(auto&p:b.phis) if(p.first==f.bb){ static std::vector<V> tmp; tmp.clear(); for(auto&m:p.second) tmp.push_back(m.src.slot>=0? f.regs[m.src.slot]:m.src.cv); for(size_t i=0;i<tmp.size();i++) f.regs[p.second[i].dst]=tmp[i]; break; } } f.bb=to; f.ip=0; }

// ---------------------------------------------------------------- exceptions
static const char* stdHier[][2]={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"}};
static bool tiMatch(u64 thrown, u64 want, u64& adj, int depth=0){ // by name so that duplicate linkage is harmless
  if(thrown==want) return true; if(depth>10) return false;
  const GlobalVariable *tg=nullptr; static std::unordered_map<u64,const GlobalVariable*> rev; if(rev.empty()) for(auto&g:M->globals()) if(g.getName().starts_with("_ZTI")) rev[globalAddr(&g)]=&g;
  auto it=rev.find(thrown); if(it==rev.end()) return false; tg=it->second;
  if(tg->hasInitializer()){ auto*cs=dyn_cast<ConstantStruct>(tg->getInitializer()); if(!cs) return false; unsigned n=cs->getNumOperands(); if(n<3) return false; if(n==3) return tiMatch(constScalar(cs->getOperand(2)),want,adj,depth+1);
    for(unsigned i=4;i+1<n;i+=2){ u64 a=adj; i64 fl=(i64)constScalar(cs->getOperand(i+1)); u64 na=adj; if(fl&1){ na=adj; /* virtual base: unsupported */ if(tiMatch(constScalar(cs->getOperand(i)),want,na,depth+1)) engineError("virtual base in exception type"); continue; } na=adj+(fl>>8); if(tiMatch(constScalar(cs->getOperand(i)),want,na,depth+1)){ adj=na; return true; } adj=a; } return false; }
  std::string nm=tg->getName().str(); for(auto&h:stdHier) if(nm==h[0]){ if(auto*b=M->getNamedGlobal(h[1])) return tiMatch(globalAddr(b),want,adj,depth+1); } return false; }
static int typeId(u64 ti){ static std::vector<u64> ids; for(size_t i=0;i<ids.size();i++) if(ids[i]==ti) return i+1; ids.push_back(ti); return ids.size(); }
static std::string excName(u64 ti){ for(auto&g:M->globals()) if(g.getName().starts_with("_ZTI")&&gaddr.count(&g)&&gaddr[&g]==ti) return dem(g.getName().str()); return "?"; }
static int baseDepth=0;
static void doUnwind(u64 exobj){ Exc& x=excs[exobj];
  std::string where=whereAmI();
  while((int)stack_.size()>baseDepth){ Frame& f=stack_.back(); CBlock& cb=f.f->blocks[f.bb]; CInst* ci=f.ip>0?&cb.insts[f.ip-1]:nullptr;
    if(ci&&ci->opc==Instruction::Invoke){ BasicBlock* lpB=cast<InvokeInst>(ci->I)->getUnwindDest(); LandingPadInst* lp=lpB->getLandingPadInst(); if(!lp) engineError("no landingpad"); int sel=-1; bool enter=lp->isCleanup(); if(enter) sel=0; u64 adj=x.obj;
      for(unsigned i=0;i<lp->getNumClauses();i++){ if(lp->isCatch(i)){ u64 ti=constScalar(lp->getClause(i)); adj=x.obj; if(ti==0||tiMatch(x.ti,ti,adj)){ enter=true; sel=ti?typeId(ti):typeId(0); break; } } else { unsigned nf=cast<ArrayType>(lp->getClause(i)->getType())->getNumElements(); bool any=false; if(nf){ std::vector<V> vs; constLeaves(lp->getClause(i),vs); for(auto&v:vs){ u64 a=x.obj; if(tiMatch(x.ti,v.c,a)) any=true; } } if(!any){ enter=true; sel=-1; break; } } }
      if(enter){ x.adj=adj; enterBlock(f,ci->t1); 
        int s=f.f->slotOf[lp]; f.regs[s]=CV(x.obj); f.regs[s+1]=CV((u32)sel);
        // position after landingpad
        CBlock& nb=f.f->blocks[f.bb]; int k=0; while(k<(int)nb.insts.size()&&nb.insts[k].I!=lp) k++; f.ip=k+1; return; } }
    popFrame(); }
  std::string lab="uncaught exception: "+excName(x.ti); labelStat(SH->labels,SH->nlabels,lab)->hits++; reportViolation(lab); finish(0); }

// ---------------------------------------------------------------- arithmetic
static inline V bin(Op op, unsigned w, const V& a, const V& b){ if(!a.e&&!b.e) return CV(evalOp(op,w,w,a.c,b.c,0,0)); return EV(mk2(op,w,toE(a,w),toE(b,w))); }
static inline V cmp(Op op, unsigned w, const V& a, const V& b){ if(!a.e&&!b.e) return CV(evalOp(op,1,w,a.c,b.c,0,0)); return EV(mk2(op,1,toE(a,w),toE(b,w))); }
static inline V notV(const V& a){ if(!a.e) return CV(!a.c); return EV(mkNot(a.e)); }
static V icmp(CmpInst::Predicate p, unsigned w, const V&a, const V&b){ switch(p){ case CmpInst::ICMP_EQ: return cmp(EQ,w,a,b); case CmpInst::ICMP_NE: return notV(cmp(EQ,w,a,b)); case CmpInst::ICMP_ULT: return cmp(ULT,w,a,b); case CmpInst::ICMP_ULE: return cmp(ULE,w,a,b); case CmpInst::ICMP_UGT: return cmp(ULT,w,b,a); case CmpInst::ICMP_UGE: return cmp(ULE,w,b,a); case CmpInst::ICMP_SLT: return cmp(SLT,w,a,b); case CmpInst::ICMP_SLE: return cmp(SLE,w,a,b); case CmpInst::ICMP_SGT: return cmp(SLT,w,b,a); case CmpInst::ICMP_SGE: return cmp(SLE,w,b,a); default: engineError("icmp"); } }
static V orB(const V&a,const V&b){ return bin(OR,1,a,b); } static V andB(const V&a,const V&b){ return bin(AND,1,a,b); }
static V fcmp(CmpInst::Predicate p, unsigned w, const V&a0, const V&b0){ V a=a0,b=b0; if(w==32){ if(a.e||b.e) engineError("symbolic float32"); float x,y; u32 u=a.c; memcpy(&x,&u,4); u=b.c; memcpy(&y,&u,4); a=CV(asU(x)); b=CV(asU(y)); }
  auto eq=[&]{ return cmp(FOEQ,64,a,b); }; auto lt=[&](const V&x,const V&y){ return cmp(FOLT,64,x,y); }; auto le=[&](const V&x,const V&y){ return cmp(FOLE,64,x,y); }; auto un=[&]{ return cmp(FUNO,64,a,b); };
  switch(p){ case CmpInst::FCMP_OEQ: return eq(); case CmpInst::FCMP_UNE: return notV(eq()); case CmpInst::FCMP_OLT: return lt(a,b); case CmpInst::FCMP_OLE: return le(a,b); case CmpInst::FCMP_OGT: return lt(b,a); case CmpInst::FCMP_OGE: return le(b,a); case CmpInst::FCMP_UNO: return un(); case CmpInst::FCMP_ORD: return notV(un());
   case CmpInst::FCMP_ULT: return notV(le(b,a)); case CmpInst::FCMP_ULE: return notV(lt(b,a)); case CmpInst::FCMP_UGT: return notV(le(a,b)); case CmpInst::FCMP_UGE: return notV(lt(a,b)); case CmpInst::FCMP_ONE: return orB(lt(a,b),lt(b,a)); case CmpInst::FCMP_UEQ: return notV(orB(lt(a,b),lt(b,a))); case CmpInst::FCMP_TRUE: return CV(1); case CmpInst::FCMP_FALSE: return CV(0); default: engineError("fcmp"); } }
static V sel(const V&c,const V&a,const V&b,unsigned w){ if(!c.e) return c.c?a:b; if(!a.e&&!b.e&&a.c==b.c) return a; return EV(mkIte(c.e,toE(a,w),toE(b,w))); }
static V trunc_(const V&a,unsigned from,unsigned to){ (void)from; if(!a.e) return CV(a.c&maskw(to)); return EV(mkExtract(a.e,0,to)); }
static V zext_(const V&a,unsigned,unsigned to){ if(!a.e) return a; return EV(mkZext(a.e,to)); }
static V sext_(const V&a,unsigned from,unsigned to){ if(!a.e) return CV((u64)sextw(a.c,from)&maskw(to)); return EV(mkSext(a.e,to)); }
static V f1(Op op,unsigned w,const V&a,unsigned kw,u32 aux=0){ if(!a.e) return CV(evalOp(op,w,kw,a.c,0,0,aux)); return EV(mk1(op,w,a.e,aux)); }
static void cast_(CInst& c, Frame& f){ 
  auto get=[&](int i)->V{ Opnd&o=c.ops[i]; return o.slot>=0? f.regs[o.slot]:o.cv; };
  unsigned fw=c.sw,tw=c.w;
  if(c.opc==Instruction::BitCast){ unsigned n=c.ops.size(); if(n==c.nl){ for(unsigned i=0;i<n;i++) f.regs[c.dst+i]=get(i); return; }
    // repack little endian
    Expr* all=nullptr; unsigned tot=fw*n; if(tot>64||!fw||!tw) engineError("bitcast >64 bits"); for(unsigned i=0;i<n;i++){ Expr* x=toE(get(i),fw); all=all?mkConcat(x,all):x; } for(unsigned i=0;i<c.nl;i++) f.regs[c.dst+i]=EV(mkExtract(all,i*tw,tw)); return; }
  for(unsigned i=0;i<c.nl;i++){ V a=get(i),r; switch(c.opc){
    case Instruction::Trunc: r=trunc_(a,fw,tw); break; case Instruction::ZExt: r=zext_(a,fw,tw); break; case Instruction::SExt: r=sext_(a,fw,tw); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: if(fw>tw) r=trunc_(a,fw,tw); else r=zext_(a,fw,tw); break;
    case Instruction::SIToFP: if(tw==32){ if(a.e) engineError("symbolic float32"); float x=(float)sextw(a.c,fw); u32 u; memcpy(&u,&x,4); r=CV(u);} else r=f1(SITOFP,64,a,fw); break;
    case Instruction::UIToFP: if(tw==32){ if(a.e) engineError("symbolic float32"); float x=(float)a.c; u32 u; memcpy(&u,&x,4); r=CV(u);} else r=f1(UITOFP,64,a,fw); break;
    case Instruction::FPToSI: if(fw==32){ if(a.e) engineError("symbolic float32"); float x; u32 u=a.c; memcpy(&x,&u,4); r=CV((u64)(i64)x&maskw(tw)); } else r=f1(FPTOSI,tw,a,64); break;
    case Instruction::FPToUI: if(fw==32){ if(a.e) engineError("symbolic float32"); float x; u32 u=a.c; memcpy(&x,&u,4); r=CV((u64)x&maskw(tw)); } else r=f1(FPTOUI,tw,a,64); break;
    case Instruction::FPExt: if(a.e||!tw) engineError("symbolic fpext"); { float x; u32 u=a.c; memcpy(&x,&u,4); r=CV(asU(x)); } break;
    case Instruction::FPTrunc: if(a.e||!tw||!fw) engineError("symbolic fptrunc"); { float x=(float)asD(a.c); u32 u; memcpy(&u,&x,4); r=CV(u); } break;
    case Instruction::AddrSpaceCast: r=a; break; default: engineError("cast"); }
    f.regs[c.dst+i]=r; } }

// ---------------------------------------------------------------- calls
static std::set<std::string> stubsUsed;
static void retTo(V* vals, int n);
static void callFunction(Frame& f0, CInst& c){
  static thread_local int dummy; (void)dummy;
  std::vector<V> args; args.reserve(c.aux); for(unsigned i=0;i<c.aux;i++){ Opnd&o=c.ops[i]; args.push_back(o.slot>=0? f0.regs[o.slot]:o.cv); }
  Function* F=c.callee; CallBase* cb=cast<CallBase>(c.I);
  if(!F){ if(cb->isInlineAsm()){ auto*ia=cast<InlineAsm>(cb->getCalledOperand()); if(ia->getAsmString().empty()) { if(c.opc==Instruction::Invoke) enterBlock(f0,c.t0); return; } engineError("inline asm"); }
    Opnd&o=c.ops[c.aux]; V t=o.slot>=0?f0.regs[o.slot]:o.cv; u64 a=concretize(t,64); auto it=fnAt.find(a); if(it==fnAt.end()) memViolation("call",a,1,findObj(a)); F=it->second; }
  // intrinsic?
  auto ci=c.intr; IntrFn fn=nullptr;
  if(c.callee&&ci>=2) fn=intrVec[ci];
  else if(!c.callee||ci==0){ auto it=intrTab.find(F->getName().str()); if(it==intrTab.end()&&F->isIntrinsic()){ std::string n=F->getName().str(); // strip type suffixes
        for(;;){ size_t p=n.rfind('.'); if(p==std::string::npos||p<=4) break; n=n.substr(0,p); it=intrTab.find(n); if(it!=intrTab.end()) break; } }
      if(it==intrTab.end()&&F->isDeclaration()){ static std::unordered_map<std::string,IntrFn> mt=mathTab(); auto mi=mt.find(F->getName().str()); if(mi!=mt.end()) fn=mi->second; }
      if(it!=intrTab.end()){ fn=it->second; if(c.callee){ intrVec.push_back(fn); c.intr=intrVec.size()-1; } } else if(c.callee&&!fn) c.intr=1; }
  if(fn){ V ret[4]={CV(0),CV(0),CV(0),CV(0)}; size_t depth=stack_.size(); void* fcur=stack_.back().f; int bb=stack_.back().bb, ip=stack_.back().ip; fn(c,args,ret); 
    if(stack_.size()==depth&&stack_.back().f==fcur&&stack_.back().bb==bb&&stack_.back().ip==ip){ Frame& f=stack_.back(); for(int i=0;i<c.nl&&i<4;i++) f.regs[c.dst+i]=ret[i]; if(c.opc==Instruction::Invoke) enterBlock(f,c.t0); }
    return; }
  if(F->isDeclaration()){ engineError("call to undefined external function "+F->getName().str()); }
  pushFrame(F,args,c.starts,&c,cb); }
static void doReturn(CInst& c){ Frame& f=stack_.back(); static std::vector<V> vals; vals.clear(); for(auto&o:c.ops) vals.push_back(o.slot>=0?f.regs[o.slot]:o.cv); CInst* call=f.call; regPool.push_back(std::move(f.regs)); f.regs.clear(); popFrame(); if(stack_.empty()||!call) return; Frame& p=stack_.back(); if(call->dst>=0) for(size_t i=0;i<vals.size()&&i<call->nl;i++) p.regs[call->dst+i]=vals[i]; if(call->opc==Instruction::Invoke) enterBlock(p,call->t0); }

static const Op binOps[]={ADD,ADD};
static Op binOp(unsigned opc){ switch(opc){ case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL; case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM; case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR; case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR; case Instruction::FAdd: return FADD; case Instruction::FSub: return FSUB; case Instruction::FMul: return FMUL; case Instruction::FDiv: return FDIV; default: return CONST; } }

static void run(int base){ // run until stack depth == base
  int savedBase=baseDepth; baseDepth=base;
  while((int)stack_.size()>base){
    Frame& f=stack_.back(); CInst& c=f.f->blocks[f.bb].insts[f.ip++]; nInsts++; steps++;
    if((steps&0xffff)==0) checkStop();
    if(steps>stepLimit){ SH->stepLimit++; labelStat(SH->labels,SH->nlabels,"resource: step limit (possible non-termination)")->hits++; reportViolation("resource: step limit (possible non-termination)"); finish(0); }
    auto get=[&](int i)->const V&{ Opnd&o=c.ops[i]; return o.slot>=0? f.regs[o.slot]:o.cv; };
    switch(c.opc){
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Op op=binOp(c.opc); if(c.w==0||c.w>64) engineError("int width "+std::to_string(c.w)); if(c.nl==1){ f.regs[c.dst]=bin(op,c.w,get(0),get(1)); } else for(int i=0;i<c.nl;i++) f.regs[c.dst+i]=bin(op,c.w,get(c.starts[0]+i),get(c.starts[1]+i)); break; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { if(c.w==0||c.w>64) engineError("int width");
      V b=get(1); if(b.e) check(mkNot(mkEq(b.e,mkConst(0,c.w))),"arithmetic: division by zero"); else if(!b.c){ reportViolation("arithmetic: division by zero"); finish(0); }
      Frame& g=stack_.back(); g.regs[c.dst]=bin(binOp(c.opc),c.w,get(0),get(1)); break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: for(int i=0;i<c.nl;i++){ const V&a=get(c.starts[0]+i),&b=get(c.starts[1]+i); if(c.w==32){ if(a.e||b.e) engineError("symbolic float32"); float x,y,z; u32 u=a.c; memcpy(&x,&u,4); u=b.c; memcpy(&y,&u,4); z=c.opc==Instruction::FAdd?x+y:c.opc==Instruction::FSub?x-y:c.opc==Instruction::FMul?x*y:x/y; memcpy(&u,&z,4); f.regs[c.dst+i]=CV(u); } else if(c.w!=64) engineError("fp width"); else f.regs[c.dst+i]=bin(binOp(c.opc),64,a,b); } break;
    case Instruction::FRem: { V a=get(0),b=get(1); if(a.e||b.e) engineError("symbolic frem"); f.regs[c.dst]=CV(asU(fmod(asD(a.c),asD(b.c)))); break; }
    case Instruction::FNeg: for(int i=0;i<c.nl;i++){ if(c.w!=64) engineError("fneg32"); f.regs[c.dst+i]=f1(FNEG,64,get(i),64); } break;
    case Instruction::ICmp: { auto p=cast<CmpInst>(c.I)->getPredicate(); if(!c.sw||c.sw>64) engineError("icmp width"); for(int i=0;i<c.nl;i++) f.regs[c.dst+i]=icmp(p,c.sw,get(c.starts[0]+i),get(c.starts[1]+i)); break; }
    case Instruction::FCmp: { auto p=cast<CmpInst>(c.I)->getPredicate(); for(int i=0;i<c.nl;i++) f.regs[c.dst+i]=fcmp(p,c.sw,get(c.starts[0]+i),get(c.starts[1]+i)); break; }
    case Instruction::Select: { unsigned nc=c.starts[1]; Type*t=c.I->getType(); std::vector<Leaf> lv; if(c.nl>1||!c.w) flatten(t,0,lv); for(int i=0;i<c.nl;i++){ unsigned w=lv.size()?lv[i].w:c.w; f.regs[c.dst+i]=sel(get(nc>1?i:0),get(c.starts[1]+i),get(c.starts[2]+i),w); } break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast: cast_(c,f); break;
    case Instruction::Freeze: for(int i=0;i<c.nl;i++) f.regs[c.dst+i]=get(i); break;
    case Instruction::GetElementPtr: { if(c.aux) engineError("vector gep"); V a=get(0); if(c.gep.empty()){ if(!a.e) f.regs[c.dst]=CV(a.c+c.gepOff); else f.regs[c.dst]=bin(ADD,64,a,CV(c.gepOff)); break; }
      V r=bin(ADD,64,a,CV(c.gepOff)); for(auto&g:c.gep){ V ix=get(g.op); if(g.w<64) ix=sext_(ix,g.w,64); r=bin(ADD,64,r,bin(MUL,64,ix,CV((u64)g.scale))); } f.regs[c.dst]=r; break; }
    case Instruction::Alloca: { V n=get(0); u64 k=concretize(n,64); Frame& g=stack_.back(); u32 o=allocStack((u64)c.gepOff*k,c.aux); g.allocas.push_back(o); g.regs[c.dst]=CV(objs[o].base); break; }
    case Instruction::Load: { V a=get(0); for(int i=0;i<c.nl;i++){ Leaf&l=c.leaves[i]; if(l.w==999||l.w>64) { if(l.bytes==16||l.bytes==10) engineError("load of >64-bit scalar"); engineError("load type"); } V ad=a; if(l.off) ad=bin(ADD,64,a,CV(l.off)); stack_.back().regs[c.dst+i]=loadV(ad,l.bytes,l.w); } break; }
    case Instruction::Store: { V a=get(c.starts[1]); int n=c.leaves.size(); for(int i=0;i<n;i++){ Leaf&l=c.leaves[i]; if(l.w==999||l.w>64) engineError("store of >64-bit scalar"); V ad=a; if(l.off) ad=bin(ADD,64,a,CV(l.off)); storeV(ad,l.bytes,get(c.starts[0]+i),l.w); } break; }
    case Instruction::Br: { if(c.ops.empty()){ enterBlock(f,c.t0); nBranch++; break; } V k=get(0); bool b; if(!k.e){ b=k.c; nBranch++; } else b=forkOn(k.e); enterBlock(stack_.back(),b?c.t0:c.t1); break; }
    case Instruction::Switch: { V k=get(0); int t=c.t0; if(!k.e){ for(auto&p:c.cases) if(p.first==k.c){ t=p.second; break; } } else { for(auto&p:c.cases){ Expr* q=mkEq(k.e,mkConst(p.first,c.sw)); if(forkOn(q)){ t=p.second; break; } } } enterBlock(stack_.back(),t); break; }
    case Instruction::Ret: doReturn(c); break;
    case Instruction::Call: case Instruction::Invoke: callFunction(f,c); break;
    case Instruction::Unreachable: { std::string l="reached unreachable code"; labelStat(SH->labels,SH->nlabels,l)->hits++; reportViolation(l); finish(0); }
    case Instruction::ExtractValue: { auto*ev=cast<ExtractValueInst>(c.I); Type*t=ev->getAggregateOperand()->getType(); unsigned off=0; for(unsigned ix:ev->indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<ix;i++) off+=nLeaves(s->getElementType(i)); t=s->getElementType(ix); } else { auto*at=cast<ArrayType>(t); off+=ix*nLeaves(at->getElementType()); t=at->getElementType(); } } for(int i=0;i<c.nl;i++) f.regs[c.dst+i]=get(off+i); break; }
    case Instruction::InsertValue: { auto*ev=cast<InsertValueInst>(c.I); Type*t=ev->getType(); unsigned off=0; for(unsigned ix:ev->indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<ix;i++) off+=nLeaves(s->getElementType(i)); t=s->getElementType(ix); } else { auto*at=cast<ArrayType>(t); off+=ix*nLeaves(at->getElementType()); t=at->getElementType(); } } std::vector<V> tmp; for(int i=0;i<c.nl;i++) tmp.push_back(get(i)); unsigned n=c.starts[2]-c.starts[1]; for(unsigned i=0;i<n;i++) tmp[off+i]=get(c.starts[1]+i); for(int i=0;i<c.nl;i++) f.regs[c.dst+i]=tmp[i]; break; }
    case Instruction::ExtractElement: { V ix=get(c.starts[1]); if(ix.e) engineError("symbolic extractelement"); f.regs[c.dst]=get(ix.c); break; }
    case Instruction::InsertElement: { V ix=get(c.starts[2]); if(ix.e) engineError("symbolic insertelement"); std::vector<V> tmp; for(int i=0;i<c.nl;i++) tmp.push_back(get(i)); tmp[ix.c]=get(c.starts[1]); for(int i=0;i<c.nl;i++) f.regs[c.dst+i]=tmp[i]; break; }
    case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(c.I); auto mask=sv->getShuffleMask(); std::vector<V> tmp; for(int m:mask) tmp.push_back(m<0?CV(0):get(m)); for(int i=0;i<c.nl;i++) f.regs[c.dst+i]=tmp[i]; break; }
    case Instruction::LandingPad: engineError("landingpad executed"); 
    case Instruction::Resume: { V x=get(0); doUnwind(x.c); break; }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: { auto*r=cast<AtomicRMWInst>(c.I); V a=get(0); unsigned w=c.leaves[0].w,n=c.leaves[0].bytes; u64 ad=addrFor(a,n,true); Frame& g=stack_.back(); V old=loadC(ad,n,w), v=get(c.starts[1]), nv; switch(r->getOperation()){ case AtomicRMWInst::Add: nv=bin(ADD,w,old,v); break; case AtomicRMWInst::Sub: nv=bin(SUB,w,old,v); break; case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::And: nv=bin(AND,w,old,v); break; case AtomicRMWInst::Or: nv=bin(OR,w,old,v); break; case AtomicRMWInst::Xor: nv=bin(XOR,w,old,v); break; default: engineError("atomicrmw"); } storeC(ad,n,nv,w); g.regs[c.dst]=old; break; }
    case Instruction::AtomicCmpXchg: { V a=get(0); unsigned w=c.leaves[0].w,n=c.leaves[0].bytes; u64 ad=addrFor(a,n,true); Frame& g=stack_.back(); V old=loadC(ad,n,w), e=get(c.starts[1]), v=get(c.starts[2]); V eq=cmp(EQ,w,old,e); storeC(ad,n,sel(eq,v,old,w),w); g.regs[c.dst]=old; g.regs[c.dst+1]=eq; break; }
    case Instruction::VAArg: engineError("va_arg");
    default: engineError(std::string("instruction ")+c.I->getOpcodeName()); } }
  baseDepth=savedBase; }

// ---------------------------------------------------------------- intrinsics
// functions of the mathematical library that no stand-in defines: concrete arguments only
static double cArg(const V& v,const char* n){ if(v.e) engineError(std::string("symbolic argument of ")+n); double d; memcpy(&d,&v.c,8); return d; }
static std::unordered_map<std::string,IntrFn> mathTab(){ std::unordered_map<std::string,IntrFn> t;
  #define M1(nm) t[#nm]=[](CInst& ci,std::vector<V>& a,V* ret){ if(ci.w!=64) engineError("float32 fn"); double r=std::nm(cArg(a[0],#nm)); u64 u; memcpy(&u,&r,8); ret[0]=CV(u); };
  #define M2(nm) t[#nm]=[](CInst& ci,std::vector<V>& a,V* ret){ if(ci.w!=64) engineError("float32 fn"); double r=std::nm(cArg(a[0],#nm),cArg(a[1],#nm)); u64 u; memcpy(&u,&r,8); ret[0]=CV(u); };
  M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(exp) M1(log) M1(log10) M1(log2) M1(exp2) M1(cbrt) M1(sinh) M1(cosh) M1(tanh) M1(expm1) M1(log1p) M2(atan2) M2(pow) M2(hypot) M2(fmod) M2(remainder) M2(fdim)
  return t; }
static u64 roomAt(u64 p){ Obj* o=findObj(p); return o&&p>=o->base&&p<=o->base+o->size?o->base+o->size-p:0; }
static std::string cstr(u64 a){ std::string s; for(int i=0;i<4000;i++){ V v=loadC(a+i,1,8); if(v.e) { s+='?'; continue; } if(!v.c) break; s+=(char)v.c; } return s; }
#define IN(name) intrTab[name]=[](CInst& ci, std::vector<V>& a, V* ret){ (void)ci;(void)a;(void)ret;
#define END };
static V doAlloc(const V& n,bool zero,const char* nm,u64 align=32){ u64 s=concretize(n,64); u64 p=allocHeap(s,K_HEAP,nm,align); if(zero){ Obj*o=findObj(p); memset(o->st,1,s); } return CV(p); }
static void doFree(const V& p){ u64 a=concretize(p,64); if(!a) return; Obj*o=findObj(a); if(!o||o->kind!=K_HEAP||o->base!=a||!o->alive){ std::string l=(o&&!o->alive)?"memory: double free":"memory: invalid free"; labelStat(SH->labels,SH->nlabels,l)->hits++; reportViolation(l); finish(0); } o->alive=false; }
static void doMemset(u64 d,const V& b,u64 n){ if(!n) return; Obj*o=access(d,n,true); u64 f=d-o->base; if(!b.e){ memset(o->data+f,(int)b.c,n); memset(o->st+f,1,n); } else { if(!o->sym) o->sym=new std::unordered_map<u64,Expr*>(); for(u64 i=0;i<n;i++){ (*o->sym)[f+i]=b.e; o->st[f+i]=2; } } }
static V ovf(Op op, unsigned w, const V&a,const V&b, bool sgn, V& flag){ V r=bin(op,w,a,b); if(w==64&&op==MUL){ if(a.e||b.e){ // via division check
        Expr*x=toE(a,64),*y=toE(b,64); if(sgn) engineError("symbolic smul.ov 64"); Expr* z=mkEq(y,mkConst(0,64)); Expr* q=mk2(UDIV,64,toE(r,64),y); flag=EV(mk2(AND,1,mkNot(z),mkNot(mkEq(q,x)))); return r; }
      if(sgn){ __int128 p=(__int128)(i64)a.c*(i64)b.c; flag=CV(p!=(__int128)(i64)r.c); } else { unsigned __int128 p=(unsigned __int128)a.c*b.c; flag=CV((p>>64)!=0); } return r; }
  if(op==MUL){ unsigned W=2*w; if(W>64) engineError("mul.ov width"); V A=sgn?sext_(a,w,W):zext_(a,w,W),B=sgn?sext_(b,w,W):zext_(b,w,W); V P=bin(MUL,W,A,B); V R=sgn?sext_(r,w,W):zext_(r,w,W); flag=notV(cmp(EQ,W,P,R)); return r; }
  if(!sgn){ flag= op==ADD? cmp(ULT,w,r,a): cmp(ULT,w,a,b); return r; }
  // signed: add: overflow iff (a^r)&(b^r) <0 ; sub: (a^b)&(a^r)<0
  V t= op==ADD? bin(AND,w,bin(XOR,w,a,r),bin(XOR,w,b,r)): bin(AND,w,bin(XOR,w,a,b),bin(XOR,w,a,r)); flag=cmp(SLT,w,t,CV(0)); return r; }
static void setupIntrinsics(){ intrVec.resize(2,nullptr);
  for(const char* n:{"llvm.lifetime.start","llvm.lifetime.end","llvm.dbg.declare","llvm.dbg.value","llvm.dbg.label","llvm.experimental.noalias.scope.decl","llvm.invariant.start","llvm.invariant.end","llvm.donothing","llvm.prefetch","llvm.va_end","llvm.stackrestore","llvm.var.annotation","llvm.assume","__cxa_atexit","__cxa_free_exception","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev"}) intrTab[n]=[](CInst&,std::vector<V>&,V* r){ r[0]=CV(0); };
  IN("llvm.stacksave") ret[0]=CV(STACK_BASE); END
  IN("llvm.expect") ret[0]=a[0]; END
  IN("llvm.launder.invariant.group") ret[0]=a[0]; END IN("llvm.strip.invariant.group") ret[0]=a[0]; END
  IN("llvm.threadlocal.address") ret[0]=a[0]; END
  IN("llvm.is.constant") ret[0]=CV(0); END
  IN("llvm.objectsize") ret[0]=CV(a[1].c?0:~0ull&maskw(ci.w)); END
  IN("llvm.trap") reportViolation("trap"); finish(0); END
  IN("llvm.ubsantrap") reportViolation("undefined behaviour trap"); finish(0); END
  IN("llvm.memcpy") u64 n=concretize(a[2],64); if(n){ u64 d=addrFor(a[0],n,true), s=addrFor(a[1],n,false); copyMem(d,s,n);} END
  IN("llvm.memmove") u64 n=concretize(a[2],64); if(n){ u64 d=addrFor(a[0],n,true), s=addrFor(a[1],n,false); copyMem(d,s,n);} END
  IN("llvm.memset") u64 n=concretize(a[2],64); if(n) doMemset(addrFor(a[0],n,true),a[1],n); END
  IN("memcpy") u64 n=concretize(a[2],64); if(n){ u64 d=addrFor(a[0],n,true), s=addrFor(a[1],n,false); copyMem(d,s,n);} ret[0]=a[0]; END
  IN("memmove") u64 n=concretize(a[2],64); if(n){ u64 d=addrFor(a[0],n,true), s=addrFor(a[1],n,false); copyMem(d,s,n);} ret[0]=a[0]; END
  IN("memset") u64 n=concretize(a[2],64); if(n) doMemset(addrFor(a[0],n,true),trunc_(a[1],32,8),n); ret[0]=a[0]; END
  auto mcmp=[](CInst&,std::vector<V>& a,V* ret){ u64 n=concretize(a[2],64); if(!n){ ret[0]=CV(0); return; } u64 p=addrFor(a[0],n,false),q=addrFor(a[1],n,false); access(p,n,false); access(q,n,false); V r=CV(0); 
     // find first position where a decision is needed
     u64 stopAt=n; for(u64 i=0;i<n;i++){ V x=loadC(p+i,1,8),y=loadC(q+i,1,8); if(!x.e&&!y.e&&x.c!=y.c){ stopAt=i+1; break; } }
     for(u64 k=stopAt;k-->0;){ V x=loadC(p+k,1,8),y=loadC(q+k,1,8); V eq=cmp(EQ,8,x,y); V lt=cmp(ULT,8,x,y); r=sel(eq,r,sel(lt,CV(0xffffffff),CV(1),32),32); } ret[0]=r; };
  intrTab["memcmp"]=mcmp; intrTab["bcmp"]=mcmp;
  auto scmp=[](CInst& ci,std::vector<V>& a,V* ret){ u64 lim=~0ull; if(a.size()>2) lim=concretize(a[2],64); u64 p=concretize(a[0],64),q=concretize(a[1],64); std::vector<std::pair<V,V>> v; 
     for(u64 i=0;i<lim;i++){ Obj*o=findObj(p+i),*o2=findObj(q+i); if(!okAccess(p+i,1,o)||!okAccess(q+i,1,o2)){ // possible overrun: is it feasible?
          Expr* reach=mkConst(1,1); for(auto&pr:v){ reach=mk2(AND,1,reach,mk2(AND,1,toE(cmp(EQ,8,pr.first,pr.second),1),mkNot(toE(cmp(EQ,8,pr.first,CV(0)),1)))); } if(forkOn(reach)) memViolation("read",okAccess(p+i,1,o)?q+i:p+i,1,okAccess(p+i,1,o)?o2:o); break; }
       V x=loadC(p+i,1,8),y=loadC(q+i,1,8); v.push_back({x,y}); if((!x.e&&!x.c)||(!y.e&&!y.c)) break; if(!x.e&&!y.e&&x.c!=y.c) break; }
     V r=CV(0); for(size_t k=v.size();k-->0;){ V x=v[k].first,y=v[k].second; V eq=cmp(EQ,8,x,y),lt=cmp(ULT,8,x,y),z=cmp(EQ,8,x,CV(0)); r=sel(eq,sel(z,CV(0),r,32),sel(lt,CV(0xffffffff),CV(1),32),32); } ret[0]=r; (void)ci; };
  intrTab["strcmp"]=scmp; intrTab["strncmp"]=scmp;
  IN("strlen") u64 p=concretize(a[0],64); u64 n=0; for(;;n++){ V x=loadC(p+n,1,8); if(!x.e){ if(!x.c) break; continue; } if(forkOn(mkEq(x.e,mkConst(0,8)))) break; } ret[0]=CV(n); END
  for(const char* n:{"malloc","_Znwm","_Znam","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","__cxa_allocate_exception"}) intrTab[n]=[](CInst&,std::vector<V>& a,V* r){ r[0]=doAlloc(a[0],false,"heap"); };
  IN("_ZnwmSt11align_val_t") ret[0]=doAlloc(a[0],false,"heap",concretize(a[1],64)); END
  IN("calloc") ret[0]=doAlloc(bin(MUL,64,a[0],a[1]),true,"heap"); END
  IN("realloc") u64 o=concretize(a[0],64); if(!o){ ret[0]=doAlloc(a[1],false,"heap"); return; } u64 n=concretize(a[1],64); Obj*ob=findObj(o); if(!ob||ob->kind!=K_HEAP||ob->base!=o||!ob->alive) { doFree(CV(o)); } u64 old=ob->size; u64 p=allocHeap(n,K_HEAP,"heap"); copyMem(p,o,std::min(old,n)); findObj(o)->alive=false; ret[0]=CV(p); END
  for(const char* n:{"free","_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvRKSt9nothrow_t","_ZdaPvRKSt9nothrow_t","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) intrTab[n]=[](CInst&,std::vector<V>& a,V*){ doFree(a[0]); };
  IN("__cxa_throw") u64 o=concretize(a[0],64),t=concretize(a[1],64); excs[o]=Exc{o,t,0,o}; doUnwind(o); END
  IN("__cxa_begin_catch") u64 o=concretize(a[0],64); Exc&x=excs[o]; x.handlers++; caught.push_back(o); ret[0]=CV(x.adj); END
  IN("__cxa_get_exception_ptr") u64 o=concretize(a[0],64); ret[0]=CV(excs[o].adj); END
  IN("__cxa_end_catch") if(caught.size()) caught.pop_back(); END
  IN("__cxa_rethrow") if(caught.empty()) engineError("rethrow without exception"); u64 o=caught.back(); caught.pop_back(); doUnwind(o); END
  IN("llvm.eh.typeid.for") ret[0]=CV(typeId(concretize(a[0],64))); END
  IN("__cxa_guard_acquire") u64 p=concretize(a[0],64); V v=loadC(p,1,8); ret[0]=CV(v.c?0:1); END
  IN("__cxa_guard_release") storeC(concretize(a[0],64),1,CV(1),8); END
  IN("__cxa_guard_abort") END
  IN("_ZSt9terminatev") labelStat(SH->labels,SH->nlabels,"std::terminate called")->hits++; reportViolation("std::terminate called"); finish(0); END
  IN("__dynamic_cast") u64 o=concretize(a[0],64),vp=concretize(loadC(o,8,64),64); u64 top=concretize(loadC(vp-16,8,64),64),ti=concretize(loadC(vp-8,8,64),64),adj=o+top; ret[0]=CV(tiMatch(ti,concretize(a[2],64),adj)?adj:0); END
  IN("__cxa_pure_virtual") reportViolation("pure virtual call"); finish(0); END
  IN("abort") labelStat(SH->labels,SH->nlabels,"abort called")->hits++; reportViolation("abort called"); finish(0); END
  IN("__assert_fail") std::string l="assertion in code: "+cstr(a[0].c); labelStat(SH->labels,SH->nlabels,l)->hits++; reportViolation(l); finish(0); END
  IN("__errno_location") static u64 p=0; if(!p){ p=allocHeap(4,K_GLOBAL,"errno"); storeC(p,4,CV(0),32); } ret[0]=CV(p); END
  // bit tricks
  IN("llvm.bswap") unsigned w=ci.w; Expr*e=toE(a[0],w),*r=nullptr; for(unsigned i=0;i<w/8;i++){ Expr*b=mkExtract(e,i*8,8); r=r?mkConcat(r,b):b; } ret[0]=EV(r); END
  IN("llvm.ctpop") unsigned w=ci.w; Expr*r=mkConst(0,w),*e=toE(a[0],w); for(unsigned i=0;i<w;i++) r=mk2(ADD,w,r,mkZext(mkExtract(e,i,1),w)); ret[0]=EV(r); END
  IN("llvm.ctlz") unsigned w=ci.w; Expr*e=toE(a[0],w),*r=mkConst(w,w); for(unsigned i=0;i<w;i++) r=mkIte(mkExtract(e,i,1),mkConst(w-1-i,w),r); ret[0]=EV(r); END
  IN("llvm.cttz") unsigned w=ci.w; Expr*e=toE(a[0],w),*r=mkConst(w,w); for(unsigned i=w;i-->0;) r=mkIte(mkExtract(e,i,1),mkConst(i,w),r); ret[0]=EV(r); END
  #define MM(nm,op,sw) IN(nm) unsigned w=ci.w; for(int i=0;i<ci.nl&&i<4;i++){ V x=a[i],y=a[ci.nl+i]; V c=cmp(op,w,sw?y:x,sw?x:y); ret[i]=sel(c,x,y,w); } END
  MM("llvm.umin",ULT,false) MM("llvm.umax",ULT,true) MM("llvm.smin",SLT,false) MM("llvm.smax",SLT,true)
  IN("llvm.abs") unsigned w=ci.w; for(int i=0;i<ci.nl&&i<4;i++){ V c=cmp(SLT,w,a[i],CV(0)); ret[i]=sel(c,bin(SUB,w,CV(0),a[i]),a[i],w);} END
  auto ov=[](Op op,bool s){ return op; }; (void)ov;
  #define OV(nm,op,s) IN(nm) unsigned w=scalarW(ci.I->getOperand(0)->getType()); V fl; ret[0]=ovf(op,w,a[0],a[1],s,fl); ret[1]=fl; END
  OV("llvm.uadd.with.overflow",ADD,false) OV("llvm.usub.with.overflow",SUB,false) OV("llvm.umul.with.overflow",MUL,false) OV("llvm.sadd.with.overflow",ADD,true) OV("llvm.ssub.with.overflow",SUB,true) OV("llvm.smul.with.overflow",MUL,true)
  IN("llvm.usub.sat") unsigned w=ci.w; ret[0]=sel(cmp(ULT,w,a[0],a[1]),CV(0),bin(SUB,w,a[0],a[1]),w); END
  IN("llvm.uadd.sat") unsigned w=ci.w; V r=bin(ADD,w,a[0],a[1]); ret[0]=sel(cmp(ULT,w,r,a[0]),CV(maskw(w)),r,w); END
  IN("llvm.fshl") unsigned w=ci.w; V s=bin(UREM,w,a[2],CV(w)); V hi=bin(SHL,w,a[0],s); V inv=bin(SUB,w,CV(w),s); V lo=bin(LSHR,w,a[1],inv); ret[0]=bin(OR,w,hi,lo); END
  IN("llvm.fshr") unsigned w=ci.w; V s=bin(UREM,w,a[2],CV(w)); V lo=bin(LSHR,w,a[1],s); V inv=bin(SUB,w,CV(w),s); V hi=bin(SHL,w,a[0],inv); ret[0]=bin(OR,w,hi,lo); END
  IN("llvm.ptrmask") ret[0]=bin(AND,64,a[0],a[1]); END
  IN("llvm.vector.reduce.or") V r=a[0]; unsigned w=ci.w; for(size_t i=1;i<a.size();i++) r=bin(OR,w,r,a[i]); ret[0]=r; END
  IN("llvm.vector.reduce.add") V r=a[0]; unsigned w=ci.w; for(size_t i=1;i<a.size();i++) r=bin(ADD,w,r,a[i]); ret[0]=r; END
  // floating point
  #define F1(nm,op) intrTab[nm]=[](CInst& ci,std::vector<V>& a,V* ret){ if(ci.w!=64){ if(a[0].e) engineError("symbolic float32"); float x; u32 u=a[0].c; memcpy(&x,&u,4); double d=x; u64 w; memcpy(&w,&d,8); V r=f1(op,64,CV(w),64); memcpy(&d,&r.c,8); x=(float)d; memcpy(&u,&x,4); ret[0]=CV(u); return; } ret[0]=f1(op,64,a[0],64); };
  F1("llvm.round",FROUND) F1("round",FROUND) F1("llvm.floor",FFLOOR) F1("floor",FFLOOR) F1("llvm.ceil",FCEIL) F1("ceil",FCEIL) F1("llvm.trunc",FTRUNC) F1("trunc",FTRUNC) F1("llvm.rint",FRINT) F1("rint",FRINT) F1("nearbyint",FRINT) F1("llvm.nearbyint",FRINT) F1("llvm.fabs",FABS) F1("fabs",FABS) F1("llvm.sqrt",FSQRT) F1("sqrt",FSQRT)
  for(const char* n:{"lround","llvm.lround","llround","llvm.llround"}) intrTab[n]=[](CInst& ci,std::vector<V>& a,V* ret){ ret[0]=f1(FPTOSI,ci.w,f1(FROUND,64,a[0],64),64); };
  for(const char* n:{"lrint","llvm.lrint","llrint","llvm.llrint"}) intrTab[n]=[](CInst& ci,std::vector<V>& a,V* ret){ ret[0]=f1(FPTOSI,ci.w,f1(FRINT,64,a[0],64),64); };
  IN("llvm.fmuladd") ret[0]=bin(FADD,64,bin(FMUL,64,a[0],a[1]),a[2]); END
  auto fmx=[](bool mx){ return mx; }; (void)fmx;
  for(const char* n:{"llvm.maxnum","fmax"}) intrTab[n]=[](CInst&,std::vector<V>& a,V* r){ r[0]=sel(cmp(FOLT,64,a[0],a[1]),a[1],a[0],64); };
  for(const char* n:{"llvm.minnum","fmin"}) intrTab[n]=[](CInst&,std::vector<V>& a,V* r){ r[0]=sel(cmp(FOLT,64,a[1],a[0]),a[1],a[0],64); };
  #define FU(n1) intrTab[n1]=[](CInst&,std::vector<V>& a,V* r){ r[0]=f1(FUNC,64,a[0],64,funcId(n1)); }; intrTab["llvm." n1]=intrTab[n1];
  FU("sin") FU("cos") FU("asin") FU("acos") FU("tan") FU("atan") FU("exp") FU("log")
  IN("fmod") if(a[0].e||a[1].e) engineError("symbolic fmod"); ret[0]=CV(asU(fmod(asD(a[0].c),asD(a[1].c)))); END
  IN("llvm.va_start") u64 p=concretize(a[0],64); Frame& f=stack_.back(); u64 b=allocHeap(8*f.varargs.size()+8,K_HEAP,"varargs"); for(size_t i=0;i<f.varargs.size();i++) storeC(b+8*i,8,f.varargs[i].second<64?zext_(f.varargs[i].first,f.varargs[i].second,64):f.varargs[i].first,64); storeC(p,4,CV(48),32); storeC(p+4,4,CV(176),32); storeC(p+8,8,CV(b),64); storeC(p+16,8,CV(b),64); END
  IN("llvm.va_copy") copyMem(concretize(a[0],64),concretize(a[1],64),24); END
  // harness interface
  IN("__sym_var") std::string n=cstr(a[0].c); unsigned w=a[1].c; u64 lo=a[2].c&maskw(w),hi=a[3].c&maskw(w); bool s=a[4].c; 
     if(lo==hi){ inputs.push_back({n,nullptr,lo,w}); ret[0]=CV(s?(u64)sextw(lo,w):lo); return; }
     u32 id=g_vars.size(); g_vars.push_back({n,(u8)w,lo,hi,false,s}); model.resize(g_vars.size(),0); model[id]=lo; Expr*e=mkVar(id,w); inputs.push_back({n,e,0,w}); ret[0]=EV(s?mkSext(e,64):mkZext(e,64)); END
  IN("__sym_isconc") ret[0]=CV(a[0].e?0:1); END
  IN("__sym_flo") double l,h; ret[0]=a[0].e?CV(frange(toE(a[0],64),l,h)?dbits(l):dbits(-INFINITY)):a[0]; END
  IN("__sym_fhi") double l,h; ret[0]=a[0].e?CV(frange(toE(a[0],64),l,h)?dbits(h):dbits(INFINITY)):a[0]; END
  IN("__sym_conc") ret[0]=CV(concretize(a[0],64)); END
  IN("__sym_assume") V c=notV(cmp(EQ,32,a[0],CV(0))); assume(toE(c,1)); END
  IN("__sym_assert") V c=notV(cmp(EQ,32,a[0],CV(0))); std::string l=cstr(concretize(a[1],64)); checkParts(toE(c,1),l); END
  IN("__sym_reach") std::string l=cstr(concretize(a[0],64)); labelStat(SH->reach,SH->nreach,l)->hits++; END
  IN("__sym_observe") observes.push_back(a[0]); END
  IN("__sym_is_symbolic") ret[0]=CV(a[0].e?1:0); END
  IN("__sym_unsupported") engineError("unsupported: "+cstr(concretize(a[0],64))); END
  IN("__sym_room") u64 p=concretize(a[0],64); ret[0]=CV(roomAt(p)); END
  IN("__sym_done") SH->paths++; int k=SH->nsamples++; bool take= k<4 || (k%7==0&&k<100) || (k%101==0); if(take){ static_assert(true); char b[64]; int idx=k; snprintf(b,64,"/sample_%06d.json",idx); if(idx<100000) writeTrace(outDir+b,"path",""); } finish(0); END
  IN("__sym_kill") SH->killed++; finish(0); END
  IN("__sym_print") fprintf(stderr,"[print] %s %s\n",cstr(a[0].c).c_str(),a[1].e?exprStr(a[1].e,6).c_str():std::to_string((i64)a[1].c).c_str()); END
  IN("__sym_stop_here") engineError("harness: "+cstr(a[0].c)); END
}

int main(int argc,char**argv){ std::string bc, entry="harness_main"; int jobs=8; double tlimit=600; t_start=nowS();
  for(int i=1;i<argc;i++){ std::string s=argv[i]; if(s=="-o") outDir=argv[++i]; else if(s=="-e") entry=argv[++i]; else if(s=="-j") jobs=atoi(argv[++i]); else if(s=="-t") tlimit=atof(argv[++i]); else if(s=="-steps") stepLimit=strtoull(argv[++i],0,10); else if(s=="-qt") g_solverTimeoutMs=atoi(argv[++i]); else if(s=="-v") verbose=true; else bc=s; }
  mkdir(outDir.c_str(),0755); SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); SH->tokens=jobs-1; deadline=t_start+tlimit; prctl(PR_SET_CHILD_SUBREAPER,1);
  rlimit rl{0,0}; setrlimit(RLIMIT_CORE,&rl);
  stkData=(u8*)mmap(nullptr,STACK_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); stkSt=(u8*)mmap(nullptr,STACK_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  objs.reserve(1<<16);
  LLVMContext ctx; SMDiagnostic err; auto m=parseIRFile(bc,err,ctx); if(!m){ err.print("osym",errs()); return 3; } M=m.get(); DL=&M->getDataLayout(); setupIntrinsics();
  // pre-assign function indexes so that coverage is stable across forks
  Function* E=M->getFunction(entry); if(!E||E->isDeclaration()){ fprintf(stderr,"entry %s not found\n",entry.c_str()); return 3; }
  for(auto&F:*M) if(!F.isDeclaration()){ fnAddr(&F); }
  // compile lazily but index eagerly
  int status=0; 
  try{
    warmSolver(); for(auto&F:*M) if(!F.isDeclaration()) getCF(&F);
    if(auto*gc=M->getNamedGlobal("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&op:ca->operands()){ auto*f=dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts()); if(f){ std::vector<V> a; pushFrame(f,a,{},nullptr,nullptr); run(0); } }
    std::vector<V> a; pushFrame(E,a,{},nullptr,nullptr); run(0); SH->paths++; { int k=SH->nsamples++; char b[64]; snprintf(b,64,"/sample_%06d.json",k); bool take= k<4 || (k%7==0&&k<100) || (k%101==0); if(take) writeTrace(outDir+b,"path",""); } finish(0);
  } catch(int s){ status=s; }
  // root: summary
  FILE*f=fopen((outDir+"/summary.json").c_str(),"w"); auto L=[&](LabelStat* t,int n){ fprintf(f,"["); for(int i=0;i<n&&i<MAXL;i++) fprintf(f,"%s{\"label\":%s,\"hits\":%llu,\"solver\":%llu,\"trivial\":%llu,\"violated\":%llu}",i?",":"",jstr(t[i].label).c_str(),(unsigned long long)t[i].hits.load(),(unsigned long long)t[i].solver.load(),(unsigned long long)t[i].trivial.load(),(unsigned long long)t[i].violated.load()); fprintf(f,"]"); };
  #define P(n) fprintf(f,"\"%s\":%llu,",#n,(unsigned long long)SH->n.load());
  fprintf(f,"{"); P(paths) P(killed) P(incomplete) P(forks) P(branches) P(symBranches) P(insts) P(queries) P(sat) P(unsat) P(unknown) P(cacheHits) P(fpq) P(solverUs) P(maxQueryUs) P(errors) P(stepLimit) P(maxSteps)
  fprintf(f,"\"nviol\":%d,\"wall\":%.3f,\"stopped\":%d,\"asserts\":",SH->nviol.load(),nowS()-t_start,SH->stop.load()); L(SH->labels,SH->nlabels); fprintf(f,",\"reach\":"); L(SH->reach,SH->nreach);
  fprintf(f,",\"errmsgs\":["); for(int i=0;i<SH->nerr&&i<16;i++) fprintf(f,"%s%s",i?",":"",jstr(SH->errmsg[i]).c_str()); fprintf(f,"],\"functions\":["); { bool first=true; std::set<std::string> fs; // functions of the code under test that were executed, including inlined ones (from debug info)
    u64 nf=0; for(size_t i=0;i<fnNames.size()&&i<MAXF;i++) if(SH->fcov[i]){ nf++; Function*F=M->getFunction(fnNames[i]); if(!F) continue; auto add=[&](DISubprogram*sp){ if(!sp) return; std::string fn=sp->getFilename().str(); size_t p=fn.find("include/osmium/"); if(p==std::string::npos) return; std::string nm=sp->getLinkageName().str(); nm=nm.empty()?sp->getName().str():dem(nm); size_t q=nm.find('('); std::string d=nm.substr(0,140); (void)q; fs.insert(fn.substr(p+8)+": "+d); };
      add(F->getSubprogram()); for(auto&B:*F) for(auto&I:B) if(auto dl=I.getDebugLoc()){ DILocation*l=dl.get(); while(l){ add(l->getScope()->getSubprogram()); l=l->getInlinedAt(); } } }
    for(auto&s:fs){ fprintf(f,"%s%s",first?"":",",jstr(s).c_str()); first=false; } fprintf(f,"],\"nfunctions\":%llu}\n",(unsigned long long)nf); } fclose(f);
  (void)status; return 0; }
