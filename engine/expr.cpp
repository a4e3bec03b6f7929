#include "expr.h"
#include <unordered_set>
std::vector<VarInfo> g_vars;
static std::vector<std::string> g_funcs;
u32 funcId(const std::string& n){ for(u32 i=0;i<g_funcs.size();i++) if(g_funcs[i]==n) return i; g_funcs.push_back(n); return g_funcs.size()-1; }
const char* funcName(u32 i){ return g_funcs[i].c_str(); }
double callFunc(u32 id, double x){ const std::string& n=g_funcs[id];
  if(n=="sin") return sin(x); if(n=="cos") return cos(x); if(n=="asin") return asin(x); if(n=="acos") return acos(x);
  if(n=="tan") return tan(x); if(n=="atan") return atan(x); if(n=="exp") return exp(x); if(n=="log") return log(x); return 0; }

struct H { size_t operator()(const Expr* e) const { return e->hash; } };
struct Q { bool operator()(const Expr* a, const Expr* b) const {
  return a->op==b->op && a->w==b->w && a->a==b->a && a->c==b->c && a->k0==b->k0 && a->k1==b->k1 && a->k2==b->k2; } };
static std::unordered_set<Expr*,H,Q> table;
static u32 nextId=1;
static char* arena=nullptr; static size_t arenaLeft=0;
static Expr* allocE(){ if(arenaLeft<sizeof(Expr)){ arenaLeft=sizeof(Expr)*4096; arena=(char*)malloc(arenaLeft);} Expr*e=(Expr*)arena; arena+=sizeof(Expr); arenaLeft-=sizeof(Expr); return e; }
static inline u64 mix(u64 h, u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }
static Expr* intern(Op op, unsigned w, u32 a, u64 c, Expr*k0, Expr*k1, Expr*k2){
  Expr t; memset(&t,0,sizeof t); t.op=op; t.w=w; t.a=a; t.c=c; t.k0=k0; t.k1=k1; t.k2=k2;
  u64 h=op*131+w; h=mix(h,a); h=mix(h,c); h=mix(h,k0?k0->id:0); h=mix(h,k1?k1->id:0); h=mix(h,k2?k2->id:0); t.hash=h;
  auto it=table.find(&t); if(it!=table.end()) return *it;
  Expr* e=allocE(); *e=t; e->id=nextId++; e->mark=0;
  e->hasFP=(op>=FADD)||(k0&&k0->hasFP)||(k1&&k1->hasFP)||(k2&&k2->hasFP);
  table.insert(e); return e; }
Expr* mkConst(u64 v, unsigned w){ return intern(CONST,w,0,v&maskw(w),0,0,0); }
Expr* mkVar(unsigned id, unsigned w){ return intern(VAR,w,id,0,0,0,0); }

static i64 d2i(double d, unsigned w){ if(!(d>-9223372036854775809.0 && d<9223372036854775808.0)) return w==64?INT64_MIN:(i64)(1ull<<(w-1)); return (i64)d; }
u64 evalOp(Op op, unsigned w, unsigned kw, u64 a, u64 b, u64 c, u32 aux){
  u64 m=maskw(w);
  switch(op){
  case ADD: return (a+b)&m; case SUB: return (a-b)&m; case MUL: return (a*b)&m;
  case UDIV: return b? (a/b)&m : m; case UREM: return b? (a%b)&m : a;
  case SDIV: { i64 x=sextw(a,w), y=sextw(b,w); if(!y) return x<0?1:m; if(y==-1) return (0-(u64)x)&m; return (u64)(x/y)&m; }
  case SREM: { i64 x=sextw(a,w), y=sextw(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m; }
  case AND: return a&b; case OR: return a|b; case XOR: return a^b;
  case SHL: return b>=w?0:(a<<b)&m; case LSHR: return b>=w?0:a>>b; case ASHR: return b>=w? ((u64)(sextw(a,w)<0?-1:0)&m) : (u64)(sextw(a,w)>>b)&m;
  case EQ: return a==b; case ULT: return a<b; case ULE: return a<=b; case SLT: return sextw(a,kw)<sextw(b,kw); case SLE: return sextw(a,kw)<=sextw(b,kw);
  case ITE: return a? b:c;
  case EXTRACT: return (a>>aux)&m; case ZEXT: return a; case SEXT: return (u64)sextw(a,kw)&m;
  case FADD: return asU(asD(a)+asD(b)); case FSUB: return asU(asD(a)-asD(b)); case FMUL: return asU(asD(a)*asD(b)); case FDIV: return asU(asD(a)/asD(b));
  case FNEG: return a^(1ull<<63); case FABS: return a&~(1ull<<63);
  case FOEQ: return asD(a)==asD(b); case FOLT: return asD(a)<asD(b); case FOLE: return asD(a)<=asD(b); case FUNO: return asD(a)!=asD(a)||asD(b)!=asD(b);
  case SITOFP: return asU((double)sextw(a,kw)); case UITOFP: return asU((double)a);
  case FPTOSI: return (u64)d2i(asD(a),w)&m; case FPTOUI: { double d=asD(a); if(!(d>-1 && d<18446744073709551616.0)) return 0; return (u64)d&m; }
  case FROUND: return asU(round(asD(a))); case FFLOOR: return asU(floor(asD(a))); case FCEIL: return asU(ceil(asD(a))); case FTRUNC: return asU(trunc(asD(a))); case FRINT: return asU(nearbyint(asD(a)));
  case FSQRT: return asU(sqrt(asD(a))); case FUNC: return asU(callFunc(aux,asD(a)));
  default: fprintf(stderr,"evalOp %d\n",op); abort(); } }

static u32 epochCtr=1; u32 newEpoch(){ return ++epochCtr; }
u64 evalExpr(Expr* e, const std::vector<u64>& M, u32 ep){
  if(e->op==CONST) return e->c;
  if(e->op==VAR) return (e->a<M.size()?M[e->a]:g_vars[e->a].lo)&maskw(e->w);
  if(e->mark==ep) return e->memo;
  u64 r;
  if(e->op==ITE) r = evalExpr(e->k0,M,ep)? evalExpr(e->k1,M,ep):evalExpr(e->k2,M,ep);
  else if(e->op==CONCAT) r=(evalExpr(e->k0,M,ep)<<e->k1->w)|evalExpr(e->k1,M,ep);
  else { u64 a=evalExpr(e->k0,M,ep), b=e->k1?evalExpr(e->k1,M,ep):0; r=evalOp(e->op,e->w,e->k0->w,a,b,0,e->a); }
  e->mark=ep; e->memo=r; return r; }

static inline bool allOnes(Expr* e){ return isC(e)&&e->c==maskw(e->w); }
static inline bool zero(Expr* e){ return isC(e)&&e->c==0; }

Expr* mkZext(Expr* e, unsigned w){ if(e->w==w) return e; if(isC(e)) return mkConst(e->c,w); if(e->op==ZEXT) return mkZext(e->k0,w);
  if(e->op==CONCAT && zero(e->k0)) return mkZext(e->k1,w);
  return intern(ZEXT,w,0,0,e,0,0); }
Expr* mkSext(Expr* e, unsigned w){ if(e->w==w) return e; if(isC(e)) return mkConst((u64)sextw(e->c,e->w),w); if(e->op==SEXT) return mkSext(e->k0,w); if(e->op==ZEXT) return mkZext(e->k0,w);
  if(e->op==EXTRACT&&e->a==0&&e->k0->w<=w&&(e->k0->op==MUL||e->k0->op==ADD||e->k0->op==SUB)){ __int128 l,h; srange(e->k0,l,h); const __int128 m=(__int128)1<<(e->w-1); if(l>=-m&&h<m) return mkSext(e->k0,w); }
  return intern(SEXT,w,0,0,e,0,0); }
Expr* mkExtract(Expr* e, unsigned lo, unsigned w){
  if(lo==0&&w==e->w) return e;
  if(isC(e)) return mkConst(e->c>>lo,w);
  switch(e->op){
  case EXTRACT: return mkExtract(e->k0,lo+e->a,w);
  case CONCAT: { unsigned lw=e->k1->w; if(lo+w<=lw) return mkExtract(e->k1,lo,w); if(lo>=lw) return mkExtract(e->k0,lo-lw,w);
      return mkConcat(mkExtract(e->k0,0,lo+w-lw), mkExtract(e->k1,lo,lw-lo)); }
  case ZEXT: { unsigned kw=e->k0->w; if(lo>=kw) return mkConst(0,w); if(lo+w<=kw) return mkExtract(e->k0,lo,w); return mkZext(mkExtract(e->k0,lo,kw-lo),w); }
  case SEXT: { unsigned kw=e->k0->w; if(lo+w<=kw) return mkExtract(e->k0,lo,w); if(lo<kw) return mkSext(mkExtract(e->k0,lo,kw-lo),w); return mkSext(mkExtract(e->k0,kw-1,1),w); }
  case ITE: if((isC(e->k1)||isC(e->k2))) return mkIte(e->k0,mkExtract(e->k1,lo,w),mkExtract(e->k2,lo,w)); break;
  case AND: case OR: case XOR: if(isC(e->k1)||isC(e->k0)||w<=8) return mk2(e->op,w,mkExtract(e->k0,lo,w),mkExtract(e->k1,lo,w)); break;
  case ADD: case SUB: case MUL: if(lo==0 && (isC(e->k1)|| (e->k0->op==ZEXT||e->k0->op==SEXT))) {
      // low bits of the result depend only on low bits of operands
      if(isC(e->k1) || e->k1->op==ZEXT || e->k1->op==SEXT) { if(e->k0->op==ZEXT||e->k0->op==SEXT||e->k0->op==CONCAT) return mk2(e->op,w,mkExtract(e->k0,0,w),mkExtract(e->k1,0,w)); } }
      break;
  default: break; }
  return intern(EXTRACT,w,lo,0,e,0,0); }
Expr* mkConcat(Expr* hi, Expr* lo){
  unsigned w=hi->w+lo->w;
  if(w>64){ fprintf(stderr,"concat >64\n"); abort(); }
  if(isC(hi)&&isC(lo)) return mkConst((hi->c<<lo->w)|lo->c,w);
  if(zero(hi)) return mkZext(lo,w);
  if(hi->op==EXTRACT&&lo->op==EXTRACT&&hi->k0==lo->k0&&hi->a==lo->a+lo->w) return mkExtract(lo->k0,lo->a,w);
  if(hi->op==EXTRACT&&lo->op!=EXTRACT&&hi->k0==lo&&hi->a==lo->w) return mkExtract(lo,0,w);
  // the low part was narrowed when it was cut off
  if(hi->op==EXTRACT&&hi->a==lo->w&&(hi->k0->op==ADD||hi->k0->op==SUB||hi->k0->op==MUL)&&lo->op!=EXTRACT&&mkExtract(hi->k0,0,lo->w)==lo) return mkExtract(hi->k0,0,w);
  // concat(a, concat(b,c)) with a,b mergeable
  if(lo->op==CONCAT && hi->op==EXTRACT && lo->k0->op==EXTRACT && hi->k0==lo->k0->k0 && hi->a==lo->k0->a+lo->k0->w) return mkConcat(mkExtract(hi->k0,lo->k0->a,hi->w+lo->k0->w),lo->k1);
  if(hi->op==CONCAT && hi->k1->op==EXTRACT && lo->op==EXTRACT && hi->k1->k0==lo->k0 && hi->k1->a==lo->a+lo->w) return mkConcat(hi->k0,mkExtract(lo->k0,lo->a,hi->k1->w+lo->w));
  // zext'ed low byte pieces: concat(extract(zext..)) handled by extract rules; sext bytes:
  if(hi->op==SEXT && hi->k0->w==1 && mkExtract(lo,lo->w-1,1)==hi->k0) return mkSext(lo,w);
  // bytes of one of two values, by the same condition
  if(hi->op==ITE&&lo->op==ITE&&hi->k0==lo->k0){ Expr* x=mkConcat(hi->k1,lo->k1); if(x->op!=CONCAT){ Expr* y=mkConcat(hi->k2,lo->k2); if(y->op!=CONCAT) return mkIte(hi->k0,x,y); } }
  return intern(CONCAT,w,0,0,hi,lo,0); }
Expr* mkIte(Expr* c, Expr* a, Expr* b){
  if(isC(c)) return c->c?a:b; if(a==b) return a;
  if(c->op==XOR&&c->w==1&&isC(c->k1)&&c->k1->c==1) return mkIte(c->k0,b,a);
  if(a->w==1){ if(isC(a)&&isC(b)) return a->c? c: mkNot(c);
    if(isC(a)) return a->c? mk2(OR,1,c,b): mk2(AND,1,mkNot(c),b);
    if(isC(b)) return b->c? mk2(OR,1,mkNot(c),a): mk2(AND,1,c,a); }
  if(a->op==ITE&&a->k0==c) a=a->k1; if(b->op==ITE&&b->k0==c) b=b->k2;
  if(a==b) return a;
  return intern(ITE,a->w,0,0,c,a,b); }

// (integer * rational) computed in doubles: the exact ratio and the number of roundings
static bool ratio(Expr* e,Expr*& x,__int128& num,__int128& den,int& ops,int depth=8){
  typedef __int128 I; const I big=(I)1<<53; if(depth<0) return false;
  if(e->op==SITOFP){ I l,h; srange(e->k0,l,h); if(l<=-big||h>=big) return false; x=e->k0; num=den=1; return true; }
  if(e->op!=FMUL&&e->op!=FDIV) return false;
  Expr *a=e->k0,*c=e->k1; if(e->op==FMUL&&isC(a)) std::swap(a,c); if(!isC(c)) return false;
  double d=asD(c->c); if(!(d>=1&&d<9e15)||d!=floor(d)) return false;
  if(!ratio(a,x,num,den,ops,depth-1)) return false; ops++;
  I k=(I)(i64)d, p=e->op==FMUL?num:den; if(p>((I)1<<62)/k) return false; p*=k; (e->op==FMUL?num:den)=p; return true; }
// range of a double: true if it is never a NaN, with bounds (computed with the same monotone rounding)
static bool frefine(Expr* c,bool t,Expr* b,double& lo,double& hi,int d);
static bool frange_(Expr* e,double& lo,double& hi,int d);
bool frange(Expr* e,double& lo,double& hi,int d){ if(e->w!=64||d<0) return false; if(e->op==CONST) return frange_(e,lo,hi,d);
  struct M { double l,h; bool ok; }; static std::unordered_map<Expr*,M> memo; auto it=memo.find(e); if(it==memo.end()){ M m{0,0,false}; m.ok=frange_(e,m.l,m.h,d); if(!m.ok&&d<12) return false; it=memo.emplace(e,m).first; } lo=it->second.l; hi=it->second.h; return it->second.ok; }
static bool frange_(Expr* e,double& lo,double& hi,int d){
  double a,b,c,f;
  switch(e->op){
  case CONST: lo=hi=asD(e->c); return lo==lo;
  case VAR: { u64 l,h; urange(e,l,h); if(h>=0x7ff0000000000001ull) return false; lo=asD(l); hi=asD(h); return true; }
  case ITE: if(!frange(e->k1,a,b,d-1)||!frange(e->k2,c,f,d-1)) return false; frefine(e->k0,true,e->k1,a,b,d-1); frefine(e->k0,false,e->k2,c,f,d-1); lo=std::min(a,c); hi=std::max(b,f); return true;
  case SITOFP: { __int128 l,h; srange(e->k0,l,h); lo=(double)l; hi=(double)h; return true; }
  case FNEG: if(!frange(e->k0,a,b,d-1)) return false; lo=-b; hi=-a; return true;
  case FABS: if(!frange(e->k0,a,b,d-1)) return false; if(a>=0){ lo=a; hi=b; } else if(b<=0){ lo=-b; hi=-a; } else { lo=0; hi=std::max(-a,b); } return true;
  case FADD: case FSUB: if(!frange(e->k0,a,b,d-1)||!frange(e->k1,c,f,d-1)) return false; if(e->op==FSUB){ double t=c; c=-f; f=-t; } lo=a+c; hi=b+f; return std::isfinite(lo)&&std::isfinite(hi);
  case FMUL: { if(!frange(e->k0,a,b,d-1)||!frange(e->k1,c,f,d-1)) return false; if(e->k0==e->k1){ double x=a*a,y=b*b; hi=std::max(x,y); lo=(a<=0&&b>=0)?0:std::min(x,y); return std::isfinite(hi); } double p[4]={a*c,a*f,b*c,b*f}; for(double x:p) if(!std::isfinite(x)) return false; lo=*std::min_element(p,p+4); hi=*std::max_element(p,p+4); return true; }
  case FDIV: { if(!isC(e->k1)||!frange(e->k0,a,b,d-1)) return false; double k=asD(e->k1->c); if(!(k>0)||!std::isfinite(k)) return false; lo=a/k; hi=b/k; return std::isfinite(lo)&&std::isfinite(hi); }
  case FSQRT: if(!frange(e->k0,a,b,d-1)||a<0) return false; lo=sqrt(a); hi=sqrt(b); return true;
  default: return false; } }
// narrow the range of b where the comparison c is known to be t
static bool frefine(Expr* c,bool t,Expr* b,double& lo,double& hi,int d){ if(c->op==XOR&&isC(c->k1)&&c->k1->c==1){ c=c->k0; t=!t; } if(c->op!=FOLT&&c->op!=FOLE) return false; Expr *p=c->k0,*q=c->k1; if(p!=b&&q!=b) return false; double pl,ph,ql,qh; if(!frange(p,pl,ph,d)||!frange(q,ql,qh,d)) return false;
  if(!t){ std::swap(p,q); std::swap(pl,ql); std::swap(ph,qh); } if(p==b) hi=std::min(hi,qh); if(q==b) lo=std::max(lo,pl); return true; }
// the sign bit of a double is surely clear
static bool fpos(Expr* e,int d=8){ if(d<0) return false; switch(e->op){ case CONST: return !(e->c>>63); case VAR: { u64 l,h; urange(e,l,h); return !(h>>63); } case ITE: return fpos(e->k1,d-1)&&fpos(e->k2,d-1); case FABS: return true; case FMUL: { double l,h; return (e->k0==e->k1||(fpos(e->k0,d-1)&&fpos(e->k1,d-1)))&&frange(e,l,h); } case FADD: { double l,h; return fpos(e->k0,d-1)&&fpos(e->k1,d-1)&&frange(e,l,h); } default: return false; } }
Expr* mk1(Op op, unsigned w, Expr* a, u32 aux){
  if(op==FABS&&w==64&&!isC(a)){ double l,h; if(fpos(a)) return a; if(a->op==FNEG||a->op==FABS) return mk1(FABS,w,a->k0); if(a->op==FSUB&&!isC(a->k0)&&!isC(a->k1)&&a->k0->id>a->k1->id&&frange(a,l,h)) return mk1(FABS,w,intern(FSUB,w,0,0,a->k1,a->k0,0));
    if(a->op==FMUL&&frange(a,l,h)&&(isC(a->k0)||isC(a->k1))){ Expr*x=a->k0,*k=a->k1; if(isC(x)) std::swap(x,k); return mk2(FMUL,w,mk1(FABS,w,x),mkConst(k->c&~(1ull<<63),w)); } }
  // round(x*num/den) for an integer ratio: the rounding errors are too small to matter
  if(op==FROUND||op==FRINT){ Expr* x; __int128 n,d; int ops=0; if(ratio(a,x,n,d,ops)&&ops&&n%d==0){ __int128 r=n/d,l,h; srange(x,l,h); __int128 m=std::max(l<0?-l:l,h<0?-h:h); if(m&&r<((__int128)1<<53)/m&&(double)m*(double)r*ops*0x1p-51<0.5){ return mk1(SITOFP,64,mk2(MUL,64,mkSext(x,64),mkConst((u64)r,64))); } } }
  if(op==FPTOSI&&a->op==SITOFP){ __int128 l,h; srange(a->k0,l,h); const __int128 big=(__int128)1<<53; if(l>-big&&h<big&&l>=-((__int128)1<<(w-1))&&h<((__int128)1<<(w-1))) return a->k0->w==w?a->k0:a->k0->w>w?mkExtract(a->k0,0,w):mkSext(a->k0,w); }
  if(op==ZEXT) return mkZext(a,w); if(op==SEXT) return mkSext(a,w);
  if(isC(a)) return mkConst(evalOp(op,w,a->w,a->c,0,0,aux),w);
  if(op==FNEG&&a->op==FNEG) return a->k0;
  return intern(op,w,aux,0,a,0,0); }

void urange(Expr* e, u64& lo, u64& hi, int d){
  u64 m=maskw(e->w); lo=0; hi=m;
  if(e->op==CONST){ lo=hi=e->c; return; }
  if(e->op==VAR){ auto&v=g_vars[e->a]; u64 a=v.lo&m, b=v.hi&m; if(a<=b&&(!v.sgn||(a>>(e->w-1))==(b>>(e->w-1)))){ lo=a; hi=b; } return; }
  if(d<=0) return;
  u64 a,b,c,f;
  switch(e->op){
  case ZEXT: urange(e->k0,lo,hi,d-1); return;
  case SEXT: urange(e->k0,a,b,d-1); if(b<=maskw(e->k0->w)>>1){ lo=a; hi=b; } return;
  case ITE: urange(e->k1,a,b,d-1); urange(e->k2,c,f,d-1); lo=std::min(a,c); hi=std::max(b,f); return;
  case ADD: urange(e->k0,a,b,d-1); urange(e->k1,c,f,d-1); if(b<=m-f){ lo=a+c; hi=b+f; }
     else if(isC(e->k1)){ // maybe subtraction of constant: a + (2^w - k)
        u64 k=(0-e->k1->c)&m; if(a>=k){ lo=a-k; hi=b-k; } } return;
  case SUB: urange(e->k0,a,b,d-1); urange(e->k1,c,f,d-1); if(a>=f){ lo=a-f; hi=b-c; } return;
  case MUL: urange(e->k0,a,b,d-1); urange(e->k1,c,f,d-1); if(!f||b<=m/f){ lo=a*c; hi=b*f; } return;
  case AND: urange(e->k0,a,b,d-1); urange(e->k1,c,f,d-1); hi=std::min(b,f); return;
  case UREM: urange(e->k1,c,f,d-1); if(c) hi=f-1; return;
  case UDIV: urange(e->k0,a,b,d-1); urange(e->k1,c,f,d-1); if(c){ lo=a/f; hi=b/c; } return;
  case LSHR: if(isC(e->k1)&&e->k1->c<e->w){ urange(e->k0,a,b,d-1); lo=a>>e->k1->c; hi=b>>e->k1->c; } return;
  case EXTRACT: if(e->a==0){ urange(e->k0,a,b,d-1); if(b<=m){ lo=a; hi=b; } } return;
  case CONCAT: urange(e->k0,a,b,d-1); urange(e->k1,c,f,d-1); lo=(a<<e->k1->w)|c; hi=(b<<e->k1->w)|f; return;
  default: return; } }

void srange(Expr* e, __int128& lo, __int128& hi, int d){
  typedef __int128 I; I mn=-((I)1<<(e->w-1)), mx=((I)1<<(e->w-1))-1; lo=mn; hi=mx;
  if(e->op==CONST){ lo=hi=sextw(e->c,e->w); return; }
  if(e->op==VAR){ auto&v=g_vars[e->a]; if(v.sgn){ lo=sextw(v.lo,e->w); hi=sextw(v.hi,e->w);} else if(v.hi<=(u64)mx){ lo=v.lo; hi=v.hi; } return; }
  if(d<=0) return; I a,b,c,f;
  switch(e->op){
  case SEXT: srange(e->k0,lo,hi,d-1); return;
  case ZEXT: { srange(e->k0,a,b,d-1); if(a>=0){ lo=a; hi=b; } else { lo=0; hi=((I)1<<e->k0->w)-1; } return; }
  case ITE: srange(e->k1,a,b,d-1); srange(e->k2,c,f,d-1); lo=std::min(a,c); hi=std::max(b,f); return;
  case ADD: srange(e->k0,a,b,d-1); srange(e->k1,c,f,d-1); if(a+c>=mn&&b+f<=mx){ lo=a+c; hi=b+f; } return;
  case SUB: srange(e->k0,a,b,d-1); srange(e->k1,c,f,d-1); if(a-f>=mn&&b-c<=mx){ lo=a-f; hi=b-c; } return;
  case MUL: { srange(e->k0,a,b,d-1); srange(e->k1,c,f,d-1); 
     auto fits=[&](I x){ return x>-((I)1<<62)&&x<((I)1<<62); }; if(!(fits(a)&&fits(b)&&fits(c)&&fits(f))) return;
     I p[4]={a*c,a*f,b*c,b*f}; I l=*std::min_element(p,p+4), h=*std::max_element(p,p+4); if(l>=mn&&h<=mx){ lo=l; hi=h; } return; }
  case SDIV: if(isC(e->k1)){ I k=sextw(e->k1->c,e->w); if(k>0){ srange(e->k0,a,b,d-1); lo=a/k; hi=b/k; } } return;
  case SREM: if(isC(e->k1)){ I k=sextw(e->k1->c,e->w); if(k>0){ srange(e->k0,a,b,d-1); lo= a<0? std::max(a,1-k):0; hi= b>0? std::min(b,k-1):0; } } return;
  case ASHR: if(isC(e->k1)&&e->k1->c<e->w){ srange(e->k0,a,b,d-1); lo=a>>(int)e->k1->c; hi=b>>(int)e->k1->c; } return;
  case EXTRACT: if(e->a==0){ srange(e->k0,a,b,d-1); if(a>=mn&&b<=mx){ lo=a; hi=b; } } return;
  default: { u64 ul,uh; urange(e,ul,uh,4); if(uh<=(u64)mx){ lo=ul; hi=uh; } return; } } }


// Linear normal form modulo 2^w, used to settle equalities between differently written sums.
struct Lin { std::vector<std::pair<Expr*,u64>> t; u64 c=0; int budget=800; bool ok=true;
  void atom(Expr* e,u64 k){ for(auto&p:t) if(p.first==e){ p.second+=k; return; } t.push_back({e,k}); }
  void add(Expr* e,u64 k,unsigned w){
    if(--budget<0){ ok=false; return; }
    switch(e->op){
    case CONST: c+=k*e->c; return;
    case ADD: add(e->k0,k,w); add(e->k1,k,w); return;
    case SUB: add(e->k0,k,w); add(e->k1,0-k,w); return;
    case MUL: if(isC(e->k1)){ add(e->k0,k*e->k1->c,w); return; } break;
    case CONCAT: if(zero(e->k1)&&e->k0->op==EXTRACT&&e->k0->a==0&&e->k0->k0->w==w){ add(e->k0->k0,k<<e->k1->w,w); return; } break;
    case ZEXT: case SEXT: { Expr* x=e->k0; __int128 l,h; srange(x,l,h); bool nn=l>=0;
      if(e->op==SEXT||nn){ __int128 a,b,p,q; I128 mn=-((__int128)1<<(x->w-1)), mx=((__int128)1<<(x->w-1))-1;
        if(x->op==ADD||x->op==SUB){ srange(x->k0,a,b); srange(x->k1,p,q); __int128 lo=x->op==ADD?a+p:a-q, hi=x->op==ADD?b+q:b-p; if(lo>=mn&&hi<=mx){ add(mkSext(x->k0,w),k,w); add(mkSext(x->k1,w),x->op==ADD?k:0-k,w); return; } }
        if(x->op==MUL&&isC(x->k1)){ srange(x->k0,a,b); __int128 m=sextw(x->k1->c,x->w); const __int128 big=(__int128)1<<62; if(a>-big&&b<big&&m>-big&&m<big){ __int128 u=a*m,v=b*m; if(u>v) std::swap(u,v); if(u>=mn&&v<=mx){ add(mkSext(x->k0,w),k*(u64)m,w); return; } } }
        if(nn&&(x->op==ZEXT)){ add(mkZext(x->k0,w),k,w); return; }
        if(nn&&e->op==SEXT){ atom(mkZext(x,w),k); return; } }
      else { u64 a,b,p,q; if(x->op==ADD){ urange(x->k0,a,b); urange(x->k1,p,q); if(b<=maskw(x->w)-q){ add(mkZext(x->k0,w),k,w); add(mkZext(x->k1,w),k,w); return; } } }
      break; }
    default: break; }
    atom(e,k); } 
  typedef __int128 I128; };
static int linEq(Expr* a,Expr* b){ Lin L; unsigned w=a->w; L.add(a,1,w); if(L.ok) L.add(b,0-1ull,w); if(!L.ok) return -1; for(auto&p:L.t) if(p.second&maskw(w)) return -1; return (L.c&maskw(w))==0; }

static bool negs(Expr* a,Expr* b){ if(a->op!=SUB||b->op!=SUB||!zero(a->k0)||!zero(b->k0)||a->hasFP||b->hasFP) return false; __int128 l,h; srange(a->k1,l,h); if(h>=0) return false; srange(b->k1,l,h); return h<0; }
Expr* mk2(Op op, unsigned w, Expr* a, Expr* b){
  if(isC(a)&&isC(b)) return mkConst(evalOp(op,w,a->w,a->c,b->c,0,0),w);
  bool comm = op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ;
  if(comm){ if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); }
  switch(op){
  case ADD: if(zero(b)) return a;
    if(isC(b)&&a->op==ADD&&isC(a->k1)) return mk2(ADD,w,a->k0,mkConst(a->k1->c+b->c,w));
    if(isC(b)&&a->op==SUB&&isC(a->k0)) return mk2(SUB,w,mkConst(a->k0->c+b->c,w),a->k1);
    if(!isC(b)){ if(a->op==SUB&&a->k1==b) return a->k0; if(b->op==SUB&&b->k1==a) return b->k0;
      if(a->op==ADD&&isC(a->k1)) return mk2(ADD,w,mk2(ADD,w,a->k0,b),a->k1);
      if(b->op==ADD&&isC(b->k1)) return mk2(ADD,w,mk2(ADD,w,a,b->k0),b->k1); }
    break;
  case SUB: if(a==b) return mkConst(0,w); if(isC(b)) return mk2(ADD,w,a,mkConst(0-b->c,w));
    if(a->op==ADD){ if(a->k0==b) return a->k1; if(a->k1==b) return a->k0; }
    if(b->op==ADD){ if(b->k0==a) return mk2(SUB,w,mkConst(0,w),b->k1); if(b->k1==a) return mk2(SUB,w,mkConst(0,w),b->k0);
       if(isC(b->k1)) return mk2(ADD,w,mk2(SUB,w,a,b->k0),mkConst(0-b->k1->c,w)); }
    if(a->op==ADD&&isC(a->k1)) return mk2(ADD,w,mk2(SUB,w,a->k0,b),a->k1);
    if(b->op==SUB&&b->k0==a) return b->k1;
    break;
  case MUL: if(zero(b)) return b; if(isC(b)&&b->c==1) return a; break;
  case UDIV: case SDIV: if(isC(b)&&b->c==1) return a;
    if(op==SDIV&&isC(b)&&a->op==MUL&&isC(a->k1)){ __int128 k=sextw(b->c,w),c=sextw(a->k1->c,w),l,h; srange(a->k0,l,h); const __int128 big=(__int128)1<<62; if(k>0&&c>0&&c%k==0&&l>-big&&h<big&&l*c>=-((__int128)1<<(w-1))&&h*c<((__int128)1<<(w-1))) return mk2(MUL,w,a->k0,mkConst((u64)(c/k),w)); }
    if(isC(b)&&b->c){ __int128 l,h; srange(a,l,h); if(op==SDIV&&l>=0&&(i64)sextw(b->c,w)>0) return mk2(UDIV,w,a,b); 
      if(op==UDIV&&(b->c&(b->c-1))==0) return mk2(LSHR,w,a,mkConst(__builtin_ctzll(b->c),w)); }
    break;
  case UREM: if(isC(b)&&b->c&&(b->c&(b->c-1))==0) return mk2(AND,w,a,mkConst(b->c-1,w)); break;
  case AND: if(zero(b)) return b; if(allOnes(b)) return a; if(a==b) return a;
    if(isC(b)){ if(a->op==AND&&isC(a->k1)) return mk2(AND,w,a->k0,mkConst(a->k1->c&b->c,w));
      u64 v=b->c; if((v&(v+1))==0){ unsigned k=__builtin_popcountll(v); return mkZext(mkExtract(a,0,k),w); }
      if(a->op==ZEXT&&(v&maskw(a->k0->w))==maskw(a->k0->w)) return a;
      { unsigned k=v?__builtin_ctzll(v):0; if(k&&w>1&&v==(maskw(w)&~maskw(k))) return mkConcat(mkExtract(a,k,w-k),mkConst(0,k)); } }
    if(w==1){ if(a->op==XOR&&isC(a->k1)&&a->k0==b) return mkConst(0,1); if(b->op==XOR&&isC(b->k1)&&b->k0==a) return mkConst(0,1); }
    break;
  case OR: if(zero(b)) return a; if(allOnes(b)) return b; if(a==b) return a;
    if(w==1){ if(a->op==XOR&&isC(a->k1)&&a->k0==b) return mkConst(1,1); if(b->op==XOR&&isC(b->k1)&&b->k0==a) return mkConst(1,1); }
    // or of disjoint pieces: (concat(h,0)) | zext(l)
    if(!isC(b)){ for(int s=0;s<2;s++){ Expr*x=s?b:a,*y=s?a:b; if(x->op==CONCAT&&zero(x->k1)){ u64 l,h; urange(y,l,h); if(h<=maskw(x->k1->w)) return mkConcat(x->k0,mkExtract(y,0,x->k1->w)); }
        if(x->op==ZEXT&&x->k0->op==CONCAT&&zero(x->k0->k1)){ u64 l,h; urange(y,l,h); unsigned lw=x->k0->k1->w; if(h<=maskw(lw)) return mkZext(mkConcat(x->k0->k0,mkExtract(y,0,lw)),w); } } }
    break;
  case XOR: if(zero(b)) return a; if(a==b) return mkConst(0,w); if(isC(b)&&a->op==XOR&&isC(a->k1)) return mk2(XOR,w,a->k0,mkConst(a->k1->c^b->c,w));
    if(w==1&&isC(b)&&b->c==1){ // push not into comparisons
      if(a->op==ULT) return intern(ULE,1,0,0,a->k1,a->k0,0); if(a->op==ULE) return intern(ULT,1,0,0,a->k1,a->k0,0);
      if(a->op==SLT) return intern(SLE,1,0,0,a->k1,a->k0,0); if(a->op==SLE) return intern(SLT,1,0,0,a->k1,a->k0,0); }
    break;
  case SHL: if(zero(b)) return a; if(zero(a)) return a; if(isC(b)){ if(b->c>=w) return mkConst(0,w); return mkConcat(mkExtract(a,0,w-b->c),mkConst(0,b->c)); } break;
  case LSHR: if(zero(b)) return a; if(zero(a)) return a; if(isC(b)){ if(b->c>=w) return mkConst(0,w); return mkZext(mkExtract(a,b->c,w-b->c),w); } break;
  case ASHR: if(zero(b)) return a; if(isC(b)){ u64 s=b->c>=w?w-1:b->c; return mkSext(mkExtract(a,s,w-s),w); } break;
  case EQ: if(w==1&&a->w==64&&(a->op>=FADD||b->op>=FADD)){ double l,h,l2,h2; if(frange(a,l,h)&&frange(b,l2,h2)&&(h<l2||h2<l)) return mkConst(0,1); }
    if(a==b) return mkConst(1,1);
    if(a->w==1&&isC(b)) return b->c? a: mkNot(a);
    if(isC(b)){
      if(a->op==ZEXT){ if(b->c>maskw(a->k0->w)) return mkConst(0,1); return mkEq(a->k0,mkConst(b->c,a->k0->w)); }
      if(a->op==SEXT){ u64 t=b->c&maskw(a->k0->w); if(((u64)sextw(t,a->k0->w)&maskw(a->w))!=b->c) return mkConst(0,1); return mkEq(a->k0,mkConst(t,a->k0->w)); }
      if(a->op==ADD&&isC(a->k1)) return mkEq(a->k0,mkConst(b->c-a->k1->c,a->w));
      if(a->op==SUB&&isC(a->k0)) return mkEq(a->k1,mkConst(a->k0->c-b->c,a->w));
      if(a->op==SUB&&zero(b)) return mkEq(a->k0,a->k1);
      if(a->op==XOR&&isC(a->k1)) return mkEq(a->k0,mkConst(b->c^a->k1->c,a->w));
      if(a->op==XOR&&zero(b)) return mkEq(a->k0,a->k1);
      if(a->op==ITE){ if(isC(a->k1)&&isC(a->k2)){ bool x=a->k1->c==b->c,y=a->k2->c==b->c; if(x&&y) return mkConst(1,1); if(x) return a->k0; if(y) return mkNot(a->k0); return mkConst(0,1); }
        if(isC(a->k1)) { if(a->k1->c!=b->c) return mk2(AND,1,mkNot(a->k0),mkEq(a->k2,b)); return mk2(OR,1,a->k0,mkEq(a->k2,b)); }
        if(isC(a->k2)) { if(a->k2->c!=b->c) return mk2(AND,1,a->k0,mkEq(a->k1,b)); return mk2(OR,1,mkNot(a->k0),mkEq(a->k1,b)); } }
      if(a->op==CONCAT) return mk2(AND,1,mkEq(a->k0,mkConst(b->c>>a->k1->w,a->k0->w)),mkEq(a->k1,mkConst(b->c,a->k1->w)));
      u64 l,h; urange(a,l,h); if(b->c<l||b->c>h) return mkConst(0,1); if(l==h) return mkConst(1,1);
      __int128 sl,sh; srange(a,sl,sh); if((__int128)sextw(b->c,b->w)<sl||(__int128)sextw(b->c,b->w)>sh) return mkConst(0,1);
    } else {
      if(a->op==CONCAT&&b->op==CONCAT&&a->k1->w==b->k1->w) return mk2(AND,1,mkEq(a->k0,b->k0),mkEq(a->k1,b->k1));
      if(a->op==ZEXT&&b->op==ZEXT&&a->k0->w==b->k0->w) return mkEq(a->k0,b->k0);
      if(a->op==SEXT&&b->op==SEXT&&a->k0->w==b->k0->w) return mkEq(a->k0,b->k0);
      if(a->op==SUB&&b->op==SUB&&zero(a->k0)&&zero(b->k0)) return mkEq(a->k1,b->k1);
      if(a->op==ADD&&isC(a->k1)&&b->op==ADD&&isC(b->k1)) return mkEq(mk2(ADD,a->w,a->k0,mkConst(a->k1->c-b->k1->c,a->w)),b->k0);
      if(a->op==ADD){ if(a->k0==b) return mkEq(a->k1,mkConst(0,a->w)); if(a->k1==b) return mkEq(a->k0,mkConst(0,a->w)); }
      if(b->op==ADD){ if(b->k0==a) return mkEq(b->k1,mkConst(0,a->w)); if(b->k1==a) return mkEq(b->k0,mkConst(0,a->w)); }
      u64 l,h,l2,h2; urange(a,l,h); urange(b,l2,h2); if(h<l2||h2<l) return mkConst(0,1);
      if(a->w>1&&!a->hasFP&&!b->hasFP&&(a->op==ADD||a->op==SUB||a->op==MUL||b->op==ADD||b->op==SUB||b->op==MUL)){ int r=linEq(a,b); if(r>=0) return mkConst(r,1); }
    }
    break;
  case ULT: { if(a==b) return mkConst(0,1); if(zero(b)) return mkConst(0,1); u64 l,h,l2,h2; urange(a,l,h); urange(b,l2,h2); if(h<l2) return mkConst(1,1); if(l>=h2) return mkConst(0,1);
    if(a->op==ZEXT&&b->op==ZEXT&&a->k0->w==b->k0->w) return mk2(ULT,1,a->k0,b->k0);
    if(a->op==ZEXT&&isC(b)) return mk2(ULT,1,a->k0,mkConst(b->c,a->k0->w)); if(b->op==ZEXT&&isC(a)) return mk2(ULT,1,mkConst(a->c,b->k0->w),b->k0);
    if(isC(b)&&b->c==1) return mkEq(a,mkConst(0,a->w)); if(negs(a,b)) return mk2(SLT,1,b->k1,a->k1); break; }
  case ULE: { if(a==b) return mkConst(1,1); if(zero(a)) return mkConst(1,1); u64 l,h,l2,h2; urange(a,l,h); urange(b,l2,h2); if(h<=l2) return mkConst(1,1); if(l>h2) return mkConst(0,1);
    if(zero(b)) return mkEq(a,b);
    if(a->op==ZEXT&&b->op==ZEXT&&a->k0->w==b->k0->w) return mk2(ULE,1,a->k0,b->k0);
    if(a->op==ZEXT&&isC(b)) return mk2(ULE,1,a->k0,mkConst(b->c,a->k0->w)); if(b->op==ZEXT&&isC(a)) return mk2(ULE,1,mkConst(a->c,b->k0->w),b->k0); if(negs(a,b)) return mk2(SLE,1,b->k1,a->k1); break; }
  case SLT: case SLE: { if(a==b) return mkConst(op==SLE,1); if(!a->hasFP&&!b->hasFP){ __int128 l,h,l2,h2; srange(a,l,h); srange(b,l2,h2);
      if(op==SLT? h<l2 : h<=l2) return mkConst(1,1); if(op==SLT? l>=h2 : l>h2) return mkConst(0,1);
      if(l>=0&&l2>=0) return mk2(op==SLT?ULT:ULE,1,a,b); }
    if(a->op==SEXT&&b->op==SEXT&&a->k0->w==b->k0->w) return mk2(op,1,a->k0,b->k0);
    break; }
  case FADD: if(w==64){ double l,h; if(a->id>b->id&&frange(a,l,h)&&frange(b,l,h)) std::swap(a,b); if(isC(a)&&!a->c&&fpos(b)&&frange(b,l,h)) return b; if(isC(b)&&!b->c&&fpos(a)&&frange(a,l,h)) return a; } break;
  case FSUB: if(w==64&&a==b){ double l,h; if(frange(a,l,h)&&std::isfinite(l)&&std::isfinite(h)) return mkConst(0,64); } break;
  case FMUL: if(w==64){ double l,h; if(isC(a)&&!a->c&&fpos(b)&&frange(b,l,h)&&std::isfinite(l)&&std::isfinite(h)) return a; if(isC(b)&&!b->c&&fpos(a)&&frange(a,l,h)&&std::isfinite(l)&&std::isfinite(h)) return b; if(a==b&&a->op==FNEG&&frange(a,l,h)) return mk2(FMUL,64,a->k0,a->k0); if(a==b&&a->op==ITE&&frange(a,l,h)) return mkIte(a->k0,mk2(FMUL,64,a->k1,a->k1),mk2(FMUL,64,a->k2,a->k2)); if(a->id>b->id&&frange(a,l,h)&&frange(b,l,h)) std::swap(a,b); } break;
  case FOEQ: case FOLT: case FOLE: case FUNO: if(a->w==64){ double l,h,l2,h2; bool ra=frange(a,l,h),rb=ra&&frange(b,l2,h2); if(rb){ if(op==FUNO) return mkConst(0,1); if(op==FOEQ){ if(a==b) return mkConst(1,1); if(h<l2||h2<l) return mkConst(0,1); } else { if(a==b) return mkConst(op==FOLE,1); if(op==FOLT?h<l2:h<=l2) return mkConst(1,1); if(op==FOLT?l>=h2:l>h2) return mkConst(0,1); } } } break;
  default: break; }
  return intern(op,w,0,0,a,b,0); }

void collectVars(Expr* e, std::vector<u32>& out){
  static std::unordered_map<Expr*,std::vector<u32>> cache;
  auto it=cache.find(e); if(it!=cache.end()){ out.insert(out.end(),it->second.begin(),it->second.end()); return; }
  std::vector<u32> r; u32 ep=newEpoch(); std::vector<Expr*> st{e};
  while(!st.empty()){ Expr*x=st.back(); st.pop_back(); if(x->mark==ep) continue; x->mark=ep; if(x->op==VAR) r.push_back(x->a); if(x->k0) st.push_back(x->k0); if(x->k1) st.push_back(x->k1); if(x->k2) st.push_back(x->k2); }
  std::sort(r.begin(),r.end()); r.erase(std::unique(r.begin(),r.end()),r.end());
  out.insert(out.end(),r.begin(),r.end()); cache[e]=r; }

static const char* opn[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","fneg","fabs","foeq","folt","fole","funo","sitofp","uitofp","fptosi","fptoui","fround","ffloor","fceil","ftrunc","frint","fsqrt","func"};
std::string exprStr(Expr* e, int d){ char b[64];
  if(e->op==CONST){ snprintf(b,64,"%lld",(long long)sextw(e->c,e->w)); return b; }
  if(e->op==VAR) return g_vars[e->a].name;
  if(d<=0) return "...";
  std::string s="("; s+=opn[e->op]; if(e->op==EXTRACT){ snprintf(b,64,"[%u+%u]",e->a,e->w); s+=b; } else if(e->op==ZEXT||e->op==SEXT){ snprintf(b,64,"%u",e->w); s+=b; }
  for(Expr*k:{e->k0,e->k1,e->k2}) if(k){ s+=" "; s+=exprStr(k,d-1); } return s+")"; }
