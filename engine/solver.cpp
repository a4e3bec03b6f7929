#include "solver.h"
#include <z3.h>
#include <chrono>
SolverStats g_sstats; unsigned g_solverTimeoutMs=20000; std::string g_dumpDir;
static Z3_context C=nullptr; static Z3_solver BVS=nullptr, SMS=nullptr; // SMS: quick incremental core, tried first
static std::vector<Z3_ast> bvCache, boolCache; static std::unordered_map<u32,Z3_ast> varAst;
static void init(){ if(C) return; Z3_config cfg=Z3_mk_config(); C=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); abort(); });
  BVS=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,BVS); SMS=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,SMS); }
static Z3_sort bvs(unsigned w){ return Z3_mk_bv_sort(C,w); }
static Z3_ast var(u32 id,unsigned w){ auto it=varAst.find(id); if(it!=varAst.end()) return it->second; char b[32]; snprintf(b,32,"v%u",id); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,b),bvs(w)); varAst[id]=a; return a; }
static std::vector<Z3_ast> sideConds; // constraints introduced by fp->bits
static Z3_ast lowB(Expr* e); static Z3_ast lowV(Expr* e); static Z3_ast lowF(Expr* e);
static Z3_sort D(){ return Z3_mk_fpa_sort_double(C); }
static Z3_ast RNE(){ return Z3_mk_fpa_rne(C); }
template<class F> static Z3_ast cached(std::vector<Z3_ast>& c, Expr* e, F f){ if(c.size()<=e->id) c.resize(e->id+1024,nullptr); if(c[e->id]) return c[e->id]; Z3_ast r=f(); Z3_inc_ref(C,r); c[e->id]=r; return r; }
static std::vector<Z3_ast> fCache;
static Z3_ast lowF(Expr* e){ return cached(fCache,e,[&]()->Z3_ast{
  switch(e->op){
  case FADD: return Z3_mk_fpa_add(C,RNE(),lowF(e->k0),lowF(e->k1));
  case FSUB: return Z3_mk_fpa_sub(C,RNE(),lowF(e->k0),lowF(e->k1));
  case FMUL: return Z3_mk_fpa_mul(C,RNE(),lowF(e->k0),lowF(e->k1));
  case FDIV: return Z3_mk_fpa_div(C,RNE(),lowF(e->k0),lowF(e->k1));
  case FNEG: return Z3_mk_fpa_neg(C,lowF(e->k0)); case FABS: return Z3_mk_fpa_abs(C,lowF(e->k0));
  case FSQRT: return Z3_mk_fpa_sqrt(C,RNE(),lowF(e->k0));
  case SITOFP: return Z3_mk_fpa_to_fp_signed(C,RNE(),lowV(e->k0),D());
  case UITOFP: return Z3_mk_fpa_to_fp_unsigned(C,RNE(),lowV(e->k0),D());
  case FROUND: return Z3_mk_fpa_round_to_integral(C,Z3_mk_fpa_rna(C),lowF(e->k0));
  case FFLOOR: return Z3_mk_fpa_round_to_integral(C,Z3_mk_fpa_rtn(C),lowF(e->k0));
  case FCEIL: return Z3_mk_fpa_round_to_integral(C,Z3_mk_fpa_rtp(C),lowF(e->k0));
  case FTRUNC: return Z3_mk_fpa_round_to_integral(C,Z3_mk_fpa_rtz(C),lowF(e->k0));
  case FRINT: return Z3_mk_fpa_round_to_integral(C,RNE(),lowF(e->k0));
  case ITE: return Z3_mk_ite(C,lowB(e->k0),lowF(e->k1),lowF(e->k2));
  case FUNC: { Z3_sort d[1]={D()}; char b[32]; snprintf(b,32,"fn%u",e->a); Z3_func_decl f=Z3_mk_func_decl(C,Z3_mk_string_symbol(C,b),1,d,D()); Z3_ast x=lowF(e->k0); return Z3_mk_app(C,f,1,&x); }
  default: return Z3_mk_fpa_to_fp_bv(C,lowV(e),D()); } }); }
static bool isFPop(Expr*e){ switch(e->op){ case FADD:case FSUB:case FMUL:case FDIV:case FNEG:case FABS:case FSQRT:case SITOFP:case UITOFP:case FROUND:case FFLOOR:case FCEIL:case FTRUNC:case FRINT:case FUNC: return true; default: return false; } }
static Z3_ast lowB(Expr* e){ return cached(boolCache,e,[&]()->Z3_ast{
  switch(e->op){
  case CONST: return e->c? Z3_mk_true(C):Z3_mk_false(C);
  case EQ: if(e->k0->w==1) return Z3_mk_iff(C,lowB(e->k0),lowB(e->k1)); return Z3_mk_eq(C,lowV(e->k0),lowV(e->k1));
  case ULT: return Z3_mk_bvult(C,lowV(e->k0),lowV(e->k1)); case ULE: return Z3_mk_bvule(C,lowV(e->k0),lowV(e->k1));
  case SLT: return Z3_mk_bvslt(C,lowV(e->k0),lowV(e->k1)); case SLE: return Z3_mk_bvsle(C,lowV(e->k0),lowV(e->k1));
  case AND: { Z3_ast a[2]={lowB(e->k0),lowB(e->k1)}; return Z3_mk_and(C,2,a); }
  case OR: { Z3_ast a[2]={lowB(e->k0),lowB(e->k1)}; return Z3_mk_or(C,2,a); }
  case XOR: if(isC(e->k1)&&e->k1->c==1) return Z3_mk_not(C,lowB(e->k0)); return Z3_mk_xor(C,lowB(e->k0),lowB(e->k1));
  case ITE: return Z3_mk_ite(C,lowB(e->k0),lowB(e->k1),lowB(e->k2));
  case FOEQ: return Z3_mk_fpa_eq(C,lowF(e->k0),lowF(e->k1)); case FOLT: return Z3_mk_fpa_lt(C,lowF(e->k0),lowF(e->k1)); case FOLE: return Z3_mk_fpa_leq(C,lowF(e->k0),lowF(e->k1));
  case FUNO: { Z3_ast a[2]={Z3_mk_fpa_is_nan(C,lowF(e->k0)),Z3_mk_fpa_is_nan(C,lowF(e->k1))}; return Z3_mk_or(C,2,a); }
  default: return Z3_mk_eq(C,lowV(e),Z3_mk_unsigned_int64(C,1,bvs(1))); } }); }
static Z3_ast lowV(Expr* e){ return cached(bvCache,e,[&]()->Z3_ast{
  auto V=[&](int i){ return lowV(i==0?e->k0:i==1?e->k1:e->k2); };
  if(e->w==1&&(e->op==EQ||e->op==ULT||e->op==ULE||e->op==SLT||e->op==SLE||e->op==FOEQ||e->op==FOLT||e->op==FOLE||e->op==FUNO||e->op==AND||e->op==OR||e->op==XOR))
    return Z3_mk_ite(C,lowB(e),Z3_mk_unsigned_int64(C,1,bvs(1)),Z3_mk_unsigned_int64(C,0,bvs(1)));
  if(isFPop(e)){ char b[32]; snprintf(b,32,"fb%u",e->id); Z3_ast v=Z3_mk_const(C,Z3_mk_string_symbol(C,b),bvs(64)); Z3_ast c=Z3_mk_eq(C,Z3_mk_fpa_to_fp_bv(C,v,D()),lowF(e)); Z3_inc_ref(C,c); sideConds.push_back(c); return v; }
  switch(e->op){
  case CONST: return Z3_mk_unsigned_int64(C,e->c,bvs(e->w));
  case VAR: return var(e->a,e->w);
  case ADD: return Z3_mk_bvadd(C,V(0),V(1)); case SUB: return Z3_mk_bvsub(C,V(0),V(1)); case MUL: return Z3_mk_bvmul(C,V(0),V(1));
  case UDIV: return Z3_mk_bvudiv(C,V(0),V(1)); case SDIV: return Z3_mk_bvsdiv(C,V(0),V(1)); case UREM: return Z3_mk_bvurem(C,V(0),V(1)); case SREM: return Z3_mk_bvsrem(C,V(0),V(1));
  case AND: return Z3_mk_bvand(C,V(0),V(1)); case OR: return Z3_mk_bvor(C,V(0),V(1)); case XOR: return Z3_mk_bvxor(C,V(0),V(1));
  case SHL: return Z3_mk_bvshl(C,V(0),V(1)); case LSHR: return Z3_mk_bvlshr(C,V(0),V(1)); case ASHR: return Z3_mk_bvashr(C,V(0),V(1));
  case ITE: return Z3_mk_ite(C,lowB(e->k0),V(1),V(2));
  case CONCAT: return Z3_mk_concat(C,V(0),V(1)); case EXTRACT: return Z3_mk_extract(C,e->a+e->w-1,e->a,V(0));
  case ZEXT: return Z3_mk_zero_ext(C,e->w-e->k0->w,V(0)); case SEXT: return Z3_mk_sign_ext(C,e->w-e->k0->w,V(0));
  case FPTOSI: return Z3_mk_fpa_to_sbv(C,Z3_mk_fpa_rtz(C),lowF(e->k0),e->w); case FPTOUI: return Z3_mk_fpa_to_ubv(C,Z3_mk_fpa_rtz(C),lowF(e->k0),e->w);
  default: fprintf(stderr,"lowV op %d\n",e->op); abort(); } }); }

// ---------- integer/real relaxation for queries that contain floating point ----------
// Each double operation is replaced by the exact real operation plus an error term bounded by
// half an ulp (relative 2^-53, plus the absolute subnormal bound): an over-approximation of IEEE
// round-to-nearest for results within the finite range, so UNSAT transfers to the real arithmetic.
struct Unsupported {};
struct IntLower {
  std::unordered_map<Expr*,Z3_ast> ci, cb, cr; std::vector<Z3_ast> side; int fresh=0;
  Z3_sort I,R; std::unordered_map<u32,Z3_ast> iv;
  std::unordered_map<Expr*,std::pair<double,double>> fr;
  int mode=0;
  IntLower(int m):mode(m){ I=Z3_mk_int_sort(C); R=Z3_mk_real_sort(C); }
  Z3_ast num(const std::string& s, Z3_sort so){ return Z3_mk_numeral(C,s.c_str(),so); }
  static std::string s128(__int128 v){ bool n=v<0; unsigned __int128 u=n?-(unsigned __int128)v:v; std::string s; do{ s.insert(s.begin(),'0'+(int)(u%10)); u/=10; }while(u); if(n) s="-"+s; return s; }
  Z3_ast i128(__int128 v){ return num(s128(v),I); }
  Z3_ast mkfresh(Z3_sort so){ char b[32]; snprintf(b,32,"t%d",fresh++); return Z3_mk_const(C,Z3_mk_string_symbol(C,b),so); }
  Z3_ast add(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_add(C,2,x); } Z3_ast sub(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_sub(C,2,x); } Z3_ast mul(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_mul(C,2,x); }
  Z3_ast And(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_and(C,2,x); } Z3_ast Or(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_or(C,2,x); }
  Z3_ast le(Z3_ast a,Z3_ast b){ return Z3_mk_le(C,a,b);} Z3_ast lt(Z3_ast a,Z3_ast b){ return Z3_mk_lt(C,a,b);} 
  Z3_ast wrap(Z3_ast v, unsigned w, __int128 lo, __int128 hi){ // v mathematically in [lo,hi]; reduce to signed w
    __int128 mn=-((__int128)1<<(w-1)), mx=((__int128)1<<(w-1))-1; if(lo>=mn&&hi<=mx) return v;
    Z3_ast k=mkfresh(I), r=mkfresh(I); side.push_back(Z3_mk_eq(C,r,sub(v,mul(k,i128((__int128)1<<w))))); side.push_back(le(i128(mn),r)); side.push_back(le(r,i128(mx))); return r; }
  Z3_ast U(Expr* e){ __int128 l,h; srange(e,l,h); Z3_ast s=S(e); if(l>=0) return s; return Z3_mk_ite(C,lt(s,i128(0)),add(s,i128((__int128)1<<e->w)),s); }
  Z3_ast S(Expr* e){ auto it=ci.find(e); if(it!=ci.end()) return it->second; Z3_ast r=S_(e); ci[e]=r; return r; }
  Z3_ast S_(Expr* e){ typedef __int128 T; T a,b,c,f; unsigned w=e->w;
    if(w==1&&e->op!=VAR&&e->op!=CONST&&e->op!=EXTRACT) return Z3_mk_ite(C,B(e),i128(-1),i128(0));
    switch(e->op){
    case CONST: return i128(sextw(e->c,w));
    case VAR: { auto it=iv.find(e->a); if(it!=iv.end()) return it->second; char n[32]; snprintf(n,32,"i%u",e->a); Z3_ast v=Z3_mk_const(C,Z3_mk_string_symbol(C,n),I); iv[e->a]=v; srange(e,a,b); side.push_back(le(i128(a),v)); side.push_back(le(v,i128(b))); return v; }
    case ADD: srange(e->k0,a,b); srange(e->k1,c,f); return wrap(add(S(e->k0),S(e->k1)),w,a+c,b+f);
    case SUB: srange(e->k0,a,b); srange(e->k1,c,f); return wrap(sub(S(e->k0),S(e->k1)),w,a-f,b-c);
    case MUL: { if(!isC(e->k1)){ srange(e->k0,a,b); srange(e->k1,c,f); if(a<-((T)1<<63)||b>((T)1<<63)-1||c<-((T)1<<63)||f>((T)1<<63)-1) throw Unsupported(); double mg=std::max(fabs((double)a),fabs((double)b))*std::max(fabs((double)c),fabs((double)f)); if(mg>1e37) throw Unsupported(); T p[4]={a*c,a*f,b*c,b*f}; T lo=*std::min_element(p,p+4), hi=*std::max_element(p,p+4); T mn=-((T)1<<(w-1)), mx=((T)1<<(w-1))-1; if(mode==0){ if(lo<mn||hi>mx){ lo=mn; hi=mx; } S(e->k0); S(e->k1); Z3_ast r=mkfresh(I); side.push_back(le(i128(lo),r)); side.push_back(le(r,i128(hi))); return r; } return wrap(mul(S(e->k0),S(e->k1)),w,lo,hi); } T k=sextw(e->k1->c,w); srange(e->k0,a,b); if(w==64&&(k>((T)1<<60)||k<-((T)1<<60))) throw Unsupported(); T x=a*k,y=b*k; if(x>y) std::swap(x,y); return wrap(mul(S(e->k0),i128(k)),w,x,y); }
    case SHL: throw Unsupported();
    case CONCAT: { T l,h; Z3_ast hi=S(e->k0), lo=U(e->k1); (void)l;(void)h; return add(mul(hi,i128((T)1<<e->k1->w)),lo); }
    case SEXT: return S(e->k0); case ZEXT: return U(e->k0);
    case EXTRACT: if(e->a==0){ srange(e->k0,a,b); return wrap(S(e->k0),w,a,b); } { Z3_ast q=Z3_mk_div(C,S(e->k0),i128((T)1<<e->a)); srange(e->k0,a,b); return wrap(q,w,a>>e->a,b>>e->a); }
    case ITE: return Z3_mk_ite(C,B(e->k0),S(e->k1),S(e->k2));
    case SDIV: case SREM: { if(!isC(e->k1)) throw Unsupported(); T k=sextw(e->k1->c,w); if(k<=0) throw Unsupported(); Z3_ast x=S(e->k0); Z3_ast q=Z3_mk_ite(C,le(i128(0),x),Z3_mk_div(C,x,i128(k)),Z3_mk_unary_minus(C,Z3_mk_div(C,Z3_mk_unary_minus(C,x),i128(k)))); if(e->op==SDIV) return q; return sub(x,mul(q,i128(k))); }
    case UDIV: case UREM: { if(!isC(e->k1)||!e->k1->c) throw Unsupported(); T k=(T)e->k1->c; Z3_ast x=U(e->k0); Z3_ast r= e->op==UDIV? Z3_mk_div(C,x,i128(k)):Z3_mk_mod(C,x,i128(k)); T m=((T)1<<w)-1; return wrap(r,w,0,e->op==UDIV?m/k:k-1); }
    case FPTOSI: { auto p=range(e->k0); Z3_ast x=Rr(e->k0); __int128 mx=(T)1<<(w-1); if(!(p.first>-(double)mx-1&&p.second<(double)mx)) throw Unsupported(); auto it=intOf.find(e->k0); if(it!=intOf.end()) return it->second; return trunc(x); }
    default: throw Unsupported(); } }
  std::unordered_map<Expr*,Z3_ast> intOf; // integer-valued doubles: their integer
  Z3_ast trunc(Z3_ast x){ Z3_ast z=num("0",R), one=num("1",R); Z3_ast r=mkfresh(I), rr=Z3_mk_int2real(C,r);
    side.push_back(Z3_mk_implies(C,le(z,x),And(le(rr,x),lt(x,add(rr,one))))); side.push_back(Z3_mk_implies(C,le(x,z),And(lt(sub(rr,one),x),le(x,rr)))); return r; }
  Z3_ast nearest(Expr* e, Z3_ast x){ // round to nearest; at ties either neighbour is admitted (over-approximation)
    Z3_ast r=mkfresh(I), rr=Z3_mk_int2real(C,r), hf=num("1/2",R); side.push_back(le(sub(rr,x),hf)); side.push_back(le(sub(x,rr),hf)); intOf[e]=r; return rr; }
  Z3_ast B(Expr* e){ auto it=cb.find(e); if(it!=cb.end()) return it->second; Z3_ast r=B_(e); cb[e]=r; return r; }
  Z3_ast B_(Expr* e){ switch(e->op){
    case CONST: return e->c?Z3_mk_true(C):Z3_mk_false(C);
    case EQ: if(e->k0->w==1) return Z3_mk_iff(C,B(e->k0),B(e->k1)); return Z3_mk_eq(C,S(e->k0),S(e->k1));
    case ULT: return lt(U(e->k0),U(e->k1)); case ULE: return le(U(e->k0),U(e->k1)); case SLT: return lt(S(e->k0),S(e->k1)); case SLE: return le(S(e->k0),S(e->k1));
    case AND: return And(B(e->k0),B(e->k1)); case OR: return Or(B(e->k0),B(e->k1)); case XOR: return Z3_mk_xor(C,B(e->k0),B(e->k1)); case ITE: return Z3_mk_ite(C,B(e->k0),B(e->k1),B(e->k2));
    case FOEQ: return Z3_mk_eq(C,Rr(e->k0),Rr(e->k1)); case FOLT: return lt(Rr(e->k0),Rr(e->k1)); case FOLE: return le(Rr(e->k0),Rr(e->k1));
    case FUNO: range(e->k0); range(e->k1); return Z3_mk_false(C);
    case VAR: case EXTRACT: return Z3_mk_not(C,Z3_mk_eq(C,S(e),i128(0)));
    default: throw Unsupported(); } }
  // conservative double ranges; throws if not provably finite
  std::pair<double,double> range(Expr* e){ auto it=fr.find(e); if(it!=fr.end()) return it->second; auto p=range_(e); if(!(p.first>=-1e300&&p.second<=1e300)) throw Unsupported(); fr[e]=p; return p; }
  static double trunc_(double d){ return ::trunc(d); }
  std::pair<double,double> range_(Expr* e){ auto W=[](double a,double b){ double m=std::max(fabs(a),fabs(b))*1e-12+1e-300; return std::make_pair(a-m,b+m); };
    __int128 l,h; std::pair<double,double> a,b;
    switch(e->op){ case CONST: { double d=asD(e->c); if(d!=d) throw Unsupported(); return {d,d}; }
    case VAR: case FSQRT: { double x,y; if(!frange(e,x,y)) throw Unsupported(); return {x,y}; }
    case SITOFP: srange(e->k0,l,h); return W((double)l,(double)h);
    case UITOFP: { u64 ul,uh; urange(e->k0,ul,uh); return W((double)ul,(double)uh); }
    case FADD: a=range(e->k0); b=range(e->k1); return W(a.first+b.first,a.second+b.second);
    case FSUB: a=range(e->k0); b=range(e->k1); return W(a.first-b.second,a.second-b.first);
    case FMUL: { a=range(e->k0); b=range(e->k1); double p[4]={a.first*b.first,a.first*b.second,a.second*b.first,a.second*b.second}; return W(*std::min_element(p,p+4),*std::max_element(p,p+4)); }
    case FDIV: { a=range(e->k0); b=range(e->k1); if(b.first<=0&&b.second>=0) throw Unsupported(); double p[4]={a.first/b.first,a.first/b.second,a.second/b.first,a.second/b.second}; return W(*std::min_element(p,p+4),*std::max_element(p,p+4)); }
    case FNEG: a=range(e->k0); return {-a.second,-a.first}; case FABS: a=range(e->k0); return {0,std::max(fabs(a.first),fabs(a.second))};
    case FROUND: a=range(e->k0); return {round(a.first),round(a.second)}; case FFLOOR: a=range(e->k0); return {floor(a.first),floor(a.second)}; case FCEIL: a=range(e->k0); return {ceil(a.first),ceil(a.second)}; case FTRUNC: a=range(e->k0); return {trunc_(a.first),trunc_(a.second)}; case FRINT: a=range(e->k0); return {a.first-1,a.second+1};
    case ITE: a=range(e->k1); b=range(e->k2); return {std::min(a.first,b.first),std::max(a.second,b.second)};
    default: throw Unsupported(); } }
  Z3_ast realConst(double d){ // exact rational
    int ex; double m=frexp(d,&ex); i64 mi=(i64)ldexp(m,53); ex-=53; std::string s=std::to_string(mi); Z3_ast v=num(s,R); if(ex==0||mi==0) return v;
    Z3_ast p=num("1",R); Z3_ast two=num("2",R); 
    { // power of two as a numeral string
      std::vector<int> dg{1}; for(int i=0;i<abs(ex);i++){ int c=0; for(auto&x:dg){ x=x*2+c; c=x/10; x%=10; } if(c) dg.push_back(c); } std::string ps; for(auto i=dg.rbegin();i!=dg.rend();++i) ps+=char('0'+*i); 
      if(ex>0) { (void)two; return mul(v,num(ps,R)); } return num(s+"/"+ps,R); } (void)p; }
  Z3_ast err(Z3_ast exact, Expr* e){ // rounded value of exact
    static const char* u="1/9007199254740992";
    if(mode==0){ auto p=range(e); double m=std::max(fabs(p.first),fabs(p.second)); if(m<1e-290) m=1e-290; Z3_ast r=mkfresh(R); Z3_ast bd=mul(num(u,R),realConst(m*1.0000001)); side.push_back(le(sub(r,exact),bd)); side.push_back(le(sub(exact,r),bd)); return r; } Z3_ast r=mkfresh(R); Z3_ast z=num("0",R); Z3_ast ab=Z3_mk_ite(C,le(z,exact),exact,Z3_mk_unary_minus(C,exact));
    Z3_ast bound=add(mul(num(u,R),ab),num("1/1000000000000000000000000000000000000000000000000000000000000",R)); Z3_ast d=sub(r,exact);
    side.push_back(le(d,bound)); side.push_back(le(Z3_mk_unary_minus(C,bound),d));
    // rounding preserves sign
    side.push_back(Z3_mk_implies(C,le(z,exact),le(z,r))); side.push_back(Z3_mk_implies(C,le(exact,z),le(r,z))); return r; }
  Z3_ast Rr(Expr* e){ auto it=cr.find(e); if(it!=cr.end()) return it->second; range(e); Z3_ast r=R_(e); cr[e]=r; return r; }
  Z3_ast R_(Expr* e){ switch(e->op){
    case CONST: return realConst(asD(e->c));
    case SITOFP: { __int128 l,h; srange(e->k0,l,h); Z3_ast x=Z3_mk_int2real(C,S(e->k0)); __int128 L=(__int128)1<<53; if(l>=-L&&h<=L) return x; return err(x,e); }
    case UITOFP: { u64 l,h; urange(e->k0,l,h); Z3_ast x=Z3_mk_int2real(C,U(e->k0)); if(h<=(1ull<<53)) return x; return err(x,e); }
    case FADD: return err(add(Rr(e->k0),Rr(e->k1)),e); case FSUB: return err(sub(Rr(e->k0),Rr(e->k1)),e);
    case FMUL: if(isC(e->k1)||isC(e->k0)) return err(mul(Rr(e->k0),Rr(e->k1)),e); return opaque(e);
    case FDIV: if(isC(e->k1)) return err(Z3_mk_div(C,Rr(e->k0),Rr(e->k1)),e); throw Unsupported();
    case FNEG: return Z3_mk_unary_minus(C,Rr(e->k0)); case FABS: { Z3_ast x=Rr(e->k0); return Z3_mk_ite(C,le(num("0",R),x),x,Z3_mk_unary_minus(C,x)); }
    case FROUND: case FRINT: return nearest(e,Rr(e->k0));
    case FFLOOR: { Z3_ast x=Rr(e->k0), r=mkfresh(I), rr=Z3_mk_int2real(C,r); side.push_back(le(rr,x)); side.push_back(lt(x,add(rr,num("1",R)))); intOf[e]=r; return rr; }
    case FCEIL: { Z3_ast x=Rr(e->k0), r=mkfresh(I), rr=Z3_mk_int2real(C,r); side.push_back(le(x,rr)); side.push_back(lt(sub(rr,num("1",R)),x)); intOf[e]=r; return rr; }
    case FTRUNC: { Z3_ast r=trunc(Rr(e->k0)); intOf[e]=r; return Z3_mk_int2real(C,r); }
    case ITE: return Z3_mk_ite(C,B(e->k0),Rr(e->k1),Rr(e->k2));
    default: return opaque(e); } }
  // a double of which only the range is known
  Z3_ast opaque(Expr* e){ double l,h; if(!frange(e,l,h)) throw Unsupported(); Z3_ast r=mkfresh(R); side.push_back(le(realConst(l),r)); side.push_back(le(r,realConst(h))); return r; }
};
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void setTimeout_(Z3_solver s, unsigned ms){ Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),ms); Z3_solver_set_params(C,s,p); Z3_params_dec_ref(C,p); }

static Res solveBV(const std::vector<Expr*>& cs, std::vector<std::pair<u32,u64>>& out, unsigned tmo, bool quick=false){
  Z3_solver s=quick?SMS:BVS; Z3_solver_reset(C,s); 
  static unsigned last[2]={0,0}; if(last[quick]!=tmo){ setTimeout_(s,tmo); last[quick]=tmo; }
  std::vector<u32> vars; for(auto c:cs){ Z3_solver_assert(C,s,lowB(c)); collectVars(c,vars); }
  std::sort(vars.begin(),vars.end()); vars.erase(std::unique(vars.begin(),vars.end()),vars.end());
  for(u32 v:vars){ auto&vi=g_vars[v]; if(vi.sgn){ if((i64)sextw(vi.lo,vi.w)>(vi.w==64?INT64_MIN:-(i64)(1ull<<(vi.w-1)))) Z3_solver_assert(C,s,Z3_mk_bvsge(C,var(v,vi.w),Z3_mk_unsigned_int64(C,vi.lo,bvs(vi.w)))); if(vi.hi!=(maskw(vi.w)>>1)) Z3_solver_assert(C,s,Z3_mk_bvsle(C,var(v,vi.w),Z3_mk_unsigned_int64(C,vi.hi,bvs(vi.w)))); }
    else { if(vi.lo) Z3_solver_assert(C,s,Z3_mk_bvuge(C,var(v,vi.w),Z3_mk_unsigned_int64(C,vi.lo,bvs(vi.w)))); if(vi.hi!=maskw(vi.w)) Z3_solver_assert(C,s,Z3_mk_bvule(C,var(v,vi.w),Z3_mk_unsigned_int64(C,vi.hi,bvs(vi.w)))); } }
  for(auto c:sideConds) Z3_solver_assert(C,s,c);
  Z3_lbool r=Z3_solver_check(C,s);
  if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(C,s); Z3_model_inc_ref(C,m); for(u32 v:vars){ Z3_ast val; uint64_t x=0; if(Z3_model_eval(C,m,var(v,g_vars[v].w),true,&val)) Z3_get_numeral_uint64(C,val,&x); out.push_back({v,x}); } Z3_model_dec_ref(C,m); return SAT; }
  if(r==Z3_L_FALSE) return UNSAT;
  return UNKNOWN; }
static bool checkModel(const std::vector<Expr*>& cs, const std::vector<std::pair<u32,u64>>& m){ std::vector<u64> M(g_vars.size()); for(size_t i=0;i<M.size();i++) M[i]=g_vars[i].lo; for(auto&p:m) M[p.first]=p.second; u32 ep=newEpoch(); for(auto c:cs) if(!evalExpr(c,M,ep)) return false; return true; }
static Res solveReal(int mode, const std::vector<Expr*>& cs, std::vector<std::pair<u32,u64>>& out, unsigned tmo){
  try{ IntLower L(mode); std::vector<Z3_ast> as; for(auto c:cs) as.push_back(L.B(c));
    std::vector<u32> vars; for(auto c:cs) collectVars(c,vars); std::sort(vars.begin(),vars.end()); vars.erase(std::unique(vars.begin(),vars.end()),vars.end());
    Z3_solver s=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,s); setTimeout_(s,tmo);
    for(auto a:as) Z3_solver_assert(C,s,a); for(auto a:L.side) Z3_solver_assert(C,s,a);
    if(getenv("OSYM_DUMPREAL")) fprintf(stderr,"%s\n",Z3_solver_to_string(C,s));
    Z3_lbool r=Z3_solver_check(C,s); Res res=UNKNOWN;
    if(r==Z3_L_FALSE) res=UNSAT;
    else if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(C,s); Z3_model_inc_ref(C,m); for(u32 v:vars){ auto it=L.iv.find(v); if(it==L.iv.end()) { out.push_back({v,g_vars[v].lo}); continue; } Z3_ast val; i64 x=0; if(Z3_model_eval(C,m,it->second,true,&val)) Z3_get_numeral_int64(C,val,(int64_t*)&x); out.push_back({v,(u64)x&maskw(g_vars[v].w)}); }
      Z3_model_dec_ref(C,m); if(checkModel(cs,out)) res=SAT; else { out.clear(); res=UNKNOWN; } }
    Z3_solver_dec_ref(C,s); return res;
  } catch(Unsupported&){ if(getenv("OSYM_DEBUG")) fprintf(stderr,"real relaxation unsupported\n"); return UNKNOWN; } }

// cheap search for a witness (every witness is checked by evaluation, so this only ever yields SAT)
static Res sampleFP(const std::vector<Expr*>& cs, std::vector<std::pair<u32,u64>>& out){ std::vector<u32> vars; for(auto c:cs) collectVars(c,vars); std::sort(vars.begin(),vars.end()); vars.erase(std::unique(vars.begin(),vars.end()),vars.end()); u64 r=88172645463325252ull; auto rnd=[&]{ r^=r<<13; r^=r>>7; r^=r<<17; return r; };
  for(int it=0;it<3000;it++){ out.clear(); for(u32 v:vars){ auto&vi=g_vars[v]; u64 span=vi.sgn?(u64)(sextw(vi.hi,vi.w)-sextw(vi.lo,vi.w)):vi.hi-vi.lo; u64 k; switch(rnd()%4){ case 0: k=rnd()%8; break; case 1: k=rnd()%8; k=span-(k<span?k:span); break; case 2: k=rnd()%(1ull<<(rnd()%63)); break; default: k=rnd(); } u64 x; if(span==~0ull) x=k; else { if((rnd()&3)==0&&vi.sgn&&sextw(vi.lo,vi.w)<0) { x=(u64)(0-sextw(vi.lo,vi.w))+ (i64)(k%1000)-500; x%=span+1; x=vi.lo+x; } else x=vi.lo+k%(span+1); } out.push_back({v,x&maskw(vi.w)}); }
    if(checkModel(cs,out)) return SAT; }
  out.clear(); return UNKNOWN; }
// Queries that only compare sums of variables are decided faster over the integers (exact: wrap-around is modelled).
static bool cmpOnly(Expr* e, bool& hard, int& budget, u32 ep){ if(e->op==CONST||e->mark==ep) return true; e->mark=ep; e->memo=0; if(--budget<0) return false;
  switch(e->op){ case VAR: return true;
  case EQ: case ULT: case ULE: case SLT: case SLE: if(e->k0->w>=16&&!isC(e->k0)&&!isC(e->k1)) hard=true; return cmpOnly(e->k0,hard,budget,ep)&&cmpOnly(e->k1,hard,budget,ep);
  case AND: case OR: case XOR: if(e->w!=1) return false; return cmpOnly(e->k0,hard,budget,ep)&&cmpOnly(e->k1,hard,budget,ep);
  case ADD: case SUB: return cmpOnly(e->k0,hard,budget,ep)&&cmpOnly(e->k1,hard,budget,ep);
  case ITE: return cmpOnly(e->k0,hard,budget,ep)&&cmpOnly(e->k1,hard,budget,ep)&&cmpOnly(e->k2,hard,budget,ep);
  case ZEXT: case SEXT: return cmpOnly(e->k0,hard,budget,ep);
  default: return false; } }
// queries with division (or products of variables) go to the integers first as well
static bool divIn(Expr* e,int& budget,u32 ep){ if(e->op==CONST||e->op==VAR||e->mark==ep) return false; e->mark=ep; e->memo=0; if(--budget<0) return false; if((e->op==SDIV||e->op==UDIV||e->op==SREM||e->op==UREM)&&e->w>=32) return true; if(e->op==MUL&&e->w>=32&&!isC(e->k1)) return true; return (e->k0&&divIn(e->k0,budget,ep))||(e->k1&&divIn(e->k1,budget,ep))||(e->k2&&divIn(e->k2,budget,ep)); }
static bool divQuery(const std::vector<Expr*>& cs){ static int off=getenv("OSYM_NOINT")?1:0; if(off) return false; int budget=4000; u32 ep=newEpoch(); for(auto c:cs) if(divIn(c,budget,ep)) return true; return false; }
static bool orderQuery(const std::vector<Expr*>& cs){ static int off=getenv("OSYM_NOINT")?1:0; if(off) return false; bool hard=false; int budget=4000; u32 ep=newEpoch(); for(auto c:cs) if(!cmpOnly(c,hard,budget,ep)) return false; return hard; }
Res solveConj(const std::vector<Expr*>& cs, std::vector<std::pair<u32,u64>>& out, unsigned tmo){
  init(); if(!tmo) tmo=g_solverTimeoutMs; double t0=now(); g_sstats.queries++; bool fp=false; for(auto c:cs) fp|=c->hasFP;
  Res r=UNKNOWN;
  if(fp){ g_sstats.fpQueries++; r=solveReal(0,cs,out,tmo/4); if(r==UNKNOWN){ out.clear(); r=sampleFP(cs,out); } if(r==UNKNOWN){ out.clear(); r=solveReal(1,cs,out,tmo/2); } if(r==UNKNOWN) { out.clear(); r=solveBV(cs,out,tmo); if(r==SAT&&!checkModel(cs,out)){ if(getenv("OSYM_DEBUG")) fprintf(stderr,"fp model mismatch\n"); out.clear(); r=UNKNOWN; } } }
  else { if(orderQuery(cs)){ r=solveReal(0,cs,out,tmo<2000?tmo:2000); if(r==UNKNOWN) out.clear(); }
    else if(divQuery(cs)){ r=solveReal(0,cs,out,1500); if(r==UNKNOWN){ out.clear(); r=solveReal(1,cs,out,1500); } if(r==UNKNOWN) out.clear(); }
    if(r==UNKNOWN){ r=solveBV(cs,out,250,true); if(r==UNKNOWN){ out.clear(); r=solveBV(cs,out,tmo); } } if(r==SAT&&!checkModel(cs,out)){ fprintf(stderr,"MODEL MISMATCH (encoding bug)\n"); for(auto c:cs) fprintf(stderr,"  %s\n",exprStr(c,8).c_str()); abort(); } }
  double dt=now()-t0; static double slowT=getenv("OSYM_SLOW")?atof(getenv("OSYM_SLOW")):1e9; if(slowT<=0) slowT=0.3; if(dt>slowT){ std::string s="SLOW "+std::to_string(dt)+" r="+std::to_string(r)+" ord="+std::to_string(orderQuery(cs)); for(auto c:cs) s+="\n   "+exprStr(c,12); fprintf(stderr,"%s\n",s.c_str()); }
  g_sstats.secs+=dt; if(dt>g_sstats.maxSecs) g_sstats.maxSecs=dt; if(r==SAT) g_sstats.sat++; else if(r==UNSAT) g_sstats.unsat++; else g_sstats.unknown++;
  return r; }
// set up the solver once before the executor forks, so that every process inherits it
void warmSolver(){ init(); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,"warm"),bvs(64)), b=Z3_mk_const(C,Z3_mk_string_symbol(C,"warm2"),bvs(64)); for(int i=0;i<2;i++){ Z3_solver_reset(C,BVS); Z3_solver_assert(C,BVS,Z3_mk_bvult(C,Z3_mk_bvadd(C,a,b),b)); Z3_solver_assert(C,BVS,Z3_mk_bvslt(C,a,Z3_mk_unsigned_int64(C,i?(uint64_t)-9:0,bvs(64)))); Z3_solver_check(C,BVS); Z3_solver_reset(C,SMS); Z3_solver_assert(C,SMS,Z3_mk_bvult(C,Z3_mk_bvadd(C,a,b),b)); Z3_solver_check(C,SMS); } }
