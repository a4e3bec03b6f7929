// Bit-vector / IEEE-double expression DAG with hash-consing and local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FNEG, FABS, FOEQ, FOLT, FOLE, FUNO, SITOFP, UITOFP, FPTOSI, FPTOUI,
  FROUND, FFLOOR, FCEIL, FTRUNC, FRINT, FSQRT, FUNC /* uninterpreted double->double, a = id */ };

struct Expr {
  Op op; u8 w; u32 a;      // a: extract low bit / var id / func id
  u64 c;                   // constant
  Expr *k0,*k1,*k2;
  u64 hash; u32 id; bool hasFP;
  u32 mark; u64 memo;      // evaluation memo
};

struct VarInfo { std::string name; u8 w; u64 lo, hi; bool isUndef; bool sgn; };
extern std::vector<VarInfo> g_vars;

static inline u64 maskw(unsigned w){ return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline i64 sextw(u64 v, unsigned w){ return w>=64 ? (i64)v : (i64)(v<<(64-w))>>(64-w); }
static inline double asD(u64 v){ double d; memcpy(&d,&v,8); return d; }
static inline u64 asU(double d){ u64 v; memcpy(&v,&d,8); return v; }

Expr* mkConst(u64 v, unsigned w);
Expr* mkVar(unsigned id, unsigned w);
bool frange(Expr* e,double& lo,double& hi,int d=48); // bounds of a double that is never a NaN
Expr* mk1(Op op, unsigned w, Expr* a, u32 aux=0);
Expr* mk2(Op op, unsigned w, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* e, unsigned w);
Expr* mkSext(Expr* e, unsigned w);
static inline Expr* mkNot(Expr* e){ return mk2(XOR,1,e,mkConst(1,1)); }
static inline Expr* mkEq(Expr* a, Expr* b){ return mk2(EQ,1,a,b); }
static inline bool isC(Expr* e){ return e->op==CONST; }

u64 evalOp(Op op, unsigned w, unsigned kw, u64 a, u64 b, u64 c, u32 aux);
u64 evalExpr(Expr* e, const std::vector<u64>& model, u32 epoch);
u32 newEpoch();
// unsigned interval and signed interval (conservative)
void urange(Expr* e, u64& lo, u64& hi, int depth=6);
void srange(Expr* e, __int128& lo, __int128& hi, int depth=12);
void collectVars(Expr* e, std::vector<u32>& out);
std::string exprStr(Expr* e, int depth=6);
double callFunc(u32 id, double x);
u32 funcId(const std::string& name);
const char* funcName(u32 id);
