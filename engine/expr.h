// Bit-vector expression DAG used by the symbolic executor: hash-consed, simplified on construction,
// evaluated under concrete assignments, and translated to Z3 or SMT-LIB for the deciding queries.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64; typedef int32_t i32;
enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_AND, E_OR, E_XOR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FLT, E_FLE, E_FEQ, E_FNAN, E_FTOSI, E_FTOUI, E_SITOF, E_UITOF, E_FEXT, E_FTRUNC, E_FSQRT, E_FRINT };
struct Expr {
  EOp op; u8 w; bool fp; u32 id;
  u64 k;              // constant value, variable index, extract offset, source float width
  Expr *a, *b, *c;
  u64 vars;           // 64-bit bloom mask of the variables below
  u64 umin, umax;     // unsigned interval
  u32 hash; Expr* next;
  u32 size;
};
struct Var { std::string name; u8 w; };
extern std::vector<Var> g_vars;
static inline u64 maskw(unsigned w){ return w>=64? ~0ULL : ((1ULL<<w)-1); }
static inline i64 sx(u64 v,unsigned w){ return w>=64? (i64)v : (i64)(v<<(64-w))>>(64-w); }
Expr* mkConst(u64 v,unsigned w);
Expr* mkVar(const std::string& name,unsigned w);
Expr* mkBin(EOp op,Expr*a,Expr*b);
Expr* mkIte(Expr*c,Expr*a,Expr*b);
Expr* mkZext(Expr*a,unsigned w);
Expr* mkSext(Expr*a,unsigned w);
Expr* mkExtract(Expr*a,unsigned lo,unsigned w);
Expr* mkConcat(Expr*hi,Expr*lo);
Expr* mkNot(Expr*a);              // 1-bit negation
Expr* mkCmp(EOp op,Expr*a,Expr*b);
Expr* mkF(EOp op,Expr*a,Expr*b,unsigned w,u64 k=0);
static inline bool isC(const Expr*e){ return e->op==E_CONST; }
u64 foldBin(EOp op,u64 a,u64 b,unsigned w);
u64 foldF(EOp op,u64 a,u64 b,unsigned w,unsigned aw,u64 k);
struct Model { std::vector<u64> v; };
u64 evalExpr(Expr*e,const Model&m);
void evalReset();                 // forget the memo (call when the model changes)
unsigned trailingZeros(Expr*e);   // number of low bits known to be zero
std::string toSmt(const std::vector<Expr*>& asserts);
u64 exprCount();
