// Native flat memory shared by interpreted and natively executed code: an allocator with object
// bounds, a validity table for every access, and a shadow holding the symbolic bytes.
#pragma once
#include "expr.h"
#include <map>
static const u64 ARENA=0x100000000000ULL, ARENA_SZ=10ULL<<30, HEAP_SZ=9ULL<<30, STACKB=ARENA+HEAP_SZ, STACK_SZ=1ULL<<30;
static const u64 SHADOWB=0x0f0000000000ULL, BIGB=0x180000000000ULL, BIGE=0x1f0000000000ULL;
struct BigX { std::vector<std::pair<u64,u64>> dirty; bool dense=false; struct W{ Expr*off; unsigned n; Expr*v; }; std::vector<W> log; }; // writes into a large block: touched ranges, stores at symbolic offsets
struct Obj { u64 base, size; Expr* ssize; bool alive, big, freedOk; u32 seq; BigX*x=nullptr; };
void memInit();
extern std::vector<Obj> g_heap; extern std::map<u64,Obj> g_big; extern u64 g_liveBlocks; extern i64 g_failAlloc; extern u64 g_allocSeq;
u64 heapAlloc(u64 size,bool zero,Expr*ssize=nullptr,u64 cap=0);
int heapFree(u64 p);      // 0 ok, 1 bad pointer, 2 double free
Obj* findHeap(u64 a);     // object whose extent (including its red zone) contains a
bool shadowOk(u64 a,u64 n);
void stackMark(u64 a,u64 n,bool valid);
struct SymByte { Expr*e; u8 i; };
extern u8 g_bloom[1<<16]; extern u64 g_symBytes;
static inline u32 bloomIdx(u64 a){ return (u32)((a>>8)*0x9E3779B1u>>16)&0xffff; }
SymByte* symAt(u64 a,bool create);
static inline bool maySym(u64 a,u64 n){ return g_bloom[bloomIdx(a)]||(((a^(a+n-1))>>8)&&g_bloom[bloomIdx(a+n-1)]); }
bool rangeHasSym(u64 a,u64 n);
void clearSym(u64 a,u64 n);
