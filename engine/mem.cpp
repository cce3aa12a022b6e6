#include "mem.h"
#include <sys/mman.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
#include <algorithm>
std::vector<Obj> g_heap; std::map<u64,Obj> g_big; u64 g_liveBlocks=0; i64 g_failAlloc=-1; u64 g_allocSeq=0; u8 g_bloom[1<<16]; u64 g_symBytes=0;
static u64 bump=ARENA+64, bigbump=BIGB; static u8* SH=(u8*)SHADOWB;
void memInit(){
  void*a=mmap((void*)ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  void*b=mmap((void*)SHADOWB,ARENA_SZ/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(a!=(void*)ARENA||b!=(void*)SHADOWB){ perror("mmap arena"); _Exit(71); }
  g_heap.reserve(1<<16);
}
static void mark(u64 a,u64 n,bool valid){ u64 s=(a-ARENA)>>3,full=n>>3; memset(SH+s,valid?8:0,full); if(n&7) SH[s+full]= valid? (n&7):0; }
void stackMark(u64 a,u64 n,bool v){ mark(a,n,v); }
bool shadowOk(u64 a,u64 n){ // a inside the arena
  u64 s=(a-ARENA)>>3; u64 off=a&7; 
  if(off+n<=8) return SH[s]>=off+n;
  if(SH[s]<8) return false; n-=8-off; s++;
  while(n>=8){ if(SH[s]<8) return false; n-=8; s++; } return n==0||SH[s]>=n; }
u64 heapAlloc(u64 size,bool zero,Expr*ssize,u64 cap){
  g_allocSeq++;
  if(g_failAlloc>=0){ if(g_failAlloc==0){ g_failAlloc=-1; return 0; } g_failAlloc--; }
  if(ssize||size>=(1u<<20)){
    u64 c=ssize?cap:size; u64 len=(c+8192+4095)&~4095ULL; if(bigbump+len>BIGE||c>(1ULL<<40)) return 0; u64 at=bigbump+4096;
    if(mmap((void*)bigbump,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=(void*)bigbump) return 0; madvise((void*)bigbump,len,MADV_DONTDUMP);
    bigbump+=len; g_big[at]=Obj{at,c,ssize,true,true,false,(u32)g_allocSeq,new BigX()}; g_liveBlocks++; return at; }
  u64 p=bump+16; bump=p+((size+15)&~15ULL)+16; if(bump>ARENA+HEAP_SZ) return 0;
  mark(p,size,true); g_heap.push_back(Obj{p,size,nullptr,true,false,false,(u32)g_allocSeq}); g_liveBlocks++;
  if(!zero&&size<=65536) memset((void*)p,0xA5,size);
  return p; }
Obj* findHeap(u64 a){
  if(a>=BIGB&&a<BIGE){ auto it=g_big.upper_bound(a+4096); if(it==g_big.begin()) return nullptr; --it; if(it->first<=a+4096) return &it->second; return nullptr; }
  if(a<ARENA||a>=ARENA+HEAP_SZ||g_heap.empty()) return nullptr;
  auto it=std::upper_bound(g_heap.begin(),g_heap.end(),a+16,[](u64 x,const Obj&o){return x<o.base;}); if(it==g_heap.begin()) return nullptr; --it; return &*it; }
int heapFree(u64 p){ if(!p) return 0; Obj*o=findHeap(p); if(!o||o->base!=p) return 1; if(!o->alive) return 2; o->alive=false; g_liveBlocks--; if(!o->big) mark(p,o->size,false); return 0; }
struct Page{ SymByte b[256]; u32 n; };
static std::unordered_map<u64,Page*> pages;
SymByte* symAt(u64 a,bool create){ auto it=pages.find(a>>8); if(it==pages.end()){ if(!create) return nullptr; Page*p=(Page*)calloc(1,sizeof(Page)); pages[a>>8]=p; g_bloom[bloomIdx(a)]=1; return &p->b[a&255]; } return &it->second->b[a&255]; }
bool rangeHasSym(u64 a,u64 n){ u64 e=a+n; while(a<e){ u64 pe=std::min(e,(a|255)+1); if(g_bloom[bloomIdx(a)]){ auto it=pages.find(a>>8); if(it!=pages.end()) for(u64 x=a;x<pe;x++) if(it->second->b[x&255].e) return true; } a=pe; } return false; }
void clearSym(u64 a,u64 n){ u64 e=a+n; while(a<e){ u64 pe=std::min(e,(a|255)+1); if(g_bloom[bloomIdx(a)]){ auto it=pages.find(a>>8); if(it!=pages.end()) for(u64 x=a;x<pe;x++) it->second->b[x&255].e=nullptr; } a=pe; } }
