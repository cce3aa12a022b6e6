#include "expr.h"
#include <cstring>
#include <cmath>
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
std::vector<Var> g_vars;
static Expr** tab=nullptr; static u32 tabSize=0, count=0;
static std::vector<Expr*> all;
u64 exprCount(){return count;}
static char* pool=nullptr; static size_t poolLeft=0;
static Expr* allocE(){ if(poolLeft<sizeof(Expr)){ poolLeft=1<<18; pool=(char*)malloc(poolLeft);} Expr*e=(Expr*)pool; pool+=sizeof(Expr); poolLeft-=sizeof(Expr); return e; }
static u32 hsh(EOp op,u8 w,u64 k,Expr*a,Expr*b,Expr*c){
  u64 h=op*0x9E3779B97F4A7C15ULL ^ w*0xC2B2AE3D27D4EB4FULL ^ k*0x165667B19E3779F9ULL;
  h^=(u64)(a?a->id+1:0)*0xff51afd7ed558ccdULL; h=(h<<13)|(h>>51); h^=(u64)(b?b->id+1:0)*0xc4ceb9fe1a85ec53ULL; h=(h<<17)|(h>>47); h^=(u64)(c?c->id+1:0)*0x87c37b91114253d5ULL;
  h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; return (u32)h; }
static void rehash(){ u32 ns=tabSize? tabSize*2: 1<<14; Expr**nt=(Expr**)calloc(ns,sizeof(Expr*)); for(u32 i=0;i<tabSize;i++){ Expr*e=tab[i]; while(e){Expr*n=e->next; u32 s=e->hash&(ns-1); e->next=nt[s]; nt[s]=e; e=n;} } free(tab); tab=nt; tabSize=ns; }
static void interval(Expr*e){
  u64 m=maskw(e->w); e->umin=0; e->umax=m;
  Expr*a=e->a,*b=e->b,*c=e->c;
  switch(e->op){
    case E_CONST: e->umin=e->umax=e->k; break;
    case E_ZEXT: e->umin=a->umin; e->umax=a->umax; break;
    case E_SEXT: if(a->umax<=(m?maskw(a->w-1):0)){e->umin=a->umin;e->umax=a->umax;} break;
    case E_EXTRACT: if(e->k==0 && a->umax<=m){e->umin=a->umin;e->umax=a->umax;} else if(e->k && (a->umax>>e->k)<=m){e->umin=a->umin>>e->k;e->umax=a->umax>>e->k;} break;
    case E_CONCAT: { e->umin=(a->umin<<b->w)|b->umin; e->umax=(a->umax<<b->w)|b->umax; if(a->umin!=a->umax){ e->umin=(a->umin<<b->w); e->umax=(a->umax<<b->w)|maskw(b->w);} break; }
    case E_AND: e->umax=std::min(a->umax,b->umax); break;
    case E_OR: e->umin=std::max(a->umin,b->umin); { u64 x=a->umax|b->umax; if(x){ int hb=63-__builtin_clzll(x); e->umax=std::min(m,maskw(hb+1)); } else e->umax=0; } break;
    case E_XOR: { u64 x=a->umax|b->umax; if(x){ int hb=63-__builtin_clzll(x); e->umax=std::min(m,maskw(hb+1)); } else e->umax=0; } break;
    case E_ADD: { u64 hi; if(!__builtin_add_overflow(a->umax,b->umax,&hi) && hi<=m){ e->umin=a->umin+b->umin; e->umax=hi; } else { // both overflow?
        unsigned __int128 lo=(unsigned __int128)a->umin+b->umin, h2=(unsigned __int128)a->umax+b->umax, M=(unsigned __int128)m+1; if(lo>=M){ e->umin=(u64)(lo-M); e->umax=(u64)(h2-M);} } break; }
    case E_SUB: if(a->umin>=b->umax){ e->umin=a->umin-b->umax; e->umax=a->umax-b->umin; } break;
    case E_MUL: { unsigned __int128 p=(unsigned __int128)a->umax*b->umax; if(p<=m){ e->umin=a->umin*b->umin; e->umax=(u64)p; } break; }
    case E_UDIV: if(b->umin>0){ e->umin=a->umin/b->umax; e->umax=a->umax/b->umin; } break;
    case E_UREM: if(b->umin>0){ e->umax=std::min(a->umax,b->umax-1); if(a->umax<b->umin) e->umin=a->umin; } break;
    case E_LSHR: if(isC(b)&&b->k<e->w){ e->umin=a->umin>>b->k; e->umax=a->umax>>b->k; } else e->umax=a->umax; break;
    case E_ITE: e->umin=std::min(b->umin,c->umin); e->umax=std::max(b->umax,c->umax); break;
    default: break;
  }
}
static Expr* intern(EOp op,u8 w,u64 k,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr){
  if(count*2>=tabSize) rehash();
  u32 h=hsh(op,w,k,a,b,c); u32 s=h&(tabSize-1);
  for(Expr*e=tab[s];e;e=e->next) if(e->hash==h&&e->op==op&&e->w==w&&e->k==k&&e->a==a&&e->b==b&&e->c==c) return (e->umin==e->umax&&op!=E_CONST)? mkConst(e->umin,w): e;
  Expr*e=allocE(); e->op=op;e->w=w;e->k=k;e->a=a;e->b=b;e->c=c;e->hash=h;e->id=count++;e->next=tab[s];tab[s]=e;
  e->vars= op==E_VAR? 1ULL<<(k&63) : 0; e->fp= op>=E_FADD; e->size=1;
  for(Expr*x:{a,b,c}) if(x){ e->vars|=x->vars; e->fp|=x->fp; if(e->size<1000000) e->size+=x->size; }
  interval(e); all.push_back(e);
  if(e->umin==e->umax && op!=E_CONST) return mkConst(e->umin,w);
  return e;
}
Expr* mkConst(u64 v,unsigned w){ return intern(E_CONST,w,v&maskw(w)); }
Expr* mkVar(const std::string&n,unsigned w){ g_vars.push_back({n,(u8)w}); return intern(E_VAR,w,g_vars.size()-1); }
u64 foldBin(EOp op,u64 a,u64 b,unsigned w){
  u64 m=maskw(w); a&=m;b&=m;
  switch(op){
    case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
    case E_UDIV: return b? a/b : m; case E_UREM: return b? a%b : a;
    case E_SDIV: { if(!b) return sx(a,w)<0?1:m; i64 x=sx(a,w),y=sx(b,w); if(y==-1) return (0-(u64)x)&m; return (u64)(x/y)&m; }
    case E_SREM: { if(!b) return a; i64 x=sx(a,w),y=sx(b,w); if(y==-1) return 0; return (u64)(x%y)&m; }
    case E_SHL: return b>=w?0:(a<<b)&m; case E_LSHR: return b>=w?0:a>>b;
    case E_ASHR: return (u64)(sx(a,w)>>(b>=w? w-1: b))&m;
    case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
    case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b; case E_SLT: return sx(a,w)<sx(b,w); case E_SLE: return sx(a,w)<=sx(b,w);
    default: abort();
  }
}
static float bf(u64 v){ u32 x=(u32)v; float f; memcpy(&f,&x,4); return f; } static double bd(u64 v){ double d; memcpy(&d,&v,8); return d; }
static u64 fb(float f){ u32 x; memcpy(&x,&f,4); return x; } static u64 db(double d){ u64 x; memcpy(&x,&d,8); return x; }
// aw: width of a; k: for conversions from integers the source width
u64 foldF(EOp op,u64 a,u64 b,unsigned w,unsigned aw,u64 k){
  volatile float fa,fb_; volatile double da,db_;
  switch(op){
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV:
      if(w==32){ fa=bf(a);fb_=bf(b); float r= op==E_FADD? fa+fb_: op==E_FSUB? fa-fb_: op==E_FMUL? fa*fb_: fa/fb_; return fb(r);} 
      else { da=bd(a);db_=bd(b); double r= op==E_FADD? da+db_: op==E_FSUB? da-db_: op==E_FMUL? da*db_: da/db_; return db(r);} 
    case E_FLT: return aw==32? bf(a)<bf(b): bd(a)<bd(b);
    case E_FLE: return aw==32? bf(a)<=bf(b): bd(a)<=bd(b);
    case E_FEQ: return aw==32? bf(a)==bf(b): bd(a)==bd(b);
    case E_FNAN: return aw==32? std::isnan(bf(a)): std::isnan(bd(a));
    // out of range: the x86 conversion result (only the high bit set), narrow types through 32 bits
    case E_FTOSI: { double d= aw==32? (double)bf(a): bd(a); if(w==64){ if(d>=-9223372036854775808.0&&d<9223372036854775808.0) return (u64)(i64)d; return 1ULL<<63; }
                    if(d>-2147483649.0&&d<2147483648.0) return (u64)(i64)d&maskw(w); return 0x80000000ULL&maskw(w); }
    case E_FTOUI: { double d= aw==32? (double)bf(a): bd(a); if(w==64){ if(d>-1.0&&d<18446744073709551616.0) return (u64)d; return 1ULL<<63; } if(d>-1.0&&d<4294967296.0) return (u64)d&maskw(w); return 0; }
    case E_SITOF: { i64 x=sx(a,aw); return w==32? fb((float)x): db((double)x); }
    case E_UITOF: { u64 x=a&maskw(aw); return w==32? fb((float)x): db((double)x); }
    case E_FEXT: return db((double)bf(a)); case E_FTRUNC: return fb((float)bd(a));
    case E_FSQRT: return w==32? fb(sqrtf(bf(a))): db(sqrt(bd(a)));
    case E_FRINT: { if(w==32){ float f=bf(a); return fb(k==0? floorf(f): k==1? ceilf(f): k==2? truncf(f): rintf(f)); } double d=bd(a); return db(k==0? floor(d): k==1? ceil(d): k==2? trunc(d): rint(d)); }
    default: abort();
  }
}
unsigned trailingZeros(Expr*e){
  switch(e->op){
    case E_CONST: return e->k? __builtin_ctzll(e->k): e->w;
    case E_CONCAT: { unsigned t=trailingZeros(e->b); return t<e->b->w? t: e->b->w+trailingZeros(e->a); }
    case E_ZEXT: case E_SEXT: { unsigned t=trailingZeros(e->a); return t<e->a->w? t: e->w; }
    case E_ADD: case E_SUB: case E_OR: case E_XOR: return std::min(trailingZeros(e->a),trailingZeros(e->b));
    case E_AND: return std::max(trailingZeros(e->a),trailingZeros(e->b));
    case E_MUL: return std::min<unsigned>(e->w,trailingZeros(e->a)+trailingZeros(e->b));
    case E_SHL: if(isC(e->b)) return std::min<u64>(e->w,trailingZeros(e->a)+e->b->k); return trailingZeros(e->a);
    case E_ITE: return std::min(trailingZeros(e->b),trailingZeros(e->c));
    default: return 0;
  }
}
Expr* mkNot(Expr*a){ 
  if(isC(a)) return mkConst(!a->k,1);
  if(a->op==E_XOR&&isC(a->b)&&a->b->k==1) return a->a;
  if(a->op==E_ULT) return mkCmp(E_ULE,a->b,a->a); if(a->op==E_ULE) return mkCmp(E_ULT,a->b,a->a);
  if(a->op==E_SLT) return mkCmp(E_SLE,a->b,a->a); if(a->op==E_SLE) return mkCmp(E_SLT,a->b,a->a);
  return intern(E_XOR,1,0,a,mkConst(1,1)); }
// decompose into non-overlapping segments (low first); a null expr is a run of zero bits
struct Seg{ Expr*e; unsigned w; };
static bool segs(Expr*e,std::vector<Seg>&o,int depth=0){
  if(depth>20) return false;
  if(isC(e)){ // split constants into zero and nonzero byte runs
    unsigned i=0; while(i<e->w){ unsigned n=std::min(8u,e->w-i); u64 v=(e->k>>i)&maskw(n); if(!o.empty()&&!v&&!o.back().e) o.back().w+=n; else o.push_back({v?mkConst(v,n):nullptr,n}); i+=n; } return true; }
  if(e->op==E_CONCAT) return segs(e->b,o,depth+1)&&segs(e->a,o,depth+1);
  if(e->op==E_ZEXT){ if(!segs(e->a,o,depth+1)) return false; o.push_back({nullptr,(unsigned)(e->w-e->a->w)}); return true; }
  o.push_back({e,e->w}); return true; }
static Expr* tryDisjointOr(Expr*a,Expr*b){
  if(!(a->op==E_CONCAT||a->op==E_ZEXT)&&!(b->op==E_CONCAT||b->op==E_ZEXT)) return nullptr;
  std::vector<Seg> A,B; if(!segs(a,A)||!segs(b,B)) return nullptr; if(A.size()+B.size()>40) return nullptr;
  std::vector<Expr*> out; size_t i=0,j=0; unsigned oa=0,ob=0;
  while(i<A.size()&&j<B.size()){
    unsigned n=std::min(A[i].w-oa,B[j].w-ob); if(A[i].e&&B[j].e) return nullptr;
    Expr*x= A[i].e? mkExtract(A[i].e,oa,n): B[j].e? mkExtract(B[j].e,ob,n): mkConst(0,n);
    out.push_back(x); oa+=n; ob+=n; if(oa==A[i].w){i++;oa=0;} if(ob==B[j].w){j++;ob=0;}
  }
  Expr*r=out[0]; for(size_t q=1;q<out.size();q++) r=mkConcat(out[q],r); return r; }
static bool comm(EOp op){ return op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ; }
static bool isBoolIte(Expr*e,Expr*&c,u64&t,u64&f){ if(e->op==E_ITE&&isC(e->b)&&isC(e->c)){c=e->a;t=e->b->k;f=e->c->k;return true;} if(e->op==E_ZEXT&&e->a->w==1){c=e->a;t=1;f=0;return true;} if(e->op==E_SEXT&&e->a->w==1){c=e->a;t=maskw(e->w);f=0;return true;} return false; }
Expr* mkCmp(EOp op,Expr*a,Expr*b){
  assert(a->w==b->w);
  unsigned w=a->w;
  if(isC(a)&&isC(b)) return mkConst(foldBin(op,a->k,b->k,w),1);
  if(a==b) return mkConst(op==E_EQ||op==E_ULE||op==E_SLE,1);
  if(op==E_SLT||op==E_SLE){ u64 half=1ULL<<(w-1); if(a->umax<half&&b->umax<half) op= op==E_SLT?E_ULT:E_ULE; else if(a->umin>=half&&b->umin>=half) op= op==E_SLT?E_ULT:E_ULE;
    else if(a->umin>=half&&b->umax<half) return mkConst(1,1); else if(a->umax<half&&b->umin>=half) return mkConst(0,1); }
  if(op==E_ULT){ if(a->umax<b->umin) return mkConst(1,1); if(a->umin>=b->umax) return mkConst(0,1); }
  if(op==E_ULE){ if(a->umax<=b->umin) return mkConst(1,1); if(a->umin>b->umax) return mkConst(0,1); }
  if(op==E_EQ){ if(a->umax<b->umin||b->umax<a->umin) return mkConst(0,1); }
  Expr*c;u64 t,f;
  if(isC(b)&&isBoolIte(a,c,t,f)){ bool x=foldBin(op,t,b->k,w),y=foldBin(op,f,b->k,w); return x&&y? mkConst(1,1): x? c: y? mkNot(c): mkConst(0,1); }
  if(isC(a)&&isBoolIte(b,c,t,f)){ bool x=foldBin(op,a->k,t,w),y=foldBin(op,a->k,f,w); return x&&y? mkConst(1,1): x? c: y? mkNot(c): mkConst(0,1); }
  // ITE chains of constants against a constant: push inside when one side decides
  if(isC(b)&&a->op==E_ITE&&(isC(a->b)||isC(a->c))&&a->size<4000){ return mkIte(a->a,mkCmp(op,a->b,b),mkCmp(op,a->c,b)); }
  if(op==E_EQ){
    if(isC(a)) std::swap(a,b); else if(!isC(b)&&a->id>b->id) std::swap(a,b);
    if(w==1&&isC(b)) return b->k? a: mkNot(a);
    if(isC(b)){
      if(a->op==E_ZEXT){ if(b->k>maskw(a->a->w)) return mkConst(0,1); return mkCmp(E_EQ,a->a,mkConst(b->k,a->a->w)); }
      if(a->op==E_SEXT){ u64 lo=b->k&maskw(a->a->w); if(((u64)sx(lo,a->a->w)&maskw(w))!=b->k) return mkConst(0,1); return mkCmp(E_EQ,a->a,mkConst(lo,a->a->w)); }
      if(a->op==E_ADD&&isC(a->b)) return mkCmp(E_EQ,a->a,mkConst(b->k-a->b->k,w));
      if(a->op==E_SUB&&isC(a->a)) return mkCmp(E_EQ,a->b,mkConst(a->a->k-b->k,w));
      if(a->op==E_SUB&&b->k==0) return mkCmp(E_EQ,a->a,a->b);
      if(a->op==E_XOR&&isC(a->b)) return mkCmp(E_EQ,a->a,mkConst(b->k^a->b->k,w));
      if(a->op==E_XOR&&b->k==0) return mkCmp(E_EQ,a->a,a->b);
      if(a->op==E_CONCAT&&a->size<200){ Expr*h=mkCmp(E_EQ,a->a,mkConst(b->k>>a->b->w,a->a->w)); if(isC(h)&&!h->k) return h; Expr*l=mkCmp(E_EQ,a->b,mkConst(b->k,a->b->w)); return mkBin(E_AND,h,l); }
      if(a->op==E_OR&&b->k==0) return mkBin(E_AND,mkCmp(E_EQ,a->a,mkConst(0,w)),mkCmp(E_EQ,a->b,mkConst(0,w)));
    } else {
      if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkCmp(E_EQ,a->a,b->a);
      if(a->op==E_ZEXT&&!isC(b)&&b->op!=E_ZEXT&&b->umax<=maskw(a->a->w)) return mkCmp(E_EQ,a->a,mkExtract(b,0,a->a->w));
      if(b->op==E_ZEXT&&!isC(a)&&a->op!=E_ZEXT&&a->umax<=maskw(b->a->w)) return mkCmp(E_EQ,b->a,mkExtract(a,0,b->a->w));
      if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mkCmp(E_EQ,a->a,b->a);
      if(a->op==E_ADD&&b->op==E_ADD&&a->b==b->b) return mkCmp(E_EQ,a->a,b->a);
      if(a->op==E_ADD&&b->op==E_ADD&&a->a==b->a) return mkCmp(E_EQ,a->b,b->b);
    }
  } else if(op==E_ULT||op==E_ULE){
    if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkCmp(op,a->a,b->a);
    if(a->op==E_ZEXT&&isC(b)&&b->k<=maskw(a->a->w)) return mkCmp(op,a->a,mkConst(b->k,a->a->w));
    if(b->op==E_ZEXT&&isC(a)&&a->k<=maskw(b->a->w)) return mkCmp(op,mkConst(a->k,b->a->w),b->a);
    // canonical: only ULT against constants
    if(op==E_ULE&&isC(b)) return mkCmp(E_ULT,a,mkConst(b->k+1,w));   // b != max, else umax<=umin above
    if(op==E_ULE&&isC(a)&&a->k>0) return mkCmp(E_ULT,mkConst(a->k-1,w),b);
    if(op==E_ULT&&isC(b)&&b->k==1) return mkCmp(E_EQ,a,mkConst(0,w));
    if(op==E_ULT&&isC(a)&&a->k==0) return mkNot(mkCmp(E_EQ,b,a));
    if(w==1) return op==E_ULT? mkBin(E_AND,mkNot(a),b): mkBin(E_OR,mkNot(a),b);
  } else {
    if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mkCmp(op,a->a,b->a);
    if(a->op==E_SEXT&&isC(b)){ unsigned aw=a->a->w; i64 v=sx(b->k,w); i64 mn=-(1LL<<(aw-1)),mx=(1LL<<(aw-1))-1; if(v>mx) return mkConst(1,1); if(v<mn) return mkConst(0,1); return mkCmp(op,a->a,mkConst(v,aw)); }
    if(b->op==E_SEXT&&isC(a)){ unsigned bw=b->a->w; i64 v=sx(a->k,w); i64 mn=-(1LL<<(bw-1)),mx=(1LL<<(bw-1))-1; if(v>mx) return mkConst(0,1); if(v<mn) return mkConst(1,1); return mkCmp(op,mkConst(v,bw),b->a); }
    if(op==E_SLE&&isC(b)){ if(sx(b->k,w)==sx(maskw(w)>>1,w)) return mkConst(1,1); return mkCmp(E_SLT,a,mkConst(b->k+1,w)); }
    if(op==E_SLE&&isC(a)){ if(sx(a->k,w)==sx(1ULL<<(w-1),w)) return mkConst(1,1); return mkCmp(E_SLT,mkConst(a->k-1,w),b); }
    if(op==E_SLT&&isC(b)&&b->k==(1ULL<<(w-1))) return mkConst(0,1);
    if(op==E_SLT&&isC(a)&&a->k==(maskw(w)>>1)) return mkConst(0,1);
    if(w==1){ return op==E_SLT? mkBin(E_AND,a,mkNot(b)): mkBin(E_OR,a,mkNot(b)); }
  }
  return intern(op,1,0,a,b);
}
Expr* mkBin(EOp op,Expr*a,Expr*b){
  if(op>=E_EQ&&op<=E_SLE) return mkCmp(op,a,b);
  assert(a->w==b->w); unsigned w=a->w; u64 m=maskw(w);
  if(isC(a)&&isC(b)) return mkConst(foldBin(op,a->k,b->k,w),w);
  if(comm(op)){ if(isC(a)) std::swap(a,b); else if(!isC(b)&&a->id>b->id) std::swap(a,b); }
  switch(op){
    case E_ADD: if(isC(b)){ if(!b->k) return a; if(a->op==E_ADD&&isC(a->b)) return mkBin(E_ADD,a->a,mkConst(a->b->k+b->k,w)); if(a->op==E_SUB&&isC(a->a)) return mkBin(E_SUB,mkConst(a->a->k+b->k,w),a->b);
        if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k+b->k,w),mkConst(a->c->k+b->k,w)); }
      else { if(a->op==E_ADD&&isC(a->b)) return mkBin(E_ADD,mkBin(E_ADD,a->a,b),a->b); if(b->op==E_ADD&&isC(b->b)) return mkBin(E_ADD,mkBin(E_ADD,a,b->a),b->b);
        if(a->op==E_SUB&&a->b==b) return a->a; if(b->op==E_SUB&&b->b==a) return b->a;
        if(b->op==E_SUB&&isC(b->a)&&b->a->k==0) return mkBin(E_SUB,a,b->b); if(a->op==E_SUB&&isC(a->a)&&a->a->k==0) return mkBin(E_SUB,b,a->b); }
      if(w==1) return mkBin(E_XOR,a,b);
      if(Expr*r=tryDisjointOr(a,b)) return r;
      break;
    case E_SUB: if(a==b) return mkConst(0,w); if(isC(b)) return mkBin(E_ADD,a,mkConst(0-b->k,w)); if(w==1) return mkBin(E_XOR,a,b);
      if(isC(a)&&b->op==E_SUB&&isC(b->a)) return mkBin(E_ADD,b->b,mkConst(a->k-b->a->k,w));
      if(isC(a)&&b->op==E_ADD&&isC(b->b)) return mkBin(E_SUB,mkConst(a->k-b->b->k,w),b->a);
      if(a->op==E_ADD&&a->a==b) return a->b; if(a->op==E_ADD&&a->b==b) return a->a;
      if(!isC(a)&&a->op==E_ADD&&isC(a->b)) return mkBin(E_ADD,mkBin(E_SUB,a->a,b),a->b);
      if(b->op==E_ADD&&isC(b->b)) return mkBin(E_ADD,mkBin(E_SUB,a,b->a),mkConst(0-b->b->k,w));
      break;
    case E_MUL: if(isC(b)){ if(!b->k) return b; if(b->k==1) return a; if((b->k&(b->k-1))==0) return mkBin(E_SHL,a,mkConst(__builtin_ctzll(b->k),w)); if(b->k==m) return mkBin(E_SUB,mkConst(0,w),a);
        if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k*b->k,w),mkConst(a->c->k*b->k,w)); } if(w==1) return mkBin(E_AND,a,b); break;
    case E_UDIV: if(isC(b)){ if(b->k==1) return a; if(b->k&&(b->k&(b->k-1))==0) return mkBin(E_LSHR,a,mkConst(__builtin_ctzll(b->k),w)); } 
      if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w&&b->umin>0) return mkZext(mkBin(E_UDIV,a->a,b->a),w);
      break;
    case E_UREM: if(isC(b)){ if(b->k==1) return mkConst(0,w); if(b->k&&(b->k&(b->k-1))==0) return mkBin(E_AND,a,mkConst(b->k-1,w)); } break;
    case E_SDIV: if(isC(b)&&b->k==1) return a; if(a->umax<(1ULL<<(w-1))&&b->umax<(1ULL<<(w-1))&&b->umin>0) return mkBin(E_UDIV,a,b);
       break;
    case E_SREM: if(isC(b)&&b->k==1) return mkConst(0,w); if(a->umax<(1ULL<<(w-1))&&b->umax<(1ULL<<(w-1))&&b->umin>0) return mkBin(E_UREM,a,b); break;
    case E_SHL: if(isC(a)&&!a->k) return a; if(isC(b)){ if(b->k>=w) return mkConst(0,w); if(!b->k) return a; return mkConcat(mkExtract(a,0,w-b->k),mkConst(0,b->k)); } break;
    case E_LSHR: if(isC(a)&&!a->k) return a; if(isC(b)){ if(b->k>=w) return mkConst(0,w); if(!b->k) return a; return mkZext(mkExtract(a,b->k,w-b->k),w); } break;
    case E_ASHR: if(isC(a)&&!a->k) return a; if(isC(b)){ u64 k=std::min<u64>(b->k,w-1); if(!k) return a; return mkSext(mkExtract(a,k,w-k),w); } break;
    case E_AND: if(a==b) return a; if(isC(b)){ if(!b->k) return b; if(b->k==m) return a;
        if(a->op==E_AND&&isC(a->b)) return mkBin(E_AND,a->a,mkConst(a->b->k&b->k,w));
        if(((b->k+1)&b->k)==0){ unsigned n=64-__builtin_clzll(b->k); return mkZext(mkExtract(a,0,n),w); }
        if(a->op==E_ZEXT&&b->k>maskw(a->a->w)) return mkBin(E_AND,a,mkConst(b->k&maskw(a->a->w),w));
        if(a->op==E_ZEXT) return mkZext(mkBin(E_AND,a->a,mkConst(b->k,a->a->w)),w);
        if(a->op==E_CONCAT) return mkConcat(mkBin(E_AND,a->a,mkConst(b->k>>a->b->w,a->a->w)),mkBin(E_AND,a->b,mkConst(b->k,a->b->w)));
        if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k&b->k,w),mkConst(a->c->k&b->k,w));
        { u64 t=__builtin_ctzll(b->k); u64 h=b->k>>t; if(t&&((h+1)&h)==0){ unsigned n=64-__builtin_clzll(h); Expr*x=mkConcat(mkExtract(a,t,n),mkConst(0,t)); return mkZext(x,w);} }
      }
      if(w==1){ if(a==mkNot(b)) return mkConst(0,1); }
      break;
    case E_OR: if(a==b) return a; if(isC(b)){ if(!b->k) return a; if(b->k==m) return b; if(a->op==E_OR&&isC(a->b)) return mkBin(E_OR,a->a,mkConst(a->b->k|b->k,w)); if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k|b->k,w),mkConst(a->c->k|b->k,w)); }
      if(w==1){ if(a==mkNot(b)) return mkConst(1,1); }
      else { if(Expr*r=tryDisjointOr(a,b)) return r; }
      break;
    case E_XOR: if(a==b) return mkConst(0,w); if(isC(b)){ if(!b->k) return a; if(w==1) return mkNot(a); if(a->op==E_XOR&&isC(a->b)) return mkBin(E_XOR,a->a,mkConst(a->b->k^b->k,w)); 
          if(a->op==E_ZEXT&&a->a->w==1&&b->k==1) return mkZext(mkNot(a->a),w);
          if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k^b->k,w),mkConst(a->c->k^b->k,w)); }
      if(w==1){ if(a->op==E_XOR&&isC(a->b)) return mkNot(mkBin(E_XOR,a->a,b)); if(b->op==E_XOR&&isC(b->b)) return mkNot(mkBin(E_XOR,a,b->a)); }
      else if(!isC(b)){ if(Expr*r=tryDisjointOr(a,b)) return r; }
      break;
    default: break;
  }
  return intern(op,w,0,a,b);
}
Expr* mkIte(Expr*c,Expr*a,Expr*b){
  assert(a->w==b->w&&c->w==1);
  if(isC(c)) return c->k? a: b; if(a==b) return a;
  if(c->op==E_XOR&&isC(c->b)) return mkIte(c->a,b,a);
  if(a->w==1){ if(isC(a)) return a->k? mkBin(E_OR,c,b): mkBin(E_AND,mkNot(c),b); if(isC(b)) return b->k? mkBin(E_OR,mkNot(c),a): mkBin(E_AND,c,a); if(a==c) return mkBin(E_OR,c,b); if(b==c) return mkBin(E_AND,c,a); }
  if(isC(a)&&isC(b)&&a->k==1&&b->k==0) return mkZext(c,a->w);
  if(isC(a)&&isC(b)&&a->k==0&&b->k==1) return mkZext(mkNot(c),a->w);
  if(a->op==E_ITE&&a->a==c) a=a->b; if(b->op==E_ITE&&b->a==c) b=b->c; if(a==b) return a;
  if(b->op==E_ITE&&b->b==a) return mkIte(mkBin(E_OR,c,b->a),a,b->c);
  if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkZext(mkIte(c,a->a,b->a),a->w);
  if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mkSext(mkIte(c,a->a,b->a),a->w);
  return intern(E_ITE,a->w,0,c,a,b);
}
Expr* mkZext(Expr*a,unsigned w){ if(a->w==w) return a; assert(w>a->w&&w<=64); if(isC(a)) return mkConst(a->k,w); if(a->op==E_ZEXT) return mkZext(a->a,w); if(a->op==E_ADD&&isC(a->b)&&a->w<64&&a->a->umax+a->b->k<=maskw(a->w)) return mkBin(E_ADD,mkZext(a->a,w),mkConst(a->b->k,w)); if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k,w),mkConst(a->c->k,w)); return intern(E_ZEXT,w,0,a); }
Expr* mkSext(Expr*a,unsigned w){ if(a->w==w) return a; assert(w>a->w&&w<=64); if(isC(a)) return mkConst(sx(a->k,a->w),w); if(a->op==E_SEXT) return mkSext(a->a,w); if(a->op==E_ZEXT) return mkZext(a->a,w); if(a->umax<=maskw(a->w-1)&&a->w>1) return mkZext(a,w); if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(sx(a->b->k,a->w),w),mkConst(sx(a->c->k,a->w),w)); return intern(E_SEXT,w,0,a); }
Expr* mkExtract(Expr*a,unsigned lo,unsigned w){
  assert(lo+w<=a->w);
  if(lo==0&&w==a->w) return a;
  if(isC(a)) return mkConst(a->k>>lo,w);
  switch(a->op){
    case E_EXTRACT: return mkExtract(a->a,lo+a->k,w);
    case E_ZEXT: { unsigned aw=a->a->w; if(lo>=aw) return mkConst(0,w); if(lo+w<=aw) return mkExtract(a->a,lo,w); return mkZext(mkExtract(a->a,lo,aw-lo),w); }
    case E_SEXT: { unsigned aw=a->a->w; if(lo+w<=aw) return mkExtract(a->a,lo,w); if(lo<aw) return mkSext(mkExtract(a->a,lo,aw-lo),w); return mkSext(mkExtract(a->a,aw-1,1),w); }
    case E_CONCAT: { unsigned bw=a->b->w; if(lo+w<=bw) return mkExtract(a->b,lo,w); if(lo>=bw) return mkExtract(a->a,lo-bw,w); return mkConcat(mkExtract(a->a,0,lo+w-bw),mkExtract(a->b,lo,bw-lo)); }
    case E_ITE: if((isC(a->b)||isC(a->c))||a->size<64) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w)); break;
    case E_AND: case E_OR: case E_XOR: if(isC(a->b)||a->size<32) return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w)); break;
    case E_ADD: case E_SUB: case E_MUL: if(lo==0) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
    default: break;
  }
  if(lo==0&&a->umax<=maskw(w)&&false) return nullptr;
  if((a->umax>>lo)==0) return mkConst(0,w);
  return intern(E_EXTRACT,w,lo,a);
}
Expr* mkConcat(Expr*h,Expr*l){
  unsigned w=h->w+l->w; assert(w<=64);
  if(isC(h)&&isC(l)) return mkConst((h->k<<l->w)|l->k,w);
  if(isC(h)&&h->k==0) return mkZext(l,w);
  if(h->op==E_EXTRACT&&l->op==E_EXTRACT&&h->a==l->a&&h->k==l->k+l->w) return mkExtract(h->a,l->k,w);
  if(l->op==E_CONCAT){ // right-assoc merge: h ++ (lh ++ ll): try merging h with lh
    Expr*lh=l->a; if((h->op==E_EXTRACT&&lh->op==E_EXTRACT&&h->a==lh->a&&h->k==lh->k+lh->w)||(isC(h)&&isC(lh))) return mkConcat(mkConcat(h,lh),l->b); }
  if(h->op==E_CONCAT){ return mkConcat(h->a,mkConcat(h->b,l)); }
  if(h->op==E_EXTRACT&&l->op==E_VAR&&false) return nullptr;
  // sign extension pattern is left alone
  if(h->op==E_ZEXT){ return mkZext(mkConcat(h->a,l),w); }
  if(l->op==E_ITE&&h->op==E_ITE&&l->a==h->a) return mkIte(h->a,mkConcat(h->b,l->b),mkConcat(h->c,l->c));
  return intern(E_CONCAT,w,0,h,l);
}
Expr* mkF(EOp op,Expr*a,Expr*b,unsigned w,u64 k){
  if(isC(a)&&(!b||isC(b))) return mkConst(foldF(op,a->k,b?b->k:0,w,a->w,k),w);
  if(op==E_FADD||op==E_FMUL||op==E_FEQ) if(b&&a->id>b->id) std::swap(a,b);
  if((op==E_FEQ||op==E_FLE)&&a==b) return mkNot(mkF(E_FNAN,a,nullptr,1));
  if(op==E_FLT&&a==b) return mkConst(0,1);
  if(op==E_FNAN){ if(a->op==E_SITOF||a->op==E_UITOF) return mkConst(0,1); if(a->op==E_FEXT) return mkF(E_FNAN,a->a,nullptr,1); }
  if(op==E_FTRUNC&&a->op==E_FEXT) return a->a;
  // exact integer -> double -> integer
  if(op==E_FTOSI&&a->op==E_SITOF&&a->w==64&&a->a->w<=32&&w>=a->a->w) return mkSext(a->a,w);
  return intern(op,w,k,a,b);
}
static std::vector<u64> memoV; static std::vector<u32> memoG; static u32 gen=1;
void evalReset(){ gen++; }
u64 evalExpr(Expr*e0,const Model&m){
  if(isC(e0)) return e0->k;
  if(memoG.size()<count){ memoG.resize(count+1024,0); memoV.resize(count+1024,0); }
  std::vector<std::pair<Expr*,int>> st; st.push_back({e0,0});
  while(!st.empty()){
    Expr*e=st.back().first; if(memoG[e->id]==gen){ st.pop_back(); continue; }
    if(st.back().second==0){ st.back().second=1; bool need=false; for(Expr*x:{e->a,e->b,e->c}) if(x&&memoG[x->id]!=gen){ if(isC(x)){memoG[x->id]=gen;memoV[x->id]=x->k;} else { st.push_back({x,0}); need=true; } } if(need) continue; }
    u64 A=e->a?memoV[e->a->id]:0,B=e->b?memoV[e->b->id]:0,C=e->c?memoV[e->c->id]:0,r=0;
    switch(e->op){
      case E_CONST: r=e->k; break; case E_VAR: r= e->k<m.v.size()? m.v[e->k]:0; break;
      case E_ITE: r=A?B:C; break; case E_ZEXT: r=A; break; case E_SEXT: r=(u64)sx(A,e->a->w)&maskw(e->w); break;
      case E_EXTRACT: r=(A>>e->k)&maskw(e->w); break; case E_CONCAT: r=(A<<e->b->w)|B; break;
      default: if(e->op>=E_FADD) r=foldF(e->op,A,B,e->w,e->a->w,e->k); else r=foldBin(e->op,A,B,e->a->w);
    }
    memoV[e->id]=r&maskw(e->w); memoG[e->id]=gen; st.pop_back();
  }
  return memoV[e0->id];
}
// ---- SMT-LIB2 printing (for the second solver) ----
static std::string bvlit(u64 v,unsigned w){ char b[64]; snprintf(b,sizeof b,"(_ bv%llu %u)",(unsigned long long)v,w); return b; }
static std::string fs(unsigned w){ return w==32? "8 24":"11 53"; }
std::string toSmt(const std::vector<Expr*>&as){
  std::string o="(set-logic ALL)\n(set-option :produce-models true)\n"; std::set<u32> done; std::vector<Expr*> order; bool usesF=false;
  std::function<void(Expr*)> dfs=[&](Expr*root){ std::vector<std::pair<Expr*,int>> st{{root,0}}; while(!st.empty()){ auto&[e,s]=st.back(); if(done.count(e->id)){st.pop_back();continue;} if(s==0){ s=1; Expr*x=e; for(Expr*y:{x->a,x->b,x->c}) if(y&&!done.count(y->id)) st.push_back({y,0}); } else { done.insert(e->id); order.push_back(e); st.pop_back(); } } };
  for(Expr*a:as) dfs(a);
  auto nm=[&](Expr*e){ return isC(e)? bvlit(e->k,e->w): e->op==E_VAR? "v"+std::to_string(e->k): "e"+std::to_string(e->id); };
  int nf=0;
  auto F=[&](Expr*e){ return "((_ to_fp "+fs(e->w)+") "+nm(e)+")"; };
  auto B1=[&](const std::string&s){ return "(ite "+s+" (_ bv1 1) (_ bv0 1))"; };
  std::string body;
  for(Expr*e:order){
    if(isC(e)) continue;
    if(e->op==E_VAR){ o+="(declare-const v"+std::to_string(e->k)+" (_ BitVec "+std::to_string(e->w)+"))\n"; continue; }
    std::string d,A=e->a?nm(e->a):"",B=e->b?nm(e->b):"",C=e->c?nm(e->c):""; std::string fpres;
    static const char* bn[]={"","","bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvshl","bvlshr","bvashr","bvand","bvor","bvxor"};
    switch(e->op){
      case E_EQ: d=B1("(= "+A+" "+B+")"); break; case E_ULT: d=B1("(bvult "+A+" "+B+")"); break; case E_ULE: d=B1("(bvule "+A+" "+B+")"); break;
      case E_SLT: d=B1("(bvslt "+A+" "+B+")"); break; case E_SLE: d=B1("(bvsle "+A+" "+B+")"); break;
      case E_ITE: d="(ite (= "+A+" (_ bv1 1)) "+B+" "+C+")"; break;
      case E_ZEXT: d="((_ zero_extend "+std::to_string(e->w-e->a->w)+") "+A+")"; break; case E_SEXT: d="((_ sign_extend "+std::to_string(e->w-e->a->w)+") "+A+")"; break;
      case E_EXTRACT: d="((_ extract "+std::to_string(e->k+e->w-1)+" "+std::to_string(e->k)+") "+A+")"; break; case E_CONCAT: d="(concat "+A+" "+B+")"; break;
      case E_FADD: fpres="(fp.add RNE "+F(e->a)+" "+F(e->b)+")"; break; case E_FSUB: fpres="(fp.sub RNE "+F(e->a)+" "+F(e->b)+")"; break;
      case E_FMUL: fpres="(fp.mul RNE "+F(e->a)+" "+F(e->b)+")"; break; case E_FDIV: fpres="(fp.div RNE "+F(e->a)+" "+F(e->b)+")"; break;
      case E_FSQRT: fpres="(fp.sqrt RNE "+F(e->a)+")"; break;
      case E_FRINT: fpres=std::string("(fp.roundToIntegral ")+(e->k==0?"RTN":e->k==1?"RTP":e->k==2?"RTZ":"RNE")+" "+F(e->a)+")"; break;
      case E_FEXT: case E_FTRUNC: fpres="((_ to_fp "+fs(e->w)+") RNE "+F(e->a)+")"; break;
      case E_SITOF: fpres="((_ to_fp "+fs(e->w)+") RNE "+A+")"; break; case E_UITOF: fpres="((_ to_fp_unsigned "+fs(e->w)+") RNE "+A+")"; break;
      case E_FLT: d=B1("(fp.lt "+F(e->a)+" "+F(e->b)+")"); break; case E_FLE: d=B1("(fp.leq "+F(e->a)+" "+F(e->b)+")"); break; case E_FEQ: d=B1("(fp.eq "+F(e->a)+" "+F(e->b)+")"); break;
      case E_FNAN: d=B1("(fp.isNaN "+F(e->a)+")"); break;
      case E_FTOSI: case E_FTOUI: { bool s=e->op==E_FTOSI; bool wide=e->w==64; char lo[40],hi[40]; snprintf(lo,40,"%llu",(unsigned long long)db(s?(wide?-9223372036854775808.0:-2147483649.0):-1.0)); snprintf(hi,40,"%llu",(unsigned long long)db(s?(wide?9223372036854775808.0:2147483648.0):(wide?18446744073709551616.0:4294967296.0)));
          std::string x= e->a->w==32? "((_ to_fp 11 53) RNE "+F(e->a)+")": F(e->a); std::string L=std::string("((_ to_fp 11 53) (_ bv")+lo+" 64))",H=std::string("((_ to_fp 11 53) (_ bv")+hi+" 64))";
          unsigned cw=wide?64:32; std::string cv=std::string("((_ ")+(s?"fp.to_sbv ":"fp.to_ubv ")+std::to_string(cw)+") RTZ "+x+")"; std::string ex= s? bvlit(1ULL<<(cw-1),cw): wide? bvlit(1ULL<<63,64): bvlit(0,32);
          d="(ite (and (fp."+std::string(s&&wide?"leq ":"lt ")+L+" "+x+") (fp.lt "+x+" "+H+")) "+cv+" "+ex+")"; if(e->w<cw) d="((_ extract "+std::to_string(e->w-1)+" 0) "+d+")"; break; }
      default: d="("+std::string(bn[e->op])+" "+A+" "+B+")";
    }
    std::string ty="(_ BitVec "+std::to_string(e->w)+")";
    if(!fpres.empty()){ usesF=true; body+="(declare-const e"+std::to_string(e->id)+" "+ty+")\n(assert (= ((_ to_fp "+fs(e->w)+") e"+std::to_string(e->id)+") "+fpres+"))\n"; nf++; }
    else body+="(define-fun e"+std::to_string(e->id)+" () "+ty+" "+d+")\n";
  }
  o+=body; for(Expr*a:as) o+="(assert (= "+nm(a)+" (_ bv1 1)))\n";
  (void)usesF; return o;
}
