// Handlers for everything the interpreted bitcode calls but does not define: engine intrinsics (vp_*),
// LLVM intrinsics, the allocator, locks, and the C library (concrete arguments run natively, symbolic
// ones are redirected to the bitcode models in vplibc.c).
static Func* g_modelFn=nullptr; static Inst* g_callInst=nullptr; static Func* g_callee=nullptr;
#define HD(n) static void n(Interp&,CallI&c,Val*a,Val&r)
static bool g_leakTrack=false;
static void redirect(const char*n){ auto it=byName.find(string("vpl_")+n); if(it==byName.end()||it->second->isDecl) unsupported(string("no model for ")+n); g_modelFn=it->second; }
static bool concStr(Val p,u64 max=~0ULL){ if(p.e) return false; for(u64 i=0;i<max;i++){ checkRange(p.v+i,1,"read"); if(maySym(p.v+i,1)&&rangeHasSym(p.v+i,1)) return false; if(!*(u8*)(p.v+i)) return true; if(i>200000000) unsupported("string too long"); } return true; }
// --- vp intrinsics
HD(h_symbolic){ u64 p=conc(a[0]),n=conc(a[1]); string nm=cstr(conc(a[2])); if(!n) return; checkRange(p,n,"write"); Input in; in.name=nm; in.n=n;
  if(n==1||n==2||n==4||n==8){ Expr*v=mkVar(nm,n*8); for(u64 i=0;i<n;i++) in.bytes.push_back(mkExtract(v,i*8,8)); g_inputs.push_back(in); rawStore(p,n,{0,v}); return; }
  for(u64 i=0;i<n;i++){ Expr*v=mkVar(nm+"["+std::to_string(i)+"]",8); in.bytes.push_back(v); rawStore(p+i,1,{0,v}); } g_inputs.push_back(in); }
HD(h_sym32){ Expr*v=mkVar(cstr(conc(a[0])),32); Input in; in.name=g_vars.back().name; in.n=4; for(int i=0;i<4;i++) in.bytes.push_back(mkExtract(v,i*8,8)); g_inputs.push_back(in); r={0,v}; }
HD(h_sym64){ Expr*v=mkVar(cstr(conc(a[0])),64); Input in; in.name=g_vars.back().name; in.n=8; for(int i=0;i<8;i++) in.bytes.push_back(mkExtract(v,i*8,8)); g_inputs.push_back(in); r={0,v}; }
HD(h_assume){ Val v=a[0]; if(v.e) assume(mkNot(mkCmp(E_EQ,v.e,mkConst(0,v.e->w)))); else if(!(u32)v.v) endPath("dead",""); }
HD(h_assert){ Val v=a[0]; string m="assertion failed: "+cstr(conc(a[1])); Expr*e= v.e? mkNot(mkCmp(E_EQ,v.e,mkConst(0,v.e->w))): mkConst((u32)v.v!=0,1); check(e,m); }
HD(h_observe){ g_obs.push_back(a[0]); }
HD(h_reach){ g_reach.insert(cstr(conc(a[0]))); }
HD(h_must){ g_must.insert(cstr(conc(a[0]))); }
HD(h_choice){ u64 n=conc(a[0]); Expr*v=mkVar(cstr(conc(a[1])),32); Input in; in.name=g_vars.back().name; in.n=4; for(int i=0;i<4;i++) in.bytes.push_back(mkExtract(v,i*8,8)); g_inputs.push_back(in); if(!n) endPath("dead",""); r={forkChoice(v,n),nullptr}; }
HD(h_concretize){ r={a[0].e? enumerate(a[0].e,100000): a[0].v,nullptr}; }
HD(h_pick){ r={a[0].e? concretize(a[0].e): a[0].v,nullptr}; }
HD(h_isSym){ r={a[0].e!=nullptr,nullptr}; }
HD(h_failAlloc){ g_failAlloc=(i64)(i32)conc(a[0]); }
HD(h_allocSeq){ r={g_allocSeq,nullptr}; }
HD(h_live){ r={g_liveBlocks,nullptr}; }
HD(h_zero){ r={0,nullptr}; }
HD(h_nop){}
HD(h_alive){ u64 p=conc(a[0]); Obj*o=findHeap(p); r={(u64)(o&&o->alive&&p>=o->base),nullptr}; }
HD(h_blocksize){ u64 p=conc(a[0]); Obj*o=findHeap(p); if(!o||!o->alive||o->base!=p) violation("block size of a bad pointer"); r= o->ssize? Val{0,mkZext(o->ssize,64)}: Val{o->size,nullptr}; }
HD(h_fail){ violation(cstr(conc(a[0]))); }
HD(h_dead){ endPath("dead",""); }
HD(h_note){ if(getenv("VP_DEBUG")){ string s; if(a[1].e) s="sym("+std::to_string(a[1].e->size)+")="+std::to_string((i64)evalExpr(a[1].e,g_model)); else s=std::to_string((i64)a[1].v); if(FILE*nf=fopen("/tmp/notes.txt","a")){ fprintf(nf,"[%d] note %s %s\n",getpid(),(char*)a[0].v,s.c_str()); fclose(nf); } } }
// strtod and friends on symbolic text: an uninterpreted function of the bytes
static std::map<vector<u32>,Expr*> g_ufs; static bool g_abstract=false;
HD(h_ufStr){ u64 kind=conc(a[0]),p=conc(a[1]),n=conc(a[2]); if(n) checkRange(p,n,"read"); if(!rangeHasSym(p,n)){ string s((char*)p,n); double d= kind==0? strtod(s.c_str(),0): (double)strtof(s.c_str(),0); memcpy(&r.v,&d,8); return; }
  vector<u32> key{(u32)kind}; for(u64 i=0;i<n;i++) key.push_back(ex(rawLoad(p+i,1,8),8)->id); auto it=g_ufs.find(key); Expr*v; if(it!=g_ufs.end()) v=it->second; else { v=mkVar("uf",64); g_ufs[key]=v; g_abstract=true; } r={0,v}; }
HD(h_fmtDouble){ u64 buf=conc(a[0]),n=conc(a[1]); string f=cstr(conc(a[2])); u64 d=a[3].e? concretize(a[3].e): a[3].v; double x; memcpy(&x,&d,8); char t[1024]; int k=snprintf(t,1024,f.c_str(),x); if(n>1024) n=1024; for(u64 i=0;i<n&&i<=(u64)k&&i<1024;i++) rawStore(buf+i,1,{(u8)t[i],nullptr}); r={(u32)k,nullptr}; }
HD(h_fmtInt){ u64 buf=conc(a[0]); string f=cstr(conc(a[1])); u64 d=a[2].e? concretize(a[2].e): a[2].v; char t[256]; int k=snprintf(t,256,f.c_str(),d); for(int i=0;i<=k&&i<256;i++) rawStore(buf+i,1,{(u8)t[i],nullptr}); r={(u32)k,nullptr}; }
// --- memory intrinsics
static void checkRangeV(u64 p,Val n,const char*w){ if(!n.e) checkRange(p,n.v,w); }
HD(h_memcpy){ Val n=a[2]; u64 len= n.e? enumerate(n.e): n.v; u64 d=conc(a[0]); Val s=a[1]; if(!len) { r=a[0]; return; }
  if(s.e){ s={conc(s),nullptr}; } checkRange(s.v,len,"read"); checkRange(d,len,"write"); copyMem(d,s.v,len); r={d,nullptr}; }
HD(h_memset){ Val n=a[2]; u64 d=conc(a[0]); Val v=a[1]; if(n.e){ Obj*o=findHeap(d); if(o&&o->alive&&o->big&&o->ssize&&!v.e&&(v.v&255)==0&&!g_symBytes){} }
  u64 len= n.e? enumerate(n.e): n.v; r=a[0]; if(!len) return; checkRange(d,len,"write"); if(v.e){ Expr*b=mkExtract(v.e,0,8); for(u64 i=0;i<len;i++) rawStore(d+i,1,{0,b}); } else { clearSym(d,len); if(len>(1<<20)&&(v.v&255)==0&&d>=BIGB&&d<BIGE){ u64 x=(d+4095)&~4095ULL,y=(d+len)&~4095ULL; if(y>x){ memset((void*)d,0,x-d); madvise((void*)x,y-x,MADV_DONTNEED); memset((void*)y,0,d+len-y); return; } } if(isBig(d)) bigDirty(d,len); memset((void*)d,v.v,len); } }
// --- allocator
static const u64 ALLOC_LIM=1ULL<<26;
static u64 symAlloc(Expr*n,bool zero){ n=mkZext(n,64); if(!forkOn(mkCmp(E_ULE,n,mkConst(ALLOC_LIM,64)))) { g_allocSeq++; return 0; } // an impossible request fails
  u64 cap=std::min(n->umax,ALLOC_LIM); if(cap<=4096&&0) return heapAlloc(enumerate(n),zero); u64 p=heapAlloc(evalExpr(n,g_model),zero,n,cap); return p; }
HD(h_malloc){ if(a[0].e) r={symAlloc(a[0].e,false),nullptr}; else r={a[0].v>ALLOC_LIM? 0: heapAlloc(a[0].v,false),nullptr}; }
HD(h_calloc){ if(!a[0].e&&!a[1].e){ unsigned __int128 t=(unsigned __int128)a[0].v*a[1].v; r={t>ALLOC_LIM?0:heapAlloc((u64)t,true),nullptr}; return; }
  Expr*x=ex(a[0],64),*y=ex(a[1],64); if(!isC(y)&&isC(x)) std::swap(x,y); if((unsigned __int128)x->umax*y->umax>ALLOC_LIM){ if(!isC(y)) y=mkConst(enumerate(y),64); if(y->k==0){ r={heapAlloc(0,true),nullptr}; return; } if(!forkOn(mkCmp(E_ULE,x,mkConst(ALLOC_LIM/y->k,64)))){ g_allocSeq++; r={0,nullptr}; return; } }
  Expr*n=mkBin(E_MUL,x,y); if(isC(n)) r={heapAlloc(n->k,true),nullptr}; else r={symAlloc(n,true),nullptr}; }
HD(h_free){ u64 p=conc(a[0]); int k=heapFree(p); if(k==1) violation("free of an invalid pointer "+descAddr(p)); if(k==2) violation("double free of "+descAddr(p)); if(p){ Obj*o=findHeap(p); if(!o->big&&g_symBytes) clearSym(p,o->size); } }
HD(h_realloc){ u64 p=conc(a[0]),n=conc(a[1]); u64 q=heapAlloc(n,false); if(p){ Obj*o=findHeap(p); if(!o||o->base!=p||!o->alive) violation("realloc of an invalid pointer "+descAddr(p)); if(q){ copyMem(q,p,std::min(n,o->size)); heapFree(p); } } r={q,nullptr}; }
HD(h_strdup){ u64 p=conc(a[0]); u64 n=cstrlenChecked(p); u64 q=heapAlloc(n+1,false); if(q) copyMem(q,p,n+1); r={q,nullptr}; }
// --- strings
HD(h_strlen){ if(concStr(a[0])) r={strlen((char*)a[0].v),nullptr}; else redirect("strlen"); }
HD(h_strnlen){ redirect("strnlen"); }
HD(h_memcmp){ if(a[2].e){ redirect("memcmp"); return; } if(!a[2].v){ r={0,nullptr}; return; } if(!a[0].e&&!a[1].e){ checkRange(a[0].v,a[2].v,"read"); checkRange(a[1].v,a[2].v,"read"); if(!rangeHasSym(a[0].v,a[2].v)&&!rangeHasSym(a[1].v,a[2].v)){ int k=memcmp((void*)a[0].v,(void*)a[1].v,a[2].v); r={(u32)(k<0?-1:k>0?1:0),nullptr}; return; } } redirect("memcmp"); }
HD(h_bcmp){ h_memcmp(*(Interp*)nullptr,c,a,r); }
HD(h_memchr){ if(!a[0].e&&!a[1].e&&!a[2].e){ if(a[2].v) checkRange(a[0].v,a[2].v,"read"); if(!rangeHasSym(a[0].v,a[2].v)){ r={(u64)memchr((void*)a[0].v,a[1].v,a[2].v),nullptr}; return; } } redirect("memchr"); }
HD(h_strcmp){ if(concStr(a[0])&&concStr(a[1])){ int k=strcmp((char*)a[0].v,(char*)a[1].v); r={(u32)(k<0?-1:k>0?1:0),nullptr}; } else redirect("strcmp"); }
HD(h_strncmp){ if(!a[2].e&&concStr(a[0],a[2].v)&&concStr(a[1],a[2].v)){ int k=strncmp((char*)a[0].v,(char*)a[1].v,a[2].v); r={(u32)(k<0?-1:k>0?1:0),nullptr}; } else redirect("strncmp"); }
HD(h_strchr){ if(!a[1].e&&concStr(a[0])) r={(u64)strchr((char*)a[0].v,a[1].v),nullptr}; else redirect("strchr"); }
HD(h_strrchr){ if(!a[1].e&&concStr(a[0])) r={(u64)strrchr((char*)a[0].v,a[1].v),nullptr}; else redirect("strrchr"); }
HD(h_strstr){ if(concStr(a[0])&&concStr(a[1])) r={(u64)strstr((char*)a[0].v,(char*)a[1].v),nullptr}; else redirect("strstr"); }
HD(h_model){ redirect(g_callee->name.c_str()); }
HD(h_ctype){ if(a[0].e){ redirect(g_callee->name.c_str()); return; } r=nativeCall(dlsym(RTLD_DEFAULT,g_callee->name.c_str()),c,a); if(g_callee->name.compare(0,2,"is")==0) r.v=r.v!=0; }
HD(h_strto){ if(concStr(a[0])){ u64 p=a[0].v; Val b[3]={a[0],a[1],a[2]}; u64 ep=conc(a[1]); b[1]={ep,nullptr}; if(ep) checkRange(ep,8,"write"); if(c.args.size()>2) b[2]={conc(a[2]),nullptr}; (void)p; r=nativeCall(dlsym(RTLD_DEFAULT,g_callee->name.c_str()),c,b); if(ep) clearSym(ep,8); } else redirect(g_callee->name.c_str()); }
HD(h_native){ Val b[40]; for(size_t i=0;i<c.args.size();i++) b[i]={conc(a[i]),nullptr}; void*f=dlsym(RTLD_DEFAULT,g_callee->name.c_str()); if(!f) unsupported("missing "+g_callee->name); r=nativeCall(f,c,b); }
HD(h_nativeStr){ h_native(*(Interp*)nullptr,c,a,r); } // first argument is a path, already concrete in every caller
HD(h_fread){ u64 p=conc(a[0]),n=conc(a[1])*conc(a[2]); if(n){ checkRange(p,n,"write"); clearSym(p,n); } Val b[4]={{p,nullptr},{conc(a[1]),nullptr},{conc(a[2]),nullptr},{conc(a[3]),nullptr}}; r=nativeCall((void*)fread,c,b); }
HD(h_fwrite){ u64 p=conc(a[0]),n=conc(a[1])*conc(a[2]); if(n) checkRange(p,n,"read"); r={conc(a[2]),nullptr}; }
HD(h_sink){ r={1,nullptr}; }
HD(h_errno){ r={(u64)&errno,nullptr}; }
HD(h_abort){ violation("abort() called"); }
HD(h_exit){ violation("exit() called"); }
HD(h_assertfail){ string m="assertion in the code failed"; if(!a[0].e) m+=": "+cstr(a[0].v); violation(m); }
HD(h_strerror_r){ u64 n=conc(a[0]),p=conc(a[1]),l=conc(a[2]); checkRange(p,l,"write"); clearSym(p,l); r={(u64)strerror_r(n,(char*)p,l),nullptr}; if(r.v>=ARENA&&0) r.v=p; }
// --- floating point
HD(h_fabs){ unsigned w=c.retw; u64 m=maskw(w-1); if(!a[0].e) r={a[0].v&m,nullptr}; else r=mk(mkBin(E_AND,a[0].e,mkConst(m,w))); }
static void frint(CallI&c,Val*a,Val&r,int k){ unsigned w=c.retw; if(a[0].e){ r=mk(mkF(E_FRINT,a[0].e,nullptr,w,k)); return; } r={foldF(E_FRINT,a[0].v,0,w,w,k),nullptr}; }
HD(h_floor){ frint(c,a,r,0);} HD(h_ceil){ frint(c,a,r,1);} HD(h_trunc){ frint(c,a,r,2);} HD(h_rint){ frint(c,a,r,3);}
HD(h_sqrt){ unsigned w=c.retw; if(a[0].e) r=mk(mkF(E_FSQRT,a[0].e,nullptr,w)); else r={foldF(E_FSQRT,a[0].v,0,w,w,0),nullptr}; }
HD(h_isnan){ r=mk(mkZext(mkF(E_FNAN,ex(a[0],c.argw[0]),nullptr,1),c.retw?c.retw:1)); }
HD(h_copysign){ unsigned w=c.retw; Expr*x=ex(a[0],w),*y=ex(a[1],w); r=mk(mkBin(E_OR,mkBin(E_AND,x,mkConst(maskw(w-1),w)),mkBin(E_AND,y,mkConst(1ULL<<(w-1),w)))); }
HD(h_isfpclass){ unsigned w=c.argw[0]; u64 t=conc(a[1]); Expr*x=ex(a[0],w); unsigned eb=w==64?11:8,mb=w-1-eb; Expr*man=mkExtract(x,0,mb),*ee=mkExtract(x,mb,eb),*sg=mkExtract(x,w-1,1); Expr*mz=mkCmp(E_EQ,man,mkConst(0,mb)),*ez=mkCmp(E_EQ,ee,mkConst(0,eb)),*eo=mkCmp(E_EQ,ee,mkConst(maskw(eb),eb)); Expr*q=mkExtract(man,mb-1,1); auto A=[](Expr*p,Expr*q){return mkBin(E_AND,p,q);}; Expr*res=mkConst(0,1); auto add=[&](u64 bit,Expr*e){ if(t&bit) res=mkBin(E_OR,res,e); };
  Expr*nan=A(eo,mkNot(mz)); add(1,A(nan,mkNot(q))); add(2,A(nan,q)); Expr*inf=A(eo,mz); add(4,A(inf,sg)); add(512,A(inf,mkNot(sg))); Expr*nor=A(mkNot(ez),mkNot(eo)); add(8,A(nor,sg)); add(256,A(nor,mkNot(sg))); Expr*sub=A(ez,mkNot(mz)); add(16,A(sub,sg)); add(128,A(sub,mkNot(sg))); Expr*z=A(ez,mz); add(32,A(z,sg)); add(64,A(z,mkNot(sg))); r=mk(res); }
// --- integer intrinsics
static void minmax(CallI&c,Val*a,Val&r,EOp lt,bool min){ unsigned w=c.retw; Expr*x=ex(a[0],w),*y=ex(a[1],w); Expr*l=mkCmp(lt,x,y); r=mk(min? mkIte(l,x,y): mkIte(l,y,x)); }
HD(h_smin){minmax(c,a,r,E_SLT,true);} HD(h_smax){minmax(c,a,r,E_SLT,false);} HD(h_umin){minmax(c,a,r,E_ULT,true);} HD(h_umax){minmax(c,a,r,E_ULT,false);}
HD(h_abs){ unsigned w=c.retw; Expr*x=ex(a[0],w); r=mk(mkIte(mkCmp(E_SLT,x,mkConst(0,w)),mkBin(E_SUB,mkConst(0,w),x),x)); }
HD(h_labs){ h_abs(*(Interp*)nullptr,c,a,r); }
HD(h_usubsat){ unsigned w=c.retw; Expr*x=ex(a[0],w),*y=ex(a[1],w); r=mk(mkIte(mkCmp(E_ULT,x,y),mkConst(0,w),mkBin(E_SUB,x,y))); }
HD(h_uaddsat){ unsigned w=c.retw; Expr*x=ex(a[0],w),*y=ex(a[1],w); Expr*s=mkBin(E_ADD,x,y); r=mk(mkIte(mkCmp(E_ULT,s,x),mkConst(maskw(w),w),s)); }
HD(h_bswap){ unsigned w=c.retw; Expr*x=ex(a[0],w); Expr*o=nullptr; for(unsigned i=0;i<w/8;i++){ Expr*b=mkExtract(x,i*8,8); o= o? mkConcat(o,b): b; } r=mk(o); }
HD(h_ctpop){ unsigned w=c.retw; Expr*x=ex(a[0],w); Expr*o=mkConst(0,w); for(unsigned i=0;i<w;i++) o=mkBin(E_ADD,o,mkZext(mkExtract(x,i,1),w)); r=mk(o); }
HD(h_ctlz){ unsigned w=c.retw; Expr*x=ex(a[0],w); Expr*o=mkConst(w,w); for(unsigned i=0;i<w;i++) o=mkIte(mkExtract(x,i,1),mkConst(w-1-i,w),o); r=mk(o); }
HD(h_cttz){ unsigned w=c.retw; Expr*x=ex(a[0],w); Expr*o=mkConst(w,w); for(unsigned i=w;i-->0;) o=mkIte(mkExtract(x,i,1),mkConst(i,w),o); r=mk(o); }
static Expr* shlE(Expr*x,Expr*s){ return mkBin(E_SHL,x,s); }
HD(h_fshl){ unsigned w=c.retw; Expr*x=ex(a[0],w),*y=ex(a[1],w),*s=mkBin(E_AND,ex(a[2],w),mkConst(w-1,w)); Expr*z=mkCmp(E_EQ,s,mkConst(0,w)); r=mk(mkIte(z,x,mkBin(E_OR,shlE(x,s),mkBin(E_LSHR,y,mkBin(E_SUB,mkConst(w,w),s))))); }
HD(h_fshr){ unsigned w=c.retw; Expr*x=ex(a[0],w),*y=ex(a[1],w),*s=mkBin(E_AND,ex(a[2],w),mkConst(w-1,w)); Expr*z=mkCmp(E_EQ,s,mkConst(0,w)); r=mk(mkIte(z,y,mkBin(E_OR,mkBin(E_LSHR,y,s),shlE(x,mkBin(E_SUB,mkConst(w,w),s))))); }
HD(h_overflow){ // {iN,i1} results: writes both slots directly
  unsigned w=c.argw[0]; Expr*x=ex(a[0],w),*y=ex(a[1],w); const string&n=g_callee->name; Expr*v,*o; bool sg=n.compare(5,1,"s")==0; 
  if(n.find("add")!=string::npos){ v=mkBin(E_ADD,x,y); o= sg? mkCmp(E_SLT,mkBin(E_AND,mkBin(E_XOR,v,x),mkBin(E_XOR,v,y)),mkConst(0,w)): mkCmp(E_ULT,v,x); }
  else if(n.find("sub")!=string::npos){ v=mkBin(E_SUB,x,y); o= sg? mkCmp(E_SLT,mkBin(E_AND,mkBin(E_XOR,x,y),mkBin(E_XOR,v,x)),mkConst(0,w)): mkCmp(E_ULT,x,y); }
  else { if(w>32) { if(x->umax&&y->umax&&!sg&&((unsigned __int128)x->umax*y->umax>>64)==0){ v=mkBin(E_MUL,x,y); o=mkConst(0,1); } else if(isC(x)&&isC(y)){ v=mkBin(E_MUL,x,y); unsigned __int128 t=(unsigned __int128)x->k*y->k; __int128 t2=(__int128)(i64)x->k*(i64)y->k; o=mkConst(sg? (i64)t2!=t2: (t>>64)!=0,1); } else { v=mkBin(E_MUL,x,y); if(sg) unsupported("signed 64-bit overflow check"); Expr*cst=isC(y)?y:isC(x)?x:nullptr,*oth=isC(y)?x:y; if(!cst) unsupported("64-bit overflow check"); o= cst->k? mkCmp(E_ULT,mkConst(~0ULL/cst->k,64),oth): mkConst(0,1);} }
    else { v=mkBin(E_MUL,x,y); Expr*wv=mkBin(E_MUL,sg?mkSext(x,64):mkZext(x,64),sg?mkSext(y,64):mkZext(y,64)); o=mkNot(mkCmp(E_EQ,sg?mkSext(v,64):mkZext(v,64),wv)); } }
  Frame&f=g_fr.back(); if(g_callInst->d>=0){ f.r[g_callInst->d+1]=mk(o); } r=mk(v); }
HD(h_expect){ r=a[0]; }
// relative lookup table (clang turns a switch into one): the table is constant, a symbolic offset is enumerated
HD(h_loadrel){ u64 b=conc(a[0]); u64 off= a[1].e? enumerate(a[1].e): a[1].v; checkRange(b+off,4,"read"); r={b+(u64)(int64_t)*(int32_t*)(b+off),nullptr}; }
HD(h_isconst){ r={0,nullptr}; }
HD(h_objsize){ r={~0ULL,nullptr}; }
HD(h_vastart){ u64 p=conc(a[0]); checkRange(p,24,"write"); clearSym(p,24); Frame&f=g_fr.back(); *(u32*)p=48; *(u32*)(p+4)=176; *(u64*)(p+8)=f.va; *(u64*)(p+16)=0; }
HD(h_vacopy){ u64 d=conc(a[0]),s=conc(a[1]); copyMem(d,s,24); }
HD(h_stacksave){ r={0,nullptr}; }
HD(h_trap){ violation("trap instruction executed"); }
// --- locks (state kept outside the memory so that real lock words stay untouched)
struct LockSt{ int readers=0; bool writer=false; bool dead=false; }; static std::map<u64,LockSt> g_locks;
static int g_heldLocks(){ int n=0; for(auto&p:g_locks) n+= p.second.readers+p.second.writer; return n; }
static bool lockHook(const char*n){ static std::unordered_map<string,Func*> c; auto it=c.find(n); if(it==c.end()){ auto b=byName.find(n); it=c.emplace(n,b==byName.end()||b->second->isDecl? nullptr: b->second).first; } if(!it->second) return false; g_modelFn=it->second; return true; }
static int fibSpawn(Func*,Val);
HD(h_spawn){ auto it=byAddr.find(conc(a[0])); if(it==byAddr.end()) unsupported("thread function"); r={(u64)fibSpawn(it->second,a[1]),nullptr}; }
HD(h_switch){ g_switchTo=(int)conc(a[0]); r={0,nullptr}; }
HD(h_lkinit){ u64 p=conc(a[0]); checkRange(p,8,"write"); g_locks[p]=LockSt{}; r={0,nullptr}; }
HD(h_lkdestroy){ u64 p=conc(a[0]); checkRange(p,8,"write"); LockSt&l=g_locks[p]; if(l.readers||l.writer) violation("lock destroyed while held"); l.dead=true; r={0,nullptr}; }
HD(h_rdlock){ if(lockHook("vp_hook_rdlock")) return; u64 p=conc(a[0]); checkRange(p,8,"write"); LockSt&l=g_locks[p]; if(l.writer) violation("deadlock: read lock while write-locked"); l.readers++; r={0,nullptr}; }
HD(h_wrlock){ if(lockHook("vp_hook_wrlock")) return; u64 p=conc(a[0]); checkRange(p,8,"write"); LockSt&l=g_locks[p]; if(l.writer||l.readers) violation("deadlock: write lock while already locked"); l.writer=true; r={0,nullptr}; }
HD(h_unlock){ if(lockHook("vp_hook_unlock")) return; u64 p=conc(a[0]); checkRange(p,8,"write"); LockSt&l=g_locks[p]; if(l.writer) l.writer=false; else if(l.readers) l.readers--; else violation("unlock of a lock that is not held"); r={0,nullptr}; }
extern "C" int vp_thorough();
HD(h_thorough){ r={(u64)vp_thorough(),nullptr}; }
HD(h_heldlocks){ r={(u64)g_heldLocks(),nullptr}; }

static std::unordered_map<string,Handler> handlerTable(){ std::unordered_map<string,Handler> t;
  t["vp_symbolic"]=h_symbolic; t["vp_i32"]=h_sym32; t["vp_i64"]=h_sym64; t["vp_assume"]=h_assume; t["vp_assert"]=h_assert; t["vp_observe"]=h_observe; t["vp_reach"]=h_reach; t["vp_must"]=h_must; t["vp_choice"]=h_choice; t["vp_concretize"]=h_concretize; t["vp_pick"]=h_pick; t["vp_is_symbolic"]=h_isSym; t["vp_fail_alloc"]=h_failAlloc; t["vp_alloc_seq"]=h_allocSeq; t["vp_live_blocks"]=h_live; t["vp_is_native"]=h_zero; t["vp_alive"]=h_alive; t["vp_block_size"]=h_blocksize; t["vp_fail"]=h_fail; t["vp_dead"]=h_dead; t["vp_note"]=h_note; t["vp_uf_str"]=h_ufStr; t["vp_fmt_double"]=h_fmtDouble; t["vp_fmt_int"]=h_fmtInt; t["vp_held_locks"]=h_heldlocks; t["vp_thorough"]=h_thorough;
  t["vp_malloc"]=h_malloc; t["vp_calloc"]=h_calloc; t["vp_realloc"]=h_realloc; t["vp_free"]=h_free; t["vp_strdup"]=h_strdup; t["memcpy"]=h_memcpy; t["memmove"]=h_memcpy; t["memset"]=h_memset;
  t["strlen"]=h_strlen; t["strnlen"]=h_strnlen; t["memcmp"]=h_memcmp; t["bcmp"]=h_bcmp; t["memchr"]=h_memchr; t["strcmp"]=h_strcmp; t["strncmp"]=h_strncmp; t["strchr"]=h_strchr; t["strrchr"]=h_strrchr; t["strstr"]=h_strstr;
  for(const char*n:{"strcpy","strncpy","strcat","strncat","stpcpy","memmem","strspn","strcspn","strpbrk","strcasecmp","strncasecmp","snprintf","vsnprintf","sprintf","vsprintf","qsort","memrchr"}) t[n]=h_model;
  for(const char*n:{"isalnum","isalpha","islower","isupper","isdigit","isxdigit","isspace","isblank","isprint","ispunct","iscntrl","isgraph","tolower","toupper"}) t[n]=h_ctype;
  for(const char*n:{"strtol","strtoll","strtoul","strtoull","strtod","strtof","atoi","atol","atof","__isoc23_strtol","__isoc23_strtoll","__isoc23_strtoul","__isoc23_strtoull"}) t[n]=h_strto;
  for(const char*n:{"fopen","fclose","fseek","ftell","feof","ferror","getenv","time","clock","stat","fstat","access","getpid","fileno","clock_gettime","gettimeofday","rand","srand","sysconf","isatty","pthread_self","strerror","setvbuf","usleep","sched_yield"}) t[n]=h_native;
  t["fread"]=h_fread; t["fwrite"]=h_fwrite; for(const char*n:{"fprintf","printf","fputs","fputc","puts","putchar","putc","fflush","vfprintf","vprintf","perror"}) t[n]=h_sink;
  t["__errno_location"]=h_errno; t["abort"]=h_abort; t["exit"]=h_exit; t["_exit"]=h_exit; t["__assert_fail"]=h_assertfail; t["strerror_r"]=h_strerror_r; t["__xpg_strerror_r"]=h_zero;
  t["fabs"]=h_fabs; t["fabsf"]=h_fabs; t["floor"]=h_floor; t["floorf"]=h_floor; t["ceil"]=h_ceil; t["ceilf"]=h_ceil; t["trunc"]=h_trunc; t["truncf"]=h_trunc; t["rint"]=h_rint; t["rintf"]=h_rint; t["nearbyint"]=h_rint; t["sqrt"]=h_sqrt; t["sqrtf"]=h_sqrt; t["abs"]=h_abs; t["labs"]=h_abs; t["llabs"]=h_abs; t["copysign"]=h_copysign;
  t["pthread_rwlock_init"]=h_lkinit; t["pthread_rwlock_destroy"]=h_lkdestroy; t["pthread_rwlock_rdlock"]=h_rdlock; t["pthread_rwlock_wrlock"]=h_wrlock; t["pthread_rwlock_unlock"]=h_unlock; t["pthread_mutex_init"]=h_lkinit; t["pthread_mutex_destroy"]=h_lkdestroy; t["pthread_mutex_lock"]=h_wrlock; t["pthread_mutex_unlock"]=h_unlock; t["pthread_rwlockattr_init"]=h_zero; t["vp_lk_wrlock"]=h_wrlock; t["vp_lk_rdlock"]=h_rdlock; t["vp_lk_unlock"]=h_unlock; t["vp_spawn"]=h_spawn; t["vp_switch"]=h_switch; t["pthread_rwlockattr_destroy"]=h_zero;
  return t; }
static Handler intrinsicHandler(const string&n){ struct P{const char*p;Handler h;}; static const P ps[]={{"llvm.memcpy.",h_memcpy},{"llvm.memmove.",h_memcpy},{"llvm.memset.",h_memset},{"llvm.lifetime.",h_nop},{"llvm.dbg.",h_nop},{"llvm.assume",h_nop},{"llvm.experimental.noalias",h_nop},{"llvm.expect.",h_expect},{"llvm.load.relative.",h_loadrel},{"llvm.smin.",h_smin},{"llvm.smax.",h_smax},{"llvm.umin.",h_umin},{"llvm.umax.",h_umax},{"llvm.abs.",h_abs},{"llvm.usub.sat.",h_usubsat},{"llvm.uadd.sat.",h_uaddsat},{"llvm.bswap.",h_bswap},{"llvm.ctpop.",h_ctpop},{"llvm.ctlz.",h_ctlz},{"llvm.cttz.",h_cttz},{"llvm.fshl.",h_fshl},{"llvm.fshr.",h_fshr},{"llvm.va_start",h_vastart},{"llvm.va_end",h_nop},{"llvm.va_copy",h_vacopy},{"llvm.stacksave",h_stacksave},{"llvm.stackrestore",h_nop},{"llvm.is.constant",h_isconst},{"llvm.objectsize",h_objsize},{"llvm.trap",h_trap},{"llvm.fabs.",h_fabs},{"llvm.floor.",h_floor},{"llvm.ceil.",h_ceil},{"llvm.trunc.",h_trunc},{"llvm.rint.",h_rint},{"llvm.nearbyint.",h_rint},{"llvm.sqrt.",h_sqrt},{"llvm.copysign.",h_copysign},{"llvm.is.fpclass.",h_isfpclass},{"llvm.sadd.with",h_overflow},{"llvm.uadd.with",h_overflow},{"llvm.ssub.with",h_overflow},{"llvm.usub.with",h_overflow},{"llvm.smul.with",h_overflow},{"llvm.umul.with",h_overflow},{"llvm.prefetch",h_nop},{"llvm.donothing",h_nop}};
  for(auto&p:ps) if(n.compare(0,strlen(p.p),p.p)==0) return p.h; return nullptr; }
