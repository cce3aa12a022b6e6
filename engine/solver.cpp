#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
SolverStats g_sstats; std::string g_scratch="/tmp"; u64 g_rlimit=40000000; int g_fallbackSec=60; int g_xcheckEvery=0;
static Z3_context ctx=nullptr; static std::vector<Z3_ast> tr; static u64 nTrans=0;
static Z3_sort S(unsigned w){ static Z3_sort c[65]; if(!c[w]) c[w]=Z3_mk_bv_sort(ctx,w); return c[w]; }
static Z3_sort FS(unsigned w){ static Z3_sort a=nullptr,b=nullptr; if(w==32){ if(!a) a=Z3_mk_fpa_sort_single(ctx); return a; } if(!b) b=Z3_mk_fpa_sort_double(ctx); return b; }
static void err(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(70); }
static void init(){ if(ctx) return; Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_set_error_handler(ctx,err); }
static Z3_ast one1(){ static Z3_ast x=nullptr; if(!x) x=Z3_mk_unsigned_int(ctx,1,S(1)); return x; } static Z3_ast zero1(){ static Z3_ast x=nullptr; if(!x) x=Z3_mk_unsigned_int(ctx,0,S(1)); return x; }
static std::map<u32,std::vector<u32>> dummy;
// FP results are introduced as fresh bit-vectors constrained through to_fp, so that no NaN payload is assumed.
static Z3_ast T(Expr*e); static Z3_ast F(Expr*e){ return Z3_mk_fpa_to_fp_bv(ctx,T(e),FS(e->w)); }
static Z3_ast B(Z3_ast c){ return Z3_mk_ite(ctx,c,one1(),zero1()); }
static Z3_ast fbv(Z3_ast f){ return Z3_mk_fpa_to_ieee_bv(ctx,f); }
static Z3_ast T1(Expr*e){
  Z3_ast A=e->a?T(e->a):0,Bb=e->b?T(e->b):0,C=e->c?T(e->c):0; Z3_ast rne=Z3_mk_fpa_rne(ctx),rtz=Z3_mk_fpa_rtz(ctx);
  switch(e->op){
    case E_CONST: return Z3_mk_unsigned_int64(ctx,e->k,S(e->w));
    case E_VAR: { char b[32]; snprintf(b,32,"v%llu",(unsigned long long)e->k); return Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,b),S(e->w)); }
    case E_ADD: return Z3_mk_bvadd(ctx,A,Bb); case E_SUB: return Z3_mk_bvsub(ctx,A,Bb); case E_MUL: return Z3_mk_bvmul(ctx,A,Bb);
    case E_UDIV: return Z3_mk_bvudiv(ctx,A,Bb); case E_SDIV: return Z3_mk_bvsdiv(ctx,A,Bb); case E_UREM: return Z3_mk_bvurem(ctx,A,Bb); case E_SREM: return Z3_mk_bvsrem(ctx,A,Bb);
    case E_SHL: return Z3_mk_bvshl(ctx,A,Bb); case E_LSHR: return Z3_mk_bvlshr(ctx,A,Bb); case E_ASHR: return Z3_mk_bvashr(ctx,A,Bb);
    case E_AND: return Z3_mk_bvand(ctx,A,Bb); case E_OR: return Z3_mk_bvor(ctx,A,Bb); case E_XOR: return Z3_mk_bvxor(ctx,A,Bb);
    case E_EQ: return B(Z3_mk_eq(ctx,A,Bb)); case E_ULT: return B(Z3_mk_bvult(ctx,A,Bb)); case E_ULE: return B(Z3_mk_bvule(ctx,A,Bb)); case E_SLT: return B(Z3_mk_bvslt(ctx,A,Bb)); case E_SLE: return B(Z3_mk_bvsle(ctx,A,Bb));
    case E_ITE: return Z3_mk_ite(ctx,Z3_mk_eq(ctx,A,one1()),Bb,C);
    case E_ZEXT: return Z3_mk_zero_ext(ctx,e->w-e->a->w,A); case E_SEXT: return Z3_mk_sign_ext(ctx,e->w-e->a->w,A);
    case E_EXTRACT: return Z3_mk_extract(ctx,e->k+e->w-1,e->k,A); case E_CONCAT: return Z3_mk_concat(ctx,A,Bb);
    case E_FADD: return fbv(Z3_mk_fpa_add(ctx,rne,F(e->a),F(e->b))); case E_FSUB: return fbv(Z3_mk_fpa_sub(ctx,rne,F(e->a),F(e->b)));
    case E_FMUL: return fbv(Z3_mk_fpa_mul(ctx,rne,F(e->a),F(e->b))); case E_FDIV: return fbv(Z3_mk_fpa_div(ctx,rne,F(e->a),F(e->b)));
    case E_FSQRT: return fbv(Z3_mk_fpa_sqrt(ctx,rne,F(e->a)));
    case E_FRINT: return fbv(Z3_mk_fpa_round_to_integral(ctx,e->k==0?Z3_mk_fpa_rtn(ctx):e->k==1?Z3_mk_fpa_rtp(ctx):e->k==2?rtz:rne,F(e->a)));
    case E_FLT: return B(Z3_mk_fpa_lt(ctx,F(e->a),F(e->b))); case E_FLE: return B(Z3_mk_fpa_leq(ctx,F(e->a),F(e->b))); case E_FEQ: return B(Z3_mk_fpa_eq(ctx,F(e->a),F(e->b))); case E_FNAN: return B(Z3_mk_fpa_is_nan(ctx,F(e->a)));
    case E_FEXT: case E_FTRUNC: return fbv(Z3_mk_fpa_to_fp_float(ctx,rne,F(e->a),FS(e->w)));
    case E_SITOF: return fbv(Z3_mk_fpa_to_fp_signed(ctx,rne,A,FS(e->w))); case E_UITOF: return fbv(Z3_mk_fpa_to_fp_unsigned(ctx,rne,A,FS(e->w)));
    case E_FTOSI: case E_FTOUI: { bool s=e->op==E_FTOSI,wide=e->w==64; Z3_ast x=e->a->w==32? Z3_mk_fpa_to_fp_float(ctx,rne,F(e->a),FS(64)): F(e->a);
      double lo= s?(wide?-9223372036854775808.0:-2147483649.0):-1.0, hi= s?(wide?9223372036854775808.0:2147483648.0):(wide?18446744073709551616.0:4294967296.0);
      Z3_ast L=Z3_mk_fpa_numeral_double(ctx,lo,FS(64)),H=Z3_mk_fpa_numeral_double(ctx,hi,FS(64)); unsigned cw=wide?64:32;
      Z3_ast c1= s&&wide? Z3_mk_fpa_leq(ctx,L,x): Z3_mk_fpa_lt(ctx,L,x), c2=Z3_mk_fpa_lt(ctx,x,H); Z3_ast cc[2]={c1,c2};
      Z3_ast cv= s? Z3_mk_fpa_to_sbv(ctx,rtz,x,cw): Z3_mk_fpa_to_ubv(ctx,rtz,x,cw); u64 ex= s? 1ULL<<(cw-1): wide? 1ULL<<63: 0;
      Z3_ast r=Z3_mk_ite(ctx,Z3_mk_and(ctx,2,cc),cv,Z3_mk_unsigned_int64(ctx,ex,S(cw))); if(e->w<cw) r=Z3_mk_extract(ctx,e->w-1,0,r); return r; }
    default: abort();
  }
}
static Z3_ast T(Expr*e){
  if(tr.size()<=e->id) tr.resize(std::max<size_t>(e->id+1,exprCount()+64),nullptr);
  if(tr[e->id]) return tr[e->id];
  std::vector<Expr*> st{e};
  while(!st.empty()){ Expr*x=st.back(); if(tr.size()<=x->id) tr.resize(exprCount()+64,nullptr); if(tr[x->id]){st.pop_back();continue;} bool need=false; for(Expr*y:{x->a,x->b,x->c}) if(y&&!tr[y->id]){st.push_back(y);need=true;} if(need) continue; tr[x->id]=T1(x); nTrans++; st.pop_back(); }
  return tr[e->id];
}
static void collectVars(Expr*e,std::vector<u32>&out,std::unordered_map<u32,char>&seen){ std::vector<Expr*> st{e}; while(!st.empty()){ Expr*x=st.back(); st.pop_back(); if(!x->vars||!seen.emplace(x->id,1).second) continue; if(x->op==E_VAR) out.push_back(x->k); for(Expr*y:{x->a,x->b,x->c}) if(y) st.push_back(y); } }
struct CacheEnt{ SatRes r; std::vector<std::pair<u32,u64>> vals; };
static std::unordered_map<std::string,CacheEnt> cache;
static int runExternal(const std::string&smt,const std::vector<u32>&vars,int sec,std::vector<std::pair<u32,u64>>*vals,const char*only=nullptr){
  char path[512]; snprintf(path,sizeof path,"%s/q%d_%llu.smt2",g_scratch.c_str(),(int)getpid(),(unsigned long long)g_sstats.queries);
  FILE*f=fopen(path,"w"); if(!f) return R_UNKNOWN; fputs(smt.c_str(),f); fputs("(check-sat)\n",f); if(vals&&!vars.empty()){ fputs("(get-value (",f); for(u32 v:vars) fprintf(f,"v%u ",v); fputs("))\n",f);} fclose(f);
  struct R{pid_t pid;int fd;std::string out;bool done;}; std::vector<R> rs; char tl[32],tz[32]; snprintf(tl,32,"--tlimit=%d",sec*1000); snprintf(tz,32,"-T:%d",sec);
  std::vector<std::vector<const char*>> cmds; if(!only||!strcmp(only,"cvc5")) cmds.push_back({"cvc5",tl,"--produce-models",path,nullptr}); if(!only||!strcmp(only,"z3-new")) cmds.push_back({"z3-new",tz,path,nullptr});
  for(auto&c:cmds){ int p[2]; if(pipe(p)) continue; pid_t pid=fork(); if(!pid){ setpgid(0,0); dup2(p[1],1); int n=open("/dev/null",O_WRONLY); dup2(n,2); close(p[0]); signal(SIGALRM,SIG_DFL); execvp(c[0],(char*const*)c.data()); _exit(127);} close(p[1]); rs.push_back({pid,p[0],"",false}); }
  int res=R_UNKNOWN; size_t left=rs.size(); auto t0=std::chrono::steady_clock::now();
  while(left&&res==R_UNKNOWN){ std::vector<pollfd> pf; std::vector<R*> rr; for(auto&r:rs) if(!r.done){ pf.push_back({r.fd,POLLIN,0}); rr.push_back(&r);} int el=std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now()-t0).count(); if(el>sec+3) break; poll(pf.data(),pf.size(),1000);
    for(size_t i=0;i<pf.size();i++) if(pf[i].revents){ char b[65536]; ssize_t n=read(rr[i]->fd,b,sizeof b); if(n>0) rr[i]->out.append(b,n); else { rr[i]->done=true; left--; const std::string&o=rr[i]->out; bool er=o.find("(error")!=std::string::npos&&o.compare(0,5,"unsat")!=0; if(er) continue; if(o.compare(0,5,"unsat")==0) res=R_UNSAT; else if(o.compare(0,3,"sat")==0){ res=R_SAT; if(vals){ for(u32 v:vars){ char k[32]; snprintf(k,32,"(v%u ",v); size_t q=o.find(k); if(q==std::string::npos){res=R_UNKNOWN;break;} q+=strlen(k); u64 x=0; if(o.compare(q,2,"#b")==0){ q+=2; while(o[q]=='0'||o[q]=='1') x=x*2+(o[q++]-'0'); } else if(o.compare(q,2,"#x")==0){ x=strtoull(o.c_str()+q+2,0,16);} else if(o.compare(q,5,"(_ bv")==0) x=strtoull(o.c_str()+q+5,0,10); vals->push_back({v,x}); } } if(res==R_SAT) break; } } } }
  for(auto&r:rs){ kill(r.pid,SIGKILL); close(r.fd); int st; waitpid(r.pid,&st,0); }
  unlink(path); return res; }
SatRes solve(const std::vector<Expr*>&pc,Expr*cond,Model&m){
  if(isC(cond)) return cond->k? R_SAT: R_UNSAT;
  init(); auto t0=std::chrono::steady_clock::now();
  std::vector<Expr*> sl{cond}; u64 mask=cond->vars; std::vector<char> in(pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]&&(pc[i]->vars&mask)){ in[i]=1; sl.push_back(pc[i]); if(pc[i]->vars&~mask){mask|=pc[i]->vars;ch=true;} } }
  std::vector<u32> ids; for(Expr*e:sl) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
  std::string key((char*)ids.data(),ids.size()*4);
  auto it=cache.find(key); if(it!=cache.end()){ g_sstats.cachehits++; if(it->second.r==R_SAT){ if(m.v.size()<g_vars.size()) m.v.resize(g_vars.size(),0); for(auto&p:it->second.vals) m.v[p.first]=p.second; evalReset(); } return it->second.r; }
  g_sstats.queries++;
  // contradiction with a constraint already in the path
  Expr*neg=mkNot(cond); for(Expr*e:sl) if(e==neg){ g_sstats.unsat++; cache[key]={R_UNSAT,{}}; return R_UNSAT; }
  bool fp=false; for(Expr*e:sl) fp|=e->fp;
  std::vector<u32> vars; std::unordered_map<u32,char> seen; for(Expr*e:sl) collectVars(e,vars,seen);
  // one variable of at most 8 bits: the constraints are evaluated for every value of it, which decides the query
  // completely; every 64th such query is decided by Z3 as well and must agree
  int fin=-1; u64 finv=0; if(vars.size()==1&&g_vars[vars[0]].w<=8&&!fp){ fin=R_UNSAT; Model t=m; if(t.v.size()<g_vars.size()) t.v.resize(g_vars.size(),0); u64 n=1ULL<<g_vars[vars[0]].w; for(u64 x=0;x<n&&fin==R_UNSAT;x++){ t.v[vars[0]]=x; evalReset(); bool ok=true; for(Expr*e:sl) if(!evalExpr(e,t)){ ok=false; break; } if(ok){ fin=R_SAT; finv=x; } } evalReset(); g_sstats.finite++;
    if(g_sstats.queries%64!=0){ if(fin==R_SAT){ m=t; g_sstats.sat++; cache[key]={R_SAT,{{vars[0],finv}}}; } else { g_sstats.unsat++; cache[key]={R_UNSAT,{}}; } g_sstats.us+=std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now()-t0).count(); return (SatRes)fin; } }
  Z3_solver s= Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,fp?"QF_FPBV":"QF_BV")); Z3_solver_inc_ref(ctx,s);
  Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),(unsigned)std::min<u64>(g_rlimit,0xffffffffu)); Z3_solver_set_params(ctx,s,p);
  for(Expr*e:sl) Z3_solver_assert(ctx,s,Z3_mk_eq(ctx,T(e),one1()));
  Z3_lbool r=Z3_solver_check(ctx,s); SatRes res= r==Z3_L_TRUE? R_SAT: r==Z3_L_FALSE? R_UNSAT: R_UNKNOWN;
  if(fin>=0&&res!=R_UNKNOWN){ g_sstats.xchecked++; if((int)res!=fin) g_sstats.xdisagree++; }
  std::vector<std::pair<u32,u64>> vals;
  if(res==R_SAT){ Z3_model zm=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,zm); for(u32 v:vars){ char b[32]; snprintf(b,32,"v%u",v); Z3_ast c=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,b),S(g_vars[v].w)); Z3_ast o; u64 x=0; if(Z3_model_eval(ctx,zm,c,true,&o)) { uint64_t y=0; Z3_get_numeral_uint64(ctx,o,&y); x=y; } vals.push_back({v,x}); } Z3_model_dec_ref(ctx,zm); }
  Z3_params_dec_ref(ctx,p); Z3_solver_dec_ref(ctx,s);
  if(g_xcheckEvery&&res!=R_UNKNOWN&&g_sstats.queries%g_xcheckEvery==0){ int r2=runExternal(toSmt(sl),vars,20,nullptr,"cvc5"); if(r2!=R_UNKNOWN){ g_sstats.xchecked++; if(r2!=res) g_sstats.xdisagree++; } }
  if(res==R_UNKNOWN){ g_sstats.fallback++; res=(SatRes)runExternal(toSmt(sl),vars,g_fallbackSec,&vals); if(res!=R_SAT) vals.clear(); }
  if(res==R_SAT){ // the model must really satisfy the query (guards the translation, and NaN payloads)
    Model t=m; if(t.v.size()<g_vars.size()) t.v.resize(g_vars.size(),0); for(auto&q:vals) t.v[q.first]=q.second; evalReset(); bool ok=true; for(Expr*e:sl) if(!evalExpr(e,t)){ok=false;break;} 
    if(!ok){ evalReset(); if(getenv("VP_DEBUG")){ fprintf(stderr,"model does not evaluate; slice %zu\n%s",sl.size(),toSmt(sl).c_str()); for(auto&q:vals) fprintf(stderr,"v%u=%llx\n",q.first,(unsigned long long)q.second);} res=R_UNKNOWN; }
    else { m=t; g_sstats.sat++; cache[key]={R_SAT,vals}; } }
  if(res==R_UNSAT){ g_sstats.unsat++; cache[key]={R_UNSAT,{}}; }
  if(res==R_UNKNOWN) g_sstats.unknown++;
  u64 took=std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now()-t0).count(); g_sstats.us+=took;
  static const char*slow=getenv("VP_SLOW"); if(slow&&took>atof(slow)*1e6) fprintf(stderr,"SLOW query %.1f s, result %d, slice %zu\n%s\n",took/1e6,(int)res,sl.size(),toSmt(sl).c_str());
  return res;
}
