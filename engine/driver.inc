// Process driver: prep (bitcode preparation), run (native setup, symbolic jobs, native replay of every
// completed path), and the native side of the vp_* interface.
#include <sys/personality.h>
#include <link.h>
#include <sys/time.h>
#include <semaphore.h>
#include <pthread.h>
static u64 nAssertsNative=0; static const string* nextIn(const char*nm,u64 n){ if(g_replayPos>=g_replayIn.size()){ g_replayFail="replay ran out of inputs at "+string(nm); fprintf(stderr,"%s\n",g_replayFail.c_str()); _exit(90); } auto&p=g_replayIn[g_replayPos++]; if(p.first!=nm||p.second.size()!=n){ g_replayFail="replay input mismatch: "+p.first+" vs "+nm; fprintf(stderr,"%s\n",g_replayFail.c_str()); _exit(90);} return &p.second; }
static void setupOnly(const char*n){ if(g_mode!=MODE_REPLAY){ fprintf(stderr,"%s called during setup\n",n); _exit(91);} }
extern "C" {
void* vp_malloc(size_t n){ return n>ALLOC_LIM? nullptr: (void*)heapAlloc(n,false); }
void* vp_calloc(size_t n,size_t s){ unsigned __int128 t=(unsigned __int128)n*s; return t>ALLOC_LIM? nullptr: (void*)heapAlloc((u64)t,true); }
void vp_free(void*p){ int k=heapFree((u64)p); if(k&&g_mode!=MODE_REPLAY){ fprintf(stderr,"bad free in native setup (%d)\n",k); abort(); } if(k) g_replayFail= k==1? "free of an invalid pointer": "double free"; }
void* vp_realloc(void*p,size_t n){ void*q=vp_malloc(n); if(p&&q){ Obj*o=findHeap((u64)p); memcpy(q,p,std::min<u64>(n,o->size)); heapFree((u64)p); } return q; }
char* vp_strdup(const char*s){ char*q=(char*)vp_malloc(strlen(s)+1); if(q) strcpy(q,s); return q; }
void vp_symbolic(void*p,size_t n,const char*nm){ setupOnly("vp_symbolic"); if(n) memcpy(p,nextIn(nm,n)->data(),n); }
u32 vp_i32(const char*nm){ setupOnly("vp_i32"); u32 v; memcpy(&v,nextIn(nm,4)->data(),4); return v; }
u64 vp_i64(const char*nm){ setupOnly("vp_i64"); u64 v; memcpy(&v,nextIn(nm,8)->data(),8); return v; }
void vp_assume(int c){ if(!c&&g_replayFail.empty()){ g_replayFail="assumption does not hold in the replay"; } }
void vp_assert(int c,const char*m){ nAssertsNative++; if(!c&&g_replayFail.empty()) g_replayFail=string("assertion failed: ")+m; if(!c&&g_mode==MODE_SETUP){ fprintf(stderr,"setup assertion failed: %s\n",m); _exit(92);} }
void vp_observe(u64 v){ g_replayObs.push_back(v); }
void vp_reach(const char*){} void vp_must(const char*){}
u32 vp_choice(u32 n,const char*nm){ setupOnly("vp_choice"); u32 v; memcpy(&v,nextIn(nm,4)->data(),4); if(v>=n) g_replayFail="choice out of range in the replay"; return v; }
u64 vp_concretize(u64 v){ return v; } u64 vp_pick(u64 v){ return v; } int vp_is_symbolic(u64){ return 0; }
void vp_fail_alloc(int k){ g_failAlloc=k; } u64 vp_alloc_seq(){ return g_allocSeq; } u64 vp_live_blocks(){ return g_liveBlocks; } int vp_is_native(){ return 1; }
int vp_alive(void*p){ Obj*o=findHeap((u64)p); return o&&o->alive&&(u64)p>=o->base; } u64 vp_block_size(void*p){ Obj*o=findHeap((u64)p); return o? o->size: 0; }
void vp_fail(const char*m){ vp_assert(0,m); } void vp_dead(){} void vp_note(const char*m,u64 v){ if(getenv("VP_DEBUG")) fprintf(stderr,"note(native) %s %lld\n",m,(long long)v); }
int vp_held_locks(){ return 0; } int vp_thorough(){ const char*t=getenv("VP_TIER"); return t&&!strcmp(t,"thorough"); }
double vp_uf_str(int kind,const char*p,size_t n){ string s(p,n); return kind==0? strtod(s.c_str(),0): (double)strtof(s.c_str(),0); }
int vp_fmt_double(char*b,size_t n,const char*f,double d){ return snprintf(b,n,f,d); } int vp_fmt_int(char*b,const char*f,u64 v){ return sprintf(b,f,v); }
}
// threads of the code under test: real threads, of which only the one switched to runs
static struct { sem_t s; pthread_t t; void (*f)(void*); void* a; int done; } vp_th[8]; static int vp_nth = 1, vp_cur;
static void* vp_thmain(void* p) { int k = (int)(intptr_t)p; sem_wait(&vp_th[k].s); vp_th[k].f(vp_th[k].a); vp_th[k].done = 1; vp_cur = 0; sem_post(&vp_th[0].s); return 0; }
extern "C" {
int vp_spawn(void (*f)(void*), void* a) { int k = vp_nth++; if (k > 7) _exit(94); if (k == 1) sem_init(&vp_th[0].s, 0, 0); sem_init(&vp_th[k].s, 0, 0); vp_th[k].f = f; vp_th[k].a = a; if (pthread_create(&vp_th[k].t, 0, vp_thmain, (void*)(intptr_t)k)) _exit(95); return k; }
void vp_switch(int k) { int me = vp_cur; if (k == me) return; if (vp_th[k].done) _exit(96); vp_cur = k; sem_post(&vp_th[k].s); sem_wait(&vp_th[me].s); }
static int lkHook(const char*n,void*l,int(*d)(pthread_rwlock_t*)){ void*h=(void*)symAddr(n); return h? ((int(*)(void*))h)(l): d((pthread_rwlock_t*)l); }
int vp_lk_wrlock(void*l){ return lkHook("vp_hook_wrlock",l,pthread_rwlock_wrlock); } int vp_lk_rdlock(void*l){ return lkHook("vp_hook_rdlock",l,pthread_rwlock_rdlock); } int vp_lk_unlock(void*l){ return lkHook("vp_hook_unlock",l,pthread_rwlock_unlock); }
}
// ------------------------------------------------------------------ prep
static int prep(const char*in,const char*out,const char*tag){
  LLVMContext C; SMDiagnostic E; auto m=parseIRFile(in,E,C); if(!m){ E.print("prep",errs()); return 1; }
  int k=0; for(auto&g:m->globals()){ if(g.isDeclaration()) continue; if(g.hasName()&&g.getName().starts_with("llvm.")) continue; g.setUnnamedAddr(GlobalValue::UnnamedAddr::None); if(g.hasLocalLinkage()){ string n=(g.hasName()? g.getName().str(): string("anon"))+"."+tag+"."+std::to_string(k++); g.setName(n); g.setLinkage(GlobalValue::ExternalLinkage); g.setDSOLocal(false);} g.setVisibility(GlobalValue::DefaultVisibility); }
  for(auto&f:*m){ if(f.isDeclaration()) continue; if(f.hasLocalLinkage()){ f.setName(f.getName().str()+"."+tag); f.setLinkage(GlobalValue::ExternalLinkage); f.setDSOLocal(false);} if(f.hasAvailableExternallyLinkage()) { f.deleteBody(); continue; } f.setVisibility(GlobalValue::DefaultVisibility); }
  const char*ren[][2]={{"malloc","vp_malloc"},{"calloc","vp_calloc"},{"realloc","vp_realloc"},{"free","vp_free"},{"strdup","vp_strdup"},{"pthread_rwlock_wrlock","vp_lk_wrlock"},{"pthread_rwlock_rdlock","vp_lk_rdlock"},{"pthread_rwlock_unlock","vp_lk_unlock"},{"pthread_mutex_lock","vp_lk_wrlock"},{"pthread_mutex_unlock","vp_lk_unlock"}};
  for(auto&r:ren) if(auto*f=m->getFunction(r[0])) if(f->isDeclaration()){ if(auto*g=m->getFunction(r[1])){ f->replaceAllUsesWith(g); } else f->setName(r[1]); }
  std::error_code ec; raw_fd_ostream o(out,ec); if(ec) return 1; WriteBitcodeToFile(*m,o); return 0; }
// ------------------------------------------------------------------ run
struct Rec { string job,status,msg,trace,raw; vector<std::pair<string,string>> in; vector<u64> obs; vector<string> reach,must; u64 conc=0; };
static bool parseRec(const string&l,Rec&r){ // records are written by writeRec in a fixed layout
  r.raw=l; auto str=[&](const char*key,string&o){ string k=string("\"")+key+"\":\""; size_t p=l.find(k); if(p==string::npos) return false; p+=k.size(); while(p<l.size()&&l[p]!='"'){ if(l[p]=='\\'){ if(l[p+1]=='u'){ o+=(char)strtol(l.substr(p+2,4).c_str(),0,16); p+=6; continue;} p++; } o+=l[p++]; } return true; };
  if(!str("job",r.job)||!str("status",r.status)) return false; str("msg",r.msg); str("trace",r.trace);
  size_t p=l.find("\"inputs\":["),q=l.find("],\"obs\":["); if(p==string::npos||q==string::npos) return false; p+=10; while(p<q){ size_t a=l.find("[\"",p); if(a==string::npos||a>=q) break; size_t b=l.find("\",\"",a); size_t c=l.find("\"]",b); r.in.push_back({l.substr(a+2,b-a-2),unhex(l.substr(b+3,c-b-3))}); p=c+2; }
  p=q+9; size_t e=l.find("],\"reach\":[",p); while(p<e){ r.obs.push_back(strtoull(l.c_str()+p,0,10)); size_t n=l.find(',',p); if(n==string::npos||n>=e) break; p=n+1; }
  auto list=[&](size_t a,size_t b,vector<string>&o){ while(a<b){ size_t x=l.find('"',a); if(x==string::npos||x>=b) break; size_t y=l.find('"',x+1); o.push_back(l.substr(x+1,y-x-1)); a=y+1; } };
  size_t m=l.find("],\"must\":[",e); list(e+11,m,r.reach); size_t z=l.find("],\"conc\":",m); list(m+10,z,r.must); size_t cc=l.find("\"conc\":",z); r.conc=strtoull(l.c_str()+cc+7,0,10); return true; }
static int g_nativeFd=-1;
static string replayOne(const Rec&r){ // returns "" or why the native run disagrees; "A:" prefix for a failed assertion
  int p[2]; if(pipe(p)) return "pipe"; pid_t pid=fork(); if(!pid){ close(p[0]); alarm(20); g_mode=MODE_REPLAY; g_replayIn=r.in; g_replayPos=0; g_failAlloc=-1; 
    if(void*pf=(void*)symAddr("prep_"+r.job.substr(4))){ ((void(*)())pf)(); }
    void*jf=(void*)symAddr(r.job); ((void(*)())jf)(); string out; 
    if(!g_replayFail.empty()) out="A:"+g_replayFail; else if(r.status=="ok"){ if(g_replayPos!=g_replayIn.size()) out="inputs left over"; else if(g_replayObs.size()!=r.obs.size()) out="number of observations differs"; else for(size_t i=0;i<r.obs.size();i++) if(g_replayObs[i]!=r.obs[i]&&r.obs[i]!=0xABCDABCDABCDABCDULL){ out="observation "+std::to_string(i)+": symbolic "+std::to_string(r.obs[i])+", native "+std::to_string(g_replayObs[i]); break; } }
    if(write(p[1],out.data(),out.size())<0) {} _exit(0); }
  close(p[1]); string o; char b[512]; ssize_t n; while((n=read(p[0],b,sizeof b))>0) o.append(b,n); close(p[0]); int st; waitpid(pid,&st,0); if(WIFSIGNALED(st)) return "S:signal "+std::to_string(WTERMSIG(st)); if(WEXITSTATUS(st)) return "X:exit "+std::to_string(WEXITSTATUS(st)); return o; }
static std::map<string,string> opts; static vector<string> bcs;
static int driverRun(){
  string so=opts["so"]; g_outDir=opts["out"]; double T=opts.count("time")? atof(opts["time"].c_str()): 300; g_forkPtr=opts.count("forkptr"); if(opts.count("hang")){ g_hang=true; g_maxInstr=strtoull(opts["hang"].c_str(),0,10); } if(opts.count("par")) g_par=atoi(opts["par"].c_str()); if(opts.count("rlimit")) g_rlimit=strtoull(opts["rlimit"].c_str(),0,10); if(opts.count("xcheck")) g_xcheckEvery=atoi(opts["xcheck"].c_str()); if(opts.count("maxinstr")) g_maxInstr=strtoull(opts["maxinstr"].c_str(),0,10); g_scratch=g_outDir; bool verbose=opts.count("verbose"); size_t maxReplay=opts.count("replays")? atoi(opts["replays"].c_str()): 400;
  double t0=now(); memInit(); SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sem_init(&SH->tokens,1,g_par); JS=&SH->js[4095]; prctl(PR_SET_CHILD_SUBREAPER,1);
  g_so=dlopen(so.c_str(),RTLD_NOW|RTLD_GLOBAL); if(!g_so){ fprintf(stderr,"dlopen: %s\n",dlerror()); return 3; }
  LLVMContext C; std::unique_ptr<Module> mod; for(auto&b:bcs){ SMDiagnostic E; auto m=parseIRFile(b,E,C); if(!m){ E.print("vpe",errs()); return 3; } if(!mod){ mod=std::move(m); } else if(Linker::linkModules(*mod,std::move(m))){ fprintf(stderr,"link failed %s\n",b.c_str()); return 3; } }
  M=mod.get(); DL=&M->getDataLayout(); auto ht=handlerTable(); u32 idx=0; vector<string> missing;
  for(auto&F:*M){ Func*f=new Func; f->F=&F; f->name=F.getName().str(); f->isDecl=F.isDeclaration(); f->idx=idx++; funcs[&F]=f; allFuncs.push_back(f); byName[f->name]=f; }
  for(auto*f:allFuncs){ if(f->isDecl||ht.count(f->name)){ auto it=ht.find(f->name); f->h= it!=ht.end()? it->second: f->name.compare(0,5,"llvm.")==0? intrinsicHandler(f->name): nullptr; if(it!=ht.end()) f->isDecl=true; }
    if(f->name.compare(0,5,"llvm.")!=0){ f->addr=symAddr(f->name); if(f->addr) byAddr[f->addr]=f; else if(!f->isDecl){ fprintf(stderr,"no address for %s\n",f->name.c_str()); return 3; } } }
  for(auto&G:M->globals()){ u64 a=symAddr(G.getName().str()); if(a&&!G.isDeclaration()) g_globals.push_back({a,DL->getTypeAllocSize(G.getValueType())}); }
  std::sort(g_globals.begin(),g_globals.end(),[](const GObj&a,const GObj&b){return a.a<b.a||(a.a==b.a&&a.n<b.n);});
  { struct L{ string n; u64 lo,hi; } l{so,~0ULL,0}; dl_iterate_phdr([](dl_phdr_info*i,size_t,void*d){ L*l=(L*)d; if(i->dlpi_name&&l->n==i->dlpi_name){ for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_LOAD&&(i->dlpi_phdr[k].p_flags&PF_X)==0){ u64 a=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr,b=a+i->dlpi_phdr[k].p_memsz; l->lo=std::min(l->lo,a); l->hi=std::max(l->hi,b);} } return 0; },&l); g_soLo=l.lo; g_soHi=l.hi; if(l.lo>l.hi){ g_soLo=g_soHi=0; fprintf(stderr,"so range unknown\n"); } }
  if(auto*st=(void*)symAddr("vp_setup")){ alarm(150); ((void(*)())st)(); alarm(0); } fprintf(stderr,"SETUP-DONE\n"); fflush(0);
  for(auto*f:allFuncs) decode(f);
  g_rs=(Val*)mmap(0,sizeof(Val)<<27,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  double tsetup=now()-t0;
  if(opts.count("replay-file")){ // re-run recorded inputs natively, for humans
    std::ifstream in(opts["replay-file"]); string l; int bad=0; while(std::getline(in,l)){ Rec r; if(!parseRec(l,r)) continue; string w=replayOne(r); printf("%s: %s\n",r.job.c_str(),w.empty()?"native run completes":w.c_str()); if(!w.empty()) bad=1; } return bad; }
  vector<string> jobs; string want=opts.count("jobs")? ","+opts["jobs"]+",": ""; string pre=opts.count("prefix")? opts["prefix"]: "job_";
  for(auto*f:allFuncs) if(!f->isDecl&&f->name.compare(0,pre.size(),pre)==0&&f->name.compare(0,4,"job_")==0&&(want.empty()||want.find(","+f->name+",")!=string::npos)) jobs.push_back(f->name);
  // VP_SEED-independent, deterministic order
  std::sort(jobs.begin(),jobs.end()); if(jobs.size()>4000){ fprintf(stderr,"too many jobs\n"); return 3; }
  g_deadline=now()+T; vector<string> files; fflush(0);
  vector<pid_t> roots; u64 aborted=0;
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=[](int){}; sigaction(SIGALRM,&sa,0); struct itimerval itv={{1,0},{1,0}}; bool killed=false; vector<pid_t> groups;
  auto reap=[&](bool&any){ setitimer(ITIMER_REAL,&itv,0); int st; pid_t p=waitpid(-1,&st,0); int er=errno;
    if(now()>g_deadline) SH->stop=1; if(now()>g_deadline+20&&!killed){ killed=true; for(size_t q=0;q<groups.size();q++) if(!kill(-groups[q],SIGKILL)) SH->js[q].trunc++; }
    if(p<0){ any=er==EINTR; return; } if(killed&&WIFSIGNALED(st)){ any=true; return; } any=true; if(WIFSIGNALED(st)||WEXITSTATUS(st)!=0){ aborted++; fprintf(stderr,"path process %d ended abnormally: %s %d\n",p,WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); sem_post(&SH->tokens); } };
  for(size_t j=0;j<jobs.size();j++){ while(true){ int act=0; for(size_t q=0;q<j;q++) act+= (i64)SH->js[q].live.load()>0; if(act<40) break; bool any; reap(any); if(!any||killed) break; } if(killed) { files.push_back(g_outDir+"/none"); SH->js[j].trunc++; continue; }
    string fn=g_outDir+"/"+jobs[j]+".jsonl"; files.push_back(fn); int fd=open(fn.c_str(),O_CREAT|O_TRUNC|O_APPEND|O_WRONLY|O_CLOEXEC,0644); SH->js[j].live++;
    pid_t p=fork(); if(p<0){ perror("fork"); return 3; } if(p) { setpgid(p,p); groups.push_back(p); } if(!p){ struct itimerval z={}; setitimer(ITIMER_REAL,&z,0); setpgid(0,0); g_recFd=fd; g_jobIdx=j; JS=&SH->js[j]; g_jobName=jobs[j]; g_mode=MODE_SYM; 
      if(void*pf=(void*)symAddr("prep_"+jobs[j].substr(4))){ g_mode=MODE_SETUP; ((void(*)())pf)(); g_mode=MODE_SYM; }
      g_tok=false; takeToken(); g_instr=0; interpCall(byName[jobs[j]],{}); endPath("ok",""); }
    close(fd); }
  while(true){ bool any; reap(any); if(!any) break; }
  { struct itimerval z={}; setitimer(ITIMER_REAL,&z,0); }
  double texp=now()-t0-tsetup;
  // summaries and replay
  string js="{\"setup_s\":"+std::to_string(tsetup)+",\"explore_s\":"+std::to_string(texp)+",\"aborted\":"+std::to_string(aborted)+",\"jobs\":["; u64 totReplay=0,totMis=0; string viol,mis; 
  struct Todo{ Rec r; size_t j; }; vector<Todo> todo; vector<u64> nrec(jobs.size()),nrep(jobs.size()); vector<std::set<string>> reach(jobs.size()),must(jobs.size()); vector<std::map<string,u64>> bad(jobs.size()); vector<vector<Rec>> violR(jobs.size()); vector<string> sample(jobs.size()); vector<u64> maxin(jobs.size());
  for(size_t j=0;j<jobs.size();j++){ vector<Rec> ok; std::ifstream in(files[j]); string l; std::set<string> seenV; while(std::getline(in,l)){ Rec r; if(!parseRec(l,r)) continue; nrec[j]++; for(auto&x:r.reach) reach[j].insert(x); for(auto&x:r.must) must[j].insert(x); if(r.status=="ok"){ sample[j]=l; ok.push_back(std::move(r)); } else if(r.status=="violation"){ if(violR[j].size()<4) violR[j].push_back(r); } else bad[j][r.status+": "+r.msg]++; }
    size_t step=std::max<size_t>(1,(ok.size()+maxReplay-1)/maxReplay); for(size_t i=0;i<ok.size();i+=step) todo.push_back({std::move(ok[i]),j}); }
  { // replay in parallel workers
    struct RS{ std::atomic<u64> next,mis; std::atomic<u64> per[4096]; }; RS*rs=(RS*)mmap(0,sizeof(RS),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); string mf=g_outDir+"/mismatch.jsonl"; int mfd=open(mf.c_str(),O_CREAT|O_TRUNC|O_APPEND|O_WRONLY,0644); double rdl=now()+T; vector<pid_t> ws;
    for(int w=0;w<g_par;w++){ pid_t p=fork(); if(!p){ while(true){ u64 i=rs->next++; if(i>=todo.size()||now()>rdl) _exit(0); string why=replayOne(todo[i].r); rs->per[todo[i].j]++; if(!why.empty()){ rs->mis++; string o="{\"job\":\""+todo[i].r.job+"\",\"why\":\""+jesc(why)+"\",\"rec\":"+todo[i].r.raw+"}\n"; if(write(mfd,o.data(),o.size())<0){} } } } ws.push_back(p); }
    for(pid_t p:ws){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); } for(size_t j=0;j<jobs.size();j++){ nrep[j]=rs->per[j]; totReplay+=nrep[j]; } totMis=rs->mis; std::ifstream in(mf); string l; int n=0; while(std::getline(in,l)&&n++<20){ if(!mis.empty()) mis+=","; mis+=l; } }
  for(size_t j=0;j<jobs.size();j++){ JobStat&s=SH->js[j]; if(j) js+=","; js+="{\"job\":\""+jobs[j]+"\""; auto put=[&](const char*k,u64 v){ js+=string(",\"")+k+"\":"+std::to_string(v); };
    put("paths",s.paths);put("violations",s.viol);put("unsupported",s.unsup);put("dead",s.dead);put("truncated",s.trunc);put("forks",s.forks);put("instructions",s.instrs);put("queries",s.queries);put("sat",s.sat);put("unsat",s.unsat);put("unknown",s.unknown);put("fallback",s.fallback);put("cachehits",s.cachehits);put("solver_us",s.us);put("assertions",s.asserts);put("discharged",s.discharged);put("inconclusive",s.inconclusive);put("concretized",s.conc);put("errors",s.errors);put("xchecked",s.xchecked);put("xdisagree",s.xdisagree);put("finite",s.finite);put("memchecks",s.memchecks);put("replayed",nrep[j]);
    auto lst=[&](const char*k,const std::set<string>&v){ js+=string(",\"")+k+"\":["; bool f=true; for(auto&x:v){ if(!f) js+=","; f=false; js+="\""+jesc(x)+"\""; } js+="]"; }; lst("reach",reach[j]); lst("must",must[j]); js+=",\"sample\":"+(sample[j].empty()? string("null"): sample[j]);
    js+=",\"problems\":{"; bool f=true; for(auto&p:bad[j]){ if(!f) js+=","; f=false; js+="\""+jesc(p.first)+"\":"+std::to_string(p.second); } js+="}";
    js+=",\"violation_records\":["; f=true; for(auto&r:violR[j]){ if(!f) js+=","; f=false; js+="{\"native\":\""+jesc(replayOne(r))+"\",\"rec\":"+r.raw+"}"; } js+="]}"; }
  js+="],\"replayed\":"+std::to_string(totReplay)+",\"mismatches\":"+std::to_string(totMis)+",\"mismatch_records\":["+mis+"],\"functions\":["; bool f=true; for(auto*x:allFuncs) if(!x->isDecl&&SH->fnHit[x->idx&0xffff]){ if(!f) js+=","; f=false; js+="\""+jesc(x->name)+"\""; } js+="]}\n";
  std::ofstream(opts["summary"])<<js; (void)verbose; return 0; }
int main(int argc,char**argv){
  if(argc>=5&&!strcmp(argv[1],"prep")) return prep(argv[2],argv[3],argv[4]);
  if(argc<2||strcmp(argv[1],"run")){ fprintf(stderr,"usage: vpe prep IN OUT TAG | vpe run --so=X --bc=Y ... --out=DIR --summary=F\n"); return 3; }
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)){ if(personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE)>=0&&!getenv("VPE_REEXEC")){ setenv("VPE_REEXEC","1",1); execv("/proc/self/exe",argv); } }
  for(int i=2;i<argc;i++){ string a=argv[i]; if(a.compare(0,2,"--")) continue; size_t e=a.find('='); string k=a.substr(2,e==string::npos?string::npos:e-2),v= e==string::npos? "1": a.substr(e+1); if(k=="bc") bcs.push_back(v); else opts[k]=v; }
  struct rlimit rl={1<<30,1<<30}; setrlimit(RLIMIT_STACK,&rl); 
  return driverRun(); }
