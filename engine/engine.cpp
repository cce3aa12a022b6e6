#include <deque>
// Symbolic executor for LLVM 18 IR. Executes the bitcode that clang produced from the repository's C
// sources; inputs marked symbolic become solver variables, branches on them are explored by fork(),
// and every memory access, assertion and trap becomes a solver query over all values of the path.
#include "expr.h"
#include "solver.h"
#include "mem.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <cstdarg>
#include <chrono>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <sstream>
#include <cerrno>
using namespace llvm; using std::string; using std::vector;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ shared state
struct JobStat { std::atomic<u64> paths, viol, unsup, dead, trunc, forks, instrs, queries, sat, unsat, unknown, fallback, cachehits, us, asserts, discharged, inconclusive, conc, live, errors, xchecked, xdisagree, finite, memchecks; };
struct Shared { sem_t tokens; std::atomic<int> stop; std::atomic<int> waiting; std::atomic<int> holders; JobStat js[4096]; u8 fnHit[1<<16]; };
static Shared* SH; static JobStat* JS; static int g_par=8; static int g_jobIdx=0; static string g_outDir; static string g_jobName; static double g_deadline=0; static int g_recFd=-1; static u64 g_maxInstr=4000000000ULL;
static bool g_quietJobs=true;

// ------------------------------------------------------------------ values, decoded code
struct Val { u64 v; Expr* e; };
struct Func; struct Interp;
typedef uint16_t u16; enum IOp : u16 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_COPY, I_AGG, I_UNSUP };
struct Edge { int target; int ms, mc; };
struct Inst { IOp op; u8 w, sub, w2; i32 d,a,b,c; i64 imm; void* p; };
struct GepI { i64 off; vector<std::array<i64,3>> idx; };
struct SwitchI { vector<std::pair<u64,Edge>> cases; Edge def; u64 lo=0; vector<int> table; u8 w; };
struct CallI { Func* f=nullptr; i32 fn=0; vector<i32> args; vector<u8> argw; vector<u8> argf; vector<u64> byval; unsigned nfixed; u8 retw; bool retf; int slots; const CallBase* cb; };
struct AggI { vector<std::pair<i32,i32>> copies; };
typedef void (*Handler)(Interp&,CallI&,Val*args,Val&ret);
struct Func { Function* F; string name; u32 idx; bool decoded=false, isDecl=false; int nregs=0,nargs=0; vector<Inst> code; vector<Val> consts; vector<std::pair<i32,i32>> moves; bool vararg=false; u64 addr=0; Handler h=nullptr; Func* model=nullptr; Func* nativeOnly=nullptr; vector<u8> argw; };
static std::unordered_map<const Function*,Func*> funcs; static std::unordered_map<u64,Func*> byAddr; static std::unordered_map<string,Func*> byName; static vector<Func*> allFuncs;
struct GObj { u64 a, n; }; static vector<GObj> g_globals;
static Module* M; static const DataLayout* DL;
static u64 symAddr(const string&n);

static unsigned widthOf(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth()<=64? t->getIntegerBitWidth():0; if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; return 0; }
static int slotsOf(Type*t){ if(t->isVoidTy()) return 0; if(auto*s=dyn_cast<StructType>(t)){ int n=0; for(auto*x:s->elements()) n+=slotsOf(x); return n; } if(auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements()*slotsOf(a->getElementType()); return 1; }
static int slotOff(Type*t,ArrayRef<unsigned> ix){ int o=0; for(unsigned i:ix){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned j=0;j<i;j++) o+=slotsOf(s->getElementType(j)); t=s->getElementType(i);} else { auto*a=cast<ArrayType>(t); o+=i*slotsOf(a->getElementType()); t=a->getElementType(); } } return o; }
static bool constVal(const Constant*c,u64&v){
  if(auto*i=dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()>64) return false; v=i->getZExtValue(); return true; }
  if(auto*f=dyn_cast<ConstantFP>(c)){ v=f->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ v=0; return true; }
  if(auto*F=dyn_cast<Function>(c)){ auto it=funcs.find(F); v= it!=funcs.end()? it->second->addr: symAddr(F->getName().str()); return true; }
  if(auto*G=dyn_cast<GlobalVariable>(c)){ v=symAddr(G->getName().str()); return v!=0; }
  if(auto*A=dyn_cast<GlobalAlias>(c)) return constVal(A->getAliasee(),v);
  if(auto*e=dyn_cast<ConstantExpr>(c)){
    u64 x,y; switch(e->getOpcode()){
      case Instruction::GetElementPtr: { APInt o(64,0); if(!cast<GEPOperator>(e)->accumulateConstantOffset(*DL,o)) return false; if(!constVal(e->getOperand(0),x)) return false; v=x+o.getSExtValue(); return true; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if(!constVal(e->getOperand(0),x)) return false; v=x&maskw(widthOf(e->getType())); return true;
      case Instruction::Trunc: if(!constVal(e->getOperand(0),x)) return false; v=x&maskw(widthOf(e->getType())); return true;
      case Instruction::Add: if(constVal(e->getOperand(0),x)&&constVal(e->getOperand(1),y)){v=(x+y)&maskw(widthOf(e->getType()));return true;} return false;
      case Instruction::Sub: if(constVal(e->getOperand(0),x)&&constVal(e->getOperand(1),y)){v=(x-y)&maskw(widthOf(e->getType()));return true;} return false;
      default: return false; } }
  return false; }
static void* g_so=nullptr;
static u64 symAddr(const string&n){ void*p=dlsym(g_so,n.c_str()); if(!p) p=dlsym(RTLD_DEFAULT,n.c_str()); return (u64)p; }

struct Decoder {
  Func*f; std::unordered_map<const Value*,i32> reg; std::map<std::pair<u64,int>,i32> cmap; std::unordered_map<const BasicBlock*,int> bbStart; vector<std::pair<int*,const BasicBlock*>> fix; vector<std::pair<size_t,const BasicBlock*>> fixSw;
  i32 kc(u64 v){ auto it=cmap.find({v,0}); if(it!=cmap.end()) return it->second; f->consts.push_back({v,nullptr}); i32 r=~(i32)(f->consts.size()-1); cmap[{v,0}]=r; return r; }
  bool bad=false;
  i32 opnd(const Value*v,int slot=0){ if(auto*c=dyn_cast<Constant>(v)){ if(c->getType()->isAggregateType()){ // pick scalar element
        int n=0; i32 res=0; bool found=false; std::function<void(const Constant*)> rec=[&](const Constant*k){ if(k->getType()->isAggregateType()){ unsigned m= k->getType()->isStructTy()? k->getType()->getStructNumElements(): k->getType()->getArrayNumElements(); for(unsigned i=0;i<m;i++) rec(k->getAggregateElement(i)); } else { if(n==slot){ u64 x=0; if(!constVal(k,x)) bad=true; res=kc(x); found=true;} n++; } }; rec(c); if(!found) bad=true; return res; }
      u64 x; if(!constVal(c,x)){ bad=true; return 0; } unsigned w=widthOf(c->getType()); return kc(x&maskw(w?w:64)); }
    auto it=reg.find(v); if(it==reg.end()){ bad=true; return 0; } return it->second+slot; }
  Edge edge(const BasicBlock*from,const BasicBlock*to){ Edge e{0,(int)f->moves.size(),0}; for(auto&p:to->phis()){ const Value*v=p.getIncomingValueForBlock(from); int n=slotsOf(p.getType()); for(int s=0;s<n;s++){ i32 src=opnd(v,s),dst=reg[&p]+s; if(src!=dst) f->moves.push_back({dst,src}); } } e.mc=f->moves.size()-e.ms; return e; }
  void run(){
    Function&F=*f->F; int n=0; for(auto&a:F.args()){ reg[&a]=n; n+=1; } f->nargs=n;
    for(auto&b:F) for(auto&i:b) if(!i.getType()->isVoidTy()){ reg[&i]=n; n+=std::max(1,slotsOf(i.getType())); }
    f->nregs=n; f->vararg=F.isVarArg();
    vector<vector<std::pair<Edge*,const BasicBlock*>>> dummy;
    struct Fx{ Edge*e; const BasicBlock*b; }; vector<Fx> fx;
    for(auto&b:F){ bbStart[&b]=f->code.size(); for(auto&i:b){ if(isa<PHINode>(i)||isa<DbgInfoIntrinsic>(i)) continue; Inst x; memset(&x,0,sizeof x); bad=false; 
        x.d= i.getType()->isVoidTy()? -1: reg[&i]; x.w=widthOf(i.getType());
        auto un=[&](const char*why){ x.op=I_UNSUP; string s; raw_string_ostream o(s); i.print(o); x.p=strdup((string(why)+": "+o.str()).c_str()); };
        if(!i.getType()->isVoidTy()&&!i.getType()->isAggregateType()&&!x.w){ un("type"); f->code.push_back(x); continue; }
        if(auto*bo=dyn_cast<BinaryOperator>(&i)){ x.a=opnd(bo->getOperand(0)); x.b=opnd(bo->getOperand(1)); x.op=I_BIN; switch(bo->getOpcode()){
            case Instruction::Add:x.sub=E_ADD;break;case Instruction::Sub:x.sub=E_SUB;break;case Instruction::Mul:x.sub=E_MUL;break;case Instruction::UDiv:x.sub=E_UDIV;break;case Instruction::SDiv:x.sub=E_SDIV;break;case Instruction::URem:x.sub=E_UREM;break;case Instruction::SRem:x.sub=E_SREM;break;case Instruction::Shl:x.sub=E_SHL;break;case Instruction::LShr:x.sub=E_LSHR;break;case Instruction::AShr:x.sub=E_ASHR;break;case Instruction::And:x.sub=E_AND;break;case Instruction::Or:x.sub=E_OR;break;case Instruction::Xor:x.sub=E_XOR;break;
            case Instruction::FAdd:x.op=I_FBIN;x.sub=E_FADD;break;case Instruction::FSub:x.op=I_FBIN;x.sub=E_FSUB;break;case Instruction::FMul:x.op=I_FBIN;x.sub=E_FMUL;break;case Instruction::FDiv:x.op=I_FBIN;x.sub=E_FDIV;break; default: un("binop"); } }
        else if(auto*c=dyn_cast<ICmpInst>(&i)){ x.op=I_ICMP; x.a=opnd(c->getOperand(0)); x.b=opnd(c->getOperand(1)); x.sub=c->getPredicate(); x.w2=widthOf(c->getOperand(0)->getType()); if(!x.w2) un("icmp"); }
        else if(auto*c=dyn_cast<FCmpInst>(&i)){ x.op=I_FCMP; x.a=opnd(c->getOperand(0)); x.b=opnd(c->getOperand(1)); x.sub=c->getPredicate(); x.w2=widthOf(c->getOperand(0)->getType()); if(!x.w2) un("fcmp"); }
        else if(i.getOpcode()==Instruction::FNeg){ x.op=I_FNEG; x.a=opnd(i.getOperand(0)); }
        else if(isa<FreezeInst>(i)){ x.op=I_COPY; x.a=opnd(i.getOperand(0)); }
        else if(auto*c=dyn_cast<CastInst>(&i)){ x.a=opnd(c->getOperand(0)); x.w2=widthOf(c->getOperand(0)->getType()); x.op=I_CAST; x.sub=c->getOpcode(); if(!x.w2) un("cast"); if(c->getOpcode()==Instruction::BitCast||c->getOpcode()==Instruction::IntToPtr||c->getOpcode()==Instruction::PtrToInt){ if(x.w==x.w2) x.op=I_COPY; else x.sub= x.w<x.w2? Instruction::Trunc: Instruction::ZExt; } }
        else if(auto*s=dyn_cast<SelectInst>(&i)){ if(slotsOf(s->getType())!=1){un("select");} else { x.op=I_SELECT; x.a=opnd(s->getCondition()); x.b=opnd(s->getTrueValue()); x.c=opnd(s->getFalseValue()); } }
        else if(auto*l=dyn_cast<LoadInst>(&i)){ if(!x.w) un("load"); else { x.op=I_LOAD; x.a=opnd(l->getPointerOperand()); x.imm=(x.w+7)/8; } }
        else if(auto*s=dyn_cast<StoreInst>(&i)){ x.w=widthOf(s->getValueOperand()->getType()); if(!x.w){ un("store"); } else { x.op=I_STORE; x.a=opnd(s->getPointerOperand()); x.b=opnd(s->getValueOperand()); x.imm=(x.w+7)/8; } }
        else if(auto*g=dyn_cast<GetElementPtrInst>(&i)){ x.op=I_GEP; x.a=opnd(g->getPointerOperand()); auto*gi=new GepI; gi->off=0; for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ const Value*ix=it.getOperand(); if(StructType*st=it.getStructTypeOrNull()) gi->off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) gi->off+=ci->getSExtValue()*(i64)sz; else gi->idx.push_back({(i64)opnd(ix),(i64)widthOf(ix->getType()),(i64)sz}); } } x.p=gi; x.b=gi->idx.size(); x.imm=gi->off; }
        else if(auto*a=dyn_cast<AllocaInst>(&i)){ x.op=I_ALLOCA; x.imm=DL->getTypeAllocSize(a->getAllocatedType()); x.a=opnd(a->getArraySize()); x.c=a->isStaticAlloca(); x.w2=widthOf(a->getArraySize()->getType()); }
        else if(auto*cb=dyn_cast<CallInst>(&i)){ 
          if(cb->isInlineAsm()){ un("asm"); } else { auto*ci=new CallI; ci->cb=cb; Function*cf=cb->getCalledFunction(); if(!cf){ if(auto*al=dyn_cast<GlobalAlias>(cb->getCalledOperand())) cf=dyn_cast<Function>(al->getAliasee()); }
            if(cf){ ci->f=funcs[cf]; auto ov=byName.find("vp_ov_"+cf->getName().str()); if(ov!=byName.end()&&ov->second!=f) ci->f=ov->second; } else ci->fn=opnd(cb->getCalledOperand());
            for(unsigned k=0;k<cb->arg_size();k++){ auto*t=cb->getArgOperand(k)->getType(); if(t->isMetadataTy()){ ci->args.push_back(kc(0)); ci->argw.push_back(64); ci->argf.push_back(0); ci->byval.push_back(0); continue; } ci->args.push_back(opnd(cb->getArgOperand(k))); unsigned w=widthOf(t); ci->argw.push_back(w); ci->argf.push_back(t->isFloatingPointTy()); ci->byval.push_back(cb->isByValArgument(k)? DL->getTypeAllocSize(cb->getParamByValType(k)):0); if(!w) bad=true; }
            ci->nfixed=cb->getFunctionType()->getNumParams(); ci->retw=widthOf(i.getType()); ci->retf=i.getType()->isFloatingPointTy(); ci->slots=slotsOf(i.getType()); x.op=I_CALL; x.p=ci; } }
        else if(auto*r=dyn_cast<ReturnInst>(&i)){ x.op=I_RET; if(r->getReturnValue()){ int s=slotsOf(r->getReturnValue()->getType()); x.b=s; auto*ag=new AggI; for(int k=0;k<s;k++) ag->copies.push_back({k,opnd(r->getReturnValue(),k)}); x.p=ag; } else x.b=0; }
        else if(auto*br=dyn_cast<BranchInst>(&i)){ if(br->isConditional()){ x.op=I_CBR; x.a=opnd(br->getCondition()); auto*e=new Edge[2]; e[0]=edge(&b,br->getSuccessor(0)); e[1]=edge(&b,br->getSuccessor(1)); fx.push_back({&e[0],br->getSuccessor(0)}); fx.push_back({&e[1],br->getSuccessor(1)}); x.p=e; } else { x.op=I_BR; auto*e=new Edge(edge(&b,br->getSuccessor(0))); fx.push_back({e,br->getSuccessor(0)}); x.p=e; } }
        else if(auto*sw=dyn_cast<SwitchInst>(&i)){ x.op=I_SWITCH; x.a=opnd(sw->getCondition()); auto*si=new SwitchI; si->w=widthOf(sw->getCondition()->getType()); si->def=edge(&b,sw->getDefaultDest()); si->cases.reserve(sw->getNumCases()); for(auto&c:sw->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(),edge(&b,c.getCaseSuccessor())}); fx.push_back({&si->def,sw->getDefaultDest()}); size_t k=0; for(auto&c:sw->cases()) fx.push_back({&si->cases[k++].second,c.getCaseSuccessor()}); 
          if(si->cases.size()>4){ u64 lo=~0ULL,hi=0; for(auto&c:si->cases){lo=std::min(lo,c.first);hi=std::max(hi,c.first);} if(hi-lo<4096){ si->lo=lo; si->table.assign(hi-lo+1,-1); for(size_t q=0;q<si->cases.size();q++) si->table[si->cases[q].first-lo]=q; } } x.p=si; x.w2=si->w; if(!si->w) un("switch"); }
        else if(isa<UnreachableInst>(i)) x.op=I_UNREACH;
        else if(auto*ev=dyn_cast<ExtractValueInst>(&i)){ x.op=I_AGG; auto*ag=new AggI; int o=slotOff(ev->getAggregateOperand()->getType(),ev->getIndices()); int n=slotsOf(i.getType()); for(int k=0;k<n;k++) ag->copies.push_back({x.d+k,opnd(ev->getAggregateOperand(),o+k)}); x.p=ag; }
        else if(auto*iv=dyn_cast<InsertValueInst>(&i)){ x.op=I_AGG; auto*ag=new AggI; int o=slotOff(i.getType(),iv->getIndices()),n=slotsOf(iv->getInsertedValueOperand()->getType()),t=slotsOf(i.getType()); for(int k=0;k<t;k++) ag->copies.push_back({x.d+k, k>=o&&k<o+n? opnd(iv->getInsertedValueOperand(),k-o): opnd(iv->getAggregateOperand(),k)}); x.p=ag; }
        else un("instruction");
        if(bad&&x.op!=I_UNSUP) un("operand");
        f->code.push_back(x); } }
    for(auto&q:fx) q.e->target=bbStart[q.b];
    f->decoded=true;
  }
};
static void decode(Func*f){ if(f->decoded||f->isDecl) return; Decoder d; d.f=f; d.run(); }

// ------------------------------------------------------------------ path state
struct Input { string name; u64 n; vector<Expr*> bytes; };
static vector<Expr*> g_pc; static Model g_model; static vector<Input> g_inputs; static vector<Val> g_obs; static u64 g_instr=0; static int g_concs=0; static bool g_tok=false; static u64 g_instrReported=0;
static vector<string> g_notes; static std::set<string> g_reach; static std::set<string> g_must;
enum Mode { MODE_SETUP, MODE_REPLAY, MODE_SYM }; static Mode g_mode=MODE_SETUP;
static vector<std::pair<string,string>> g_replayIn; static size_t g_replayPos=0; static vector<u64> g_replayObs; static string g_replayFail;

static string hex(const string&s){ static const char*h="0123456789abcdef"; string o; for(unsigned char c:s){o+=h[c>>4];o+=h[c&15];} return o; }
static string unhex(const string&s){ string o; for(size_t i=0;i+1<s.size();i+=2) o+=(char)strtol(s.substr(i,2).c_str(),0,16); return o; }
static string jesc(const string&s){ string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;} else o+=c; } return o; }
static void flushStats(){ JS->instrs+=g_instr-g_instrReported; g_instrReported=g_instr; JS->queries+=g_sstats.queries; JS->sat+=g_sstats.sat; JS->unsat+=g_sstats.unsat; JS->unknown+=g_sstats.unknown; JS->fallback+=g_sstats.fallback; JS->cachehits+=g_sstats.cachehits; JS->us+=g_sstats.us; JS->xchecked+=g_sstats.xchecked; JS->xdisagree+=g_sstats.xdisagree; JS->finite+=g_sstats.finite; g_sstats=SolverStats{}; }
struct Frame { Func*f; Val*r; int pc; u64 sp; i32 dst; int slots; size_t nst; u64 va; };
static vector<Frame> g_fr; static Val* g_rs; static size_t g_rsTop=0; static u64 g_sp=STACKB+64; struct SObj{u64 a,n;}; static vector<SObj> g_stObjs;
// cooperative threads of the code under test: each has its own frames, registers and native stack; only one runs
struct Fib{ vector<Frame> fr; size_t rsTop=0; u64 sp=0; vector<SObj> so; bool done=false; }; static std::deque<Fib> g_fibs; static int g_curFib=0,g_switchTo=-1;
static string btrace(){ string s; int n=0; for(size_t i=g_fr.size();i-->0&&n<14;n++){ if(n) s+=" < "; s+=g_fr[i].f->name; } return s; }
[[noreturn]] static void endProc(int code=0){ flushStats(); if(g_tok){ sem_post(&SH->tokens); g_tok=false; } JS->live--; _exit(code); }
static void writeRec(const char*status,const string&msg){
  string o=string("{\"job\":\"")+g_jobName+"\",\"status\":\""+status+"\",\"msg\":\""+jesc(msg)+"\",\"trace\":\""+jesc(btrace())+"\",\"inputs\":["; bool first=true;
  for(auto&i:g_inputs){ string b; for(Expr*e:i.bytes) b+=(char)evalExpr(e,g_model); if(!first) o+=","; first=false; o+="[\""+jesc(i.name)+"\",\""+hex(b)+"\"]"; }
  o+="],\"obs\":["; first=true; for(auto&v:g_obs){ if(!first) o+=","; first=false; o+=std::to_string(v.e? evalExpr(v.e,g_model): v.v); }
  o+="],\"reach\":["; first=true; for(auto&r:g_reach){ if(!first)o+=","; first=false; o+="\""+jesc(r)+"\""; }
  o+="],\"must\":["; first=true; for(auto&r:g_must){ if(!first)o+=","; first=false; o+="\""+jesc(r)+"\""; }
  o+="],\"conc\":"+std::to_string(g_concs)+",\"instr\":"+std::to_string(g_instr)+",\"npc\":"+std::to_string(g_pc.size())+"}\n";
  if(write(g_recFd,o.data(),o.size())<0) _exit(72); }
[[noreturn]] static void endPath(const char*status,const string&msg){
  if(!strcmp(status,"ok")) JS->paths++; else if(!strcmp(status,"violation")) JS->viol++; else if(!strcmp(status,"unsupported")) JS->unsup++; else if(!strcmp(status,"trunc")) JS->trunc++; else JS->dead++;
  if(strcmp(status,"dead")) writeRec(status,msg); endProc(); }
[[noreturn]] static void violation(const string&m){ endPath("violation",m); }
[[noreturn]] static void unsupported(const string&m){ endPath("unsupported",m); }
static void takeToken(){ while(sem_wait(&SH->tokens)&&errno==EINTR); g_tok=true; if(SH->stop) endPath("trunc","time budget"); }
// Variables that the path condition pins to one value (exact while there are at most 64 variables): expressions over
// them only are replaced by their value. Variables of at most 8 bits are tracked by their set of remaining values.
static u64 g_fixed=0; struct Dom{ u64 b[4]; bool init; }; static Dom g_dom[64];
static inline bool isFixed(Expr*e){ return !(e->vars&~g_fixed)&&g_fixed&&g_vars.size()<=64; }
static void narrow(Expr*e){ u64 m=e->vars; if(!m||(m&(m-1))||g_vars.size()>64||(m&g_fixed)) return; unsigned k=__builtin_ctzll(m); if(k>=g_vars.size()) return; unsigned w=g_vars[k].w;
  if(e->op==E_EQ&&((e->a->op==E_VAR&&isC(e->b))||(e->b->op==E_VAR&&isC(e->a)))){ g_fixed|=m; return; }
  if(w>8||e->fp||e->size>2000) return; Dom&d=g_dom[k]; if(!d.init){ d.init=true; for(unsigned i=0;i<4;i++) d.b[i]= w>=(i?8u:6u)? ~0ULL: i? 0: maskw(1u<<w); if(w==7) d.b[1]=~0ULL; }
  Model t=g_model; if(t.v.size()<g_vars.size()) t.v.resize(g_vars.size(),0); unsigned n=0; for(unsigned x=0;x<(1u<<w);x++) if(d.b[x>>6]>>(x&63)&1){ t.v[k]=x; evalReset(); if(evalExpr(e,t)) n++; else d.b[x>>6]&=~(1ULL<<(x&63)); } evalReset(); if(n==1) g_fixed|=m; }
static void addPc(Expr*e){ if(isC(e)) return; if(e->op==E_AND&&e->w==1){ addPc(e->a); addPc(e->b); return; } if(e->op==E_XOR&&e->w==1&&isC(e->b)&&e->b->k&&e->a->op==E_OR){ addPc(mkNot(e->a->a)); addPc(mkNot(e->a->b)); return; } for(Expr*x:g_pc) if(x==e) return; g_pc.push_back(e); narrow(e); }
static void report(const Model&m,const string&msg){ // emit a violation for model m without ending this path
  pid_t p=fork(); if(p<0){ violation(msg); } if(!p){ g_tok=false; JS->live++; g_instrReported=g_instr; g_sstats=SolverStats{}; g_model=m; evalReset(); violation(msg); } int st; waitpid(p,&st,0); }
// equalities that follow from the path condition's equalities and inequalities by symmetry and transitivity
static void eqClass(Expr*x,vector<Expr*>&c){ c.push_back(x); for(size_t i=0;i<c.size()&&c.size()<64;i++) for(Expr*e:g_pc) if(e->op==E_EQ&&e->w==1){ Expr*o= e->a==c[i]? e->b: e->b==c[i]? e->a: nullptr; if(o){ bool in=false; for(Expr*q:c) if(q==o){in=true;break;} if(!in) c.push_back(o); } } }
static bool eqKnown(Expr*x,Expr*y,bool&v){ static vector<Expr*> a,b; a.clear(); b.clear(); eqClass(x,a); for(Expr*q:a) if(q==y){ v=true; return true; } eqClass(y,b);
  if(a.size()==1&&b.size()==1) return false; auto has=[](vector<Expr*>&s,Expr*e){ for(Expr*q:s) if(q==e) return true; return false; };
  Expr*ka=nullptr,*kb=nullptr; for(Expr*q:a) if(isC(q)) ka=q; for(Expr*q:b) if(isC(q)) kb=q; if(ka&&kb){ v= ka->k==kb->k; return true; }
  for(Expr*e:g_pc){ Expr*n=mkNot(e); if(n->op==E_EQ&&n->w==1&&((has(a,n->a)&&has(b,n->b))||(has(a,n->b)&&has(b,n->a)))){ v=false; return true; } } return false; }
static bool pathKnown(Expr*c,bool&v){ Expr*n=mkNot(c); for(Expr*x:g_pc){ if(x==c){v=true;return true;} if(x==n){v=false;return true;} }
  if(g_pc.size()>400) return false; if(c->op==E_EQ) return eqKnown(c->a,c->b,v); if(n->op==E_EQ){ if(eqKnown(n->a,n->b,v)){ v=!v; return true; } } return false; }
static bool g_hang=false; // exceeding the instruction budget is a violation
static bool g_forkPtr=false; // explore the two values of a select or truth value separately where it would become part of an address
// a fact the path condition implies is recorded when it pins a variable to a value
static void pinImplied(Expr*f){ if(f->op==E_EQ&&f->w==1&&((isC(f->b)&&!isC(f->a))||(isC(f->a)&&!isC(f->b)))) addPc(f); }
// both sides of a symbolic condition are explored; returns the side this process takes
static bool forkOn(Expr*c){
  if(isC(c)) return c->k; if(isFixed(c)) return evalExpr(c,g_model); bool kv; if(pathKnown(c,kv)){ pinImplied(kv? c: mkNot(c)); return kv; }
  if(SH->stop||(g_deadline&&now()>g_deadline)) endPath("trunc","time budget");
  static const char*tf=getenv("VP_FORKS"); double t0f=tf? now(): 0; bool v=evalExpr(c,g_model); Expr*other=v? mkNot(c): c; Model m2=g_model; SatRes r=solve(g_pc,other,m2); evalReset();
  if(tf) fprintf(stderr,"BRANCH %d %.3f %s\n",(int)r,now()-t0f,btrace().substr(0,200).c_str()); if(tf&&*tf=='2'&&g_pc.size()<40){ vector<Expr*> q=g_pc; q.push_back(other); fprintf(stderr,"%s\n",toSmt(q).c_str()); }
  if(r==R_UNSAT){ pinImplied(v? c: mkNot(c)); return v; }
  if(r==R_UNKNOWN){ JS->inconclusive++; addPc(v? c: mkNot(c)); return v; }
  JS->forks++; JS->live++; bool serial=SH->waiting>300;
  if(!serial) SH->waiting++;
  pid_t p=fork();
  if(p<0){ JS->errors++; if(!serial) SH->waiting--; JS->live--; addPc(v? c: mkNot(c)); return v; }
  if(!p){ g_instrReported=g_instr; g_sstats=SolverStats{}; if(serial){ /* inherits the parent's token */ } else { g_tok=false; takeToken(); SH->waiting--; } g_model=m2; evalReset(); addPc(other); return !v; }
  if(serial){ int st; waitpid(p,&st,0); takeToken(); }
  addPc(v? c: mkNot(c)); return v; }
// a fresh unconstrained variable takes every value below n: each is feasible, so no query is needed
static u64 forkChoice(Expr*v,u64 n){
  for(u64 i=1;i<n;i++){
    if(SH->stop||(g_deadline&&now()>g_deadline)) endPath("trunc","time budget");
    JS->forks++; JS->live++; bool serial=SH->waiting>300; if(!serial) SH->waiting++;
    pid_t p=fork();
    if(p<0){ JS->errors++; if(!serial) SH->waiting--; JS->live--; continue; }
    if(!p){ g_instrReported=g_instr; g_sstats=SolverStats{}; if(!serial){ g_tok=false; takeToken(); SH->waiting--; } { if(g_model.v.size()<=v->k) g_model.v.resize(v->k+1,0); g_model.v[v->k]=i; } evalReset(); addPc(mkCmp(E_EQ,v,mkConst(i,v->w))); return i; }
    if(serial){ int st; waitpid(p,&st,0); takeToken(); } }
  { if(g_model.v.size()<=v->k) g_model.v.resize(v->k+1,0); g_model.v[v->k]=0; } evalReset(); addPc(mkCmp(E_EQ,v,mkConst(0,v->w))); return 0; }
static void assume(Expr*c){ if(isC(c)){ if(!c->k) endPath("dead",""); return; } if(!evalExpr(c,g_model)){ Model m2=g_model; SatRes r=solve(g_pc,c,m2); evalReset(); if(r==R_UNSAT) endPath("dead",""); if(r==R_UNKNOWN){ JS->inconclusive++; endPath("trunc","assumption undecided"); } g_model=m2; } addPc(c); }
static void check(Expr*c,const string&msg){ // c must hold for every value on this path
  JS->asserts++; if(isFixed(c)) c=mkConst(evalExpr(c,g_model),1); if(isC(c)){ if(!c->k) violation(msg); JS->discharged++; return; } bool kv; if(pathKnown(c,kv)&&kv){ JS->discharged++; return; }
  if(!evalExpr(c,g_model)){ Model m=g_model; Model m2=g_model; report(m,msg); SatRes r=solve(g_pc,c,m2); evalReset(); if(r!=R_SAT) endPath("dead",""); g_model=m2; addPc(c); return; }
  Model m2=g_model; SatRes r=solve(g_pc,mkNot(c),m2); evalReset(); if(r==R_UNSAT){ JS->discharged++; return; } if(r==R_UNKNOWN){ JS->inconclusive++; addPc(c); return; } report(m2,msg); addPc(c); }
// fix e to its value in the current model, exploring every other value by forking (up to a limit)
static u64 enumerate(Expr*e,int limit=300){ if(isC(e)) return e->k; if(isFixed(e)) return evalExpr(e,g_model); for(int i=0;i<limit;i++){ u64 v=evalExpr(e,g_model); if(forkOn(mkCmp(E_EQ,e,mkConst(v,e->w)))) return v; if(isC(e)) return e->k; } endPath("trunc","more than "+std::to_string(limit)+" values of an address, length or call target"); }
static u64 concretize(Expr*e){ if(isC(e)) return e->k; u64 v=evalExpr(e,g_model); addPc(mkCmp(E_EQ,e,mkConst(v,e->w))); g_concs++; JS->conc++; return v; }

// ------------------------------------------------------------------ memory access
static bool globalOk(u64 a,u64 n){ auto it=std::upper_bound(g_globals.begin(),g_globals.end(),a,[](u64 x,const GObj&o){return x<o.a;}); if(it==g_globals.begin()) return false; --it; return a+n<=it->a+it->n; }
static u64 g_soLo=0,g_soHi=0;
static string descAddr(u64 a){ char b[200]; Obj*o=findHeap(a); if(o) snprintf(b,200,"0x%llx: offset %lld of a %s heap block of %llu bytes",(unsigned long long)a,(long long)(a-o->base),o->alive?"live":"freed",(unsigned long long)(o->ssize? evalExpr(o->ssize,g_model): o->size)); else snprintf(b,200,"0x%llx",(unsigned long long)a); return b; }
// checks [a,a+n) for the current path; forks or reports when the object's size is symbolic
static void checkRange0(u64 a,u64 n,const char*what){
  if(!n) return;
  if(a>=ARENA&&a<ARENA+ARENA_SZ){ if(!shadowOk(a,n)){ if(g_symBytes&&0) {} violation(string("invalid ")+what+" of "+std::to_string(n)+" bytes at "+descAddr(a)); } return; }
  if(a>=BIGB&&a<BIGE){ Obj*o=findHeap(a); if(!o||!o->alive||a<o->base) violation(string("invalid ")+what+" at "+descAddr(a)); u64 off=a-o->base; if(o->ssize){ Expr*need=mkConst(off+n,64); Expr*ok=mkCmp(E_ULE,need,mkZext(o->ssize,64)); if(!isC(ok)||!ok->k) check(ok,string("invalid ")+what+" of "+std::to_string(n)+" bytes at "+descAddr(a)+" (symbolic size)"); if(off+n> o->size) violation("access beyond reserved capacity"); } else if(off+n>o->size) violation(string("invalid ")+what+" of "+std::to_string(n)+" bytes at "+descAddr(a)); return; }
  if(a<65536) violation(string("invalid ")+what+" at address "+std::to_string(a)+" (null pointer dereference)");
  if(a>=g_soLo&&a<g_soHi){ if(!globalOk(a,n)) violation(string("invalid ")+what+" outside a global object"); return; }
  if(a<0x500000000000ULL||a>=0x7fffffffffffULL) violation(string("invalid ")+what+" at wild address "+descAddr(a));
}
static inline bool isBig(u64 a){ return a>=BIGB&&a<BIGE; }
static void bigDirty(u64 a,u64 n){ Obj*o=findHeap(a); if(!o||!o->x) return; BigX*x=o->x; u64 lo=a-o->base,hi=lo+n; for(auto&d:x->dirty) if(lo>=d.first&&hi<=d.second) return; else if(lo==d.second){ d.second=hi; if(hi-d.first>512) x->dense=true; return; } if(n>512||x->dirty.size()>=48) x->dense=true; else x->dirty.push_back({lo,hi}); }
static Expr* symLoad(u64 a,unsigned n){ // n<=8 bytes, at least one symbolic
  Expr*r=nullptr; unsigned i=0; while(i<n){ SymByte*s=symAt(a+i,false); if(s&&s->e){ unsigned k=1; while(i+k<n){ SymByte*t=symAt(a+i+k,false); if(t&&t->e==s->e&&t->i==s->i+k&&(t->i+1)*8<=s->e->w) k++; else break; } unsigned lo=s->i*8,w=std::min<unsigned>(k*8,s->e->w-lo); Expr*p=mkExtract(s->e,lo,w); if(w<k*8) p=mkZext(p,k*8); r= r? mkConcat(p,r): p; i+=k; } else { u64 v=*(u8*)(a+i); unsigned k=1; while(i+k<n){ SymByte*t=symAt(a+i+k,false); if(t&&t->e) break; v|=(u64)*(u8*)(a+i+k)<<(8*k); k++; } Expr*p=mkConst(v,k*8); r= r? mkConcat(p,r): p; i+=k; } }
  return r; }
static Val rawLoad(u64 a,unsigned n,unsigned w){ if(maySym(a,n)&&rangeHasSym(a,n)){ Expr*e=symLoad(a,n); if(e->w>w) e=mkExtract(e,0,w); if(isC(e)) return {e->k,nullptr}; if(isFixed(e)) return {evalExpr(e,g_model),nullptr}; return {0,e}; }
  u64 v=0; switch(n){case 1:v=*(u8*)a;break;case 2:{uint16_t t;memcpy(&t,(void*)a,2);v=t;break;}case 4:{u32 t;memcpy(&t,(void*)a,4);v=t;break;}case 8:memcpy(&v,(void*)a,8);break;default:memcpy(&v,(void*)a,n);} return {v&maskw(w),nullptr}; }
static void rawStore(u64 a,unsigned n,Val v){ if(isBig(a)) bigDirty(a,n);
  if(v.e){ Expr*e=v.e; if(e->w<n*8) e=mkZext(e,n*8); g_symBytes+=n; for(unsigned i=0;i<n;i++){ SymByte*s=symAt(a+i,true); s->e=e; s->i=i; *(u8*)(a+i)=0x5A; }
    // constant bytes stay concrete
    for(unsigned i=0;i<n;i++){ Expr*b=mkExtract(e,8*i,8); if(isC(b)){ symAt(a+i,true)->e=nullptr; *(u8*)(a+i)=b->k; } } return; }
  if(maySym(a,n)) clearSym(a,n);
  switch(n){case 1:*(u8*)a=v.v;break;case 2:{uint16_t t=v.v;memcpy((void*)a,&t,2);break;}case 4:{u32 t=v.v;memcpy((void*)a,&t,4);break;}case 8:memcpy((void*)a,&v.v,8);break;default:memcpy((void*)a,&v.v,n);} }
static bool objAt(u64 a,u64&base,u64&size,Expr*&ss){ ss=nullptr; if((a>=BIGB&&a<BIGE)||(a>=ARENA&&a<ARENA+HEAP_SZ)){ Obj*o=findHeap(a); if(!o||!o->alive||a<o->base) return false; base=o->base; size=o->size; ss=o->ssize; if(!ss&&a>=base+size) return false; if(ss&&a>=base+evalExpr(mkZext(ss,64),g_model)) return false; return true; }
  if(a>=STACKB&&a<STACKB+STACK_SZ){ for(size_t i=g_stObjs.size();i-->0;) if(a>=g_stObjs[i].a&&a<g_stObjs[i].a+g_stObjs[i].n){ base=g_stObjs[i].a; size=g_stObjs[i].n; return true; } for(auto&fb:g_fibs) for(auto&o:fb.so) if(a>=o.a&&a<o.a+o.n){ base=o.a; size=o.n; return true; } return false; }
  auto it=std::upper_bound(g_globals.begin(),g_globals.end(),a,[](u64 x,const GObj&o){return x<o.a;}); if(it!=g_globals.begin()){ --it; if(a<it->a+it->n){ base=it->a; size=it->n; return true; } } return false; }
// Resolves a symbolic address to one object (forking when several are possible) with bounds assumed.
static void resolveObj(Expr*e,unsigned n,const char*what,u64&base,u64&size,Expr*&ss){
  for(int tries=0;tries<200;tries++){
    if(isC(e)){ base=e->k; size=n; ss=nullptr; checkRange0(e->k,n,what); return; }
    u64 a=evalExpr(e,g_model);
    if(!objAt(a,base,size,ss)){ checkRange0(a,n,what); violation(string("invalid ")+what+" at symbolic address, e.g. "+descAddr(a)); }
    Expr*off=mkBin(E_SUB,e,mkConst(base,64)); Expr*inb; JS->memchecks++;
    if(ss){ Expr*s64=mkZext(ss,64); inb=mkBin(E_AND,mkCmp(E_ULE,mkConst(n,64),s64),mkCmp(E_ULE,off,mkBin(E_SUB,s64,mkConst(n,64)))); }
    else { if(size<n) violation(string("invalid ")+what+" of "+std::to_string(n)+" bytes at "+descAddr(a)); inb=mkCmp(E_ULE,off,mkConst(size-n,64)); }
    if(forkOn(inb)) return; }
  endPath("trunc","too many objects for one address"); }
static Obj* bigObj(u64 base){ return isBig(base)? findHeap(base): nullptr; }
static void bigFlush(Obj*o){ BigX*x=o->x; if(!x||x->log.empty()) return; auto l=x->log; x->log.clear(); for(auto&w:l){ u64 f=enumerate(w.off,64); rawStore(o->base+f,w.n,isC(w.v)? Val{w.v->k,nullptr}: Val{0,w.v}); } }
static bool bigLoad(Obj*o,Expr*off,unsigned n,unsigned w,Val&out){ BigX*x=o->x; Expr*cur;
  if(isC(off)){ Val v=rawLoad(o->base+off->k,n,n*8); cur=v.e? v.e: mkConst(v.v,n*8); }
  else { if(x->dense||(1u<<std::min(trailingZeros(off),6u))<n) return false; cur=mkConst(0,n*8); size_t slots=0; for(auto&d:x->dirty) for(u64 k=d.first&~(u64)(n-1);k<d.second;k+=n){ if(slots++>96) return false; Val v=rawLoad(o->base+k,n,n*8); cur=mkIte(mkCmp(E_EQ,off,mkConst(k,64)),v.e? v.e: mkConst(v.v,n*8),cur); } }
  for(auto&q:x->log){ if(q.n==n){ unsigned ta=1u<<std::min(trailingZeros(q.off),6u),tb=1u<<std::min(trailingZeros(off),6u); if(ta<n||tb<n){ if(!(isC(q.off)&&isC(off))) return false; if(q.off->k!=off->k&&q.off->k<off->k+n&&off->k<q.off->k+n) return false; } cur=mkIte(mkCmp(E_EQ,off,q.off),q.v,cur); continue; }
    Expr*dis=mkBin(E_OR,mkCmp(E_ULE,mkBin(E_ADD,off,mkConst(n,64)),q.off),mkCmp(E_ULE,mkBin(E_ADD,q.off,mkConst(q.n,64)),off)); if(!forkOn(dis)) return false; }
  if(cur->w>w) cur=mkExtract(cur,0,w); out= isC(cur)? Val{cur->k,nullptr}: Val{0,cur}; return true; }
static Val loadMem(Val addr,unsigned n,unsigned w){ if(addr.e&&isFixed(addr.e)) addr={evalExpr(addr.e,g_model),nullptr};
  if(!addr.e){ u64 a=addr.v; if(a>=ARENA&&a<ARENA+ARENA_SZ){ if(!shadowOk(a,n)) checkRange0(a,n,"read"); } else { checkRange0(a,n,"read"); if(isBig(a)){ Obj*o=bigObj(a); if(o&&o->x&&!o->x->log.empty()){ Val r; if(bigLoad(o,mkConst(a-o->base,64),n,w,r)) return r; bigFlush(o); } } } return rawLoad(a,n,w); }
  Expr*e=addr.e; u64 base,size; Expr*ss; resolveObj(e,n,"read",base,size,ss); if(isC(e)) return loadMem({e->k,nullptr},n,w);
  Expr*off=mkBin(E_SUB,e,mkConst(base,64)); if(isC(off)) return loadMem({base+off->k,nullptr},n,w);
  if(Obj*o=bigObj(base)) if(o->x){ Val r; if(n<=8&&(n&(n-1))==0&&bigLoad(o,off,n,w,r)) return r; bigFlush(o); }
  unsigned tz=std::min(trailingZeros(off),6u); u64 step=1ULL<<tz; u64 hi=std::min<u64>(off->umax,size-n),lo=(off->umin+step-1)&~(step-1);
  if(ss||(hi-lo)/step+1>520){ // narrow the feasible range by asking the solver for the values
    u64 a=enumerate(e,64); return rawLoad(a,n,w); }
  // group equal neighbours
  struct Run{u64 lo; Expr*v;}; vector<Run> runs; for(u64 o=lo;o<=hi;o+=step){ Val v=rawLoad(base+o,n,w); Expr*x=v.e? v.e: mkConst(v.v,w); if(runs.empty()||runs.back().v!=x) runs.push_back({o,x}); }
  Expr*r=runs[0].v; for(size_t i=1;i<runs.size();i++){ r=mkIte(mkCmp(E_ULT,off,mkConst(runs[i].lo,64)),r,runs[i].v); }
  if(runs.size()>8){ // balanced tree
    std::function<Expr*(size_t,size_t)> bal=[&](size_t a,size_t b)->Expr*{ if(b-a==1) return runs[a].v; size_t m=(a+b)/2; return mkIte(mkCmp(E_ULT,off,mkConst(runs[m].lo,64)),bal(a,m),bal(m,b)); }; r=bal(0,runs.size()); }
  if(isC(r)) return {r->k,nullptr}; if(isFixed(r)) return {evalExpr(r,g_model),nullptr}; return {0,r}; }
static void storeMem(Val addr,unsigned n,Val v){ if(addr.e&&isFixed(addr.e)) addr={evalExpr(addr.e,g_model),nullptr}; if(v.e&&isFixed(v.e)) v={evalExpr(v.e,g_model),nullptr};
  if(!addr.e){ u64 a=addr.v; if(a>=ARENA&&a<ARENA+ARENA_SZ){ if(!shadowOk(a,n)) checkRange0(a,n,"write"); } else { checkRange0(a,n,"write"); if(isBig(a)){ Obj*o=bigObj(a); if(o&&o->x&&!o->x->log.empty()){ if(n<=8&&(n&(n-1))==0&&o->x->log.size()<48){ Expr*nv=v.e? v.e: mkConst(v.v,n*8); if(nv->w<n*8) nv=mkZext(nv,n*8); o->x->log.push_back({mkConst(a-o->base,64),n,nv}); return; } bigFlush(o); } } } rawStore(a,n,v); return; }
  Expr*e=addr.e; u64 base,size; Expr*ss; resolveObj(e,n,"write",base,size,ss); if(isC(e)){ storeMem({e->k,nullptr},n,v); return; }
  Expr*off=mkBin(E_SUB,e,mkConst(base,64)); if(isC(off)){ storeMem({base+off->k,nullptr},n,v); return; }
  if(Obj*o=bigObj(base)) if(o->x){ if(n<=8&&(n&(n-1))==0&&(1u<<std::min(trailingZeros(off),6u))>=n&&o->x->log.size()<48){ Expr*nv=v.e? v.e: mkConst(v.v,n*8); if(nv->w<n*8) nv=mkZext(nv,n*8); o->x->log.push_back({off,n,nv}); return; } bigFlush(o); }
  unsigned tz=std::min(trailingZeros(off),6u); u64 step=1ULL<<tz; u64 hi=std::min<u64>(off->umax,size-n),lo=(off->umin+step-1)&~(step-1);
  if(ss||(hi-lo)/step+1>64||step<n){ u64 a=enumerate(e,64); rawStore(a,n,v); return; }
  Expr*nv=v.e? v.e: mkConst(v.v,n*8); if(nv->w<n*8) nv=mkZext(nv,n*8);
  for(u64 o=lo;o<=hi;o+=step){ Val old=rawLoad(base+o,n,n*8); Expr*x=mkIte(mkCmp(E_EQ,off,mkConst(o,64)),nv,old.e? old.e: mkConst(old.v,n*8)); rawStore(base+o,n,isC(x)? Val{x->k,nullptr}: Val{0,x}); } }
static void checkRange(u64 a,u64 n,const char*what){ checkRange0(a,n,what); if(isBig(a)) if(Obj*o=bigObj(a)) bigFlush(o); }
static void copyMem(u64 d,u64 s,u64 n){ // memmove including the shadow
  if(!n||d==s) return; bool sym=rangeHasSym(s,n); vector<SymByte> tmp; if(sym){ tmp.resize(n); for(u64 i=0;i<n;i++){ SymByte*b=symAt(s+i,false); tmp[i]= b? *b: SymByte{nullptr,0}; } }
  if(isBig(d)) bigDirty(d,n); memmove((void*)d,(void*)s,n); clearSym(d,n); if(sym) for(u64 i=0;i<n;i++) if(tmp[i].e){ *symAt(d+i,true)=tmp[i]; g_symBytes++; } }

struct Interp { };
// ------------------------------------------------------------------ native calls
typedef u64 (*NF)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double,u64,u64,u64,u64,u64,u64,...);
typedef double (*NFD)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double,u64,u64,u64,u64,u64,u64,...);
static Val nativeCall(void*fn,CallI&c,Val*args){
  u64 I[6]={0},S[6]={0}; double D[8]={0}; int ni=0,nd=0,ns=0; for(size_t k=0;k<c.args.size();k++){ u64 v=args[k].v; if(c.argf[k]){ if(nd<8) memcpy(&D[nd++],&v,8); else S[ns++]=v; } else { if(c.argw[k]<64&&c.argw[k]>=8) v=(u64)sx(v,c.argw[k]); if(ni<6) I[ni++]=v; else if(ns<6) S[ns++]=v; else unsupported("too many arguments"); } }
  Val r{0,nullptr}; if(c.retf){ double d=((NFD)fn)(I[0],I[1],I[2],I[3],I[4],I[5],D[0],D[1],D[2],D[3],D[4],D[5],D[6],D[7],S[0],S[1],S[2],S[3],S[4],S[5]); memcpy(&r.v,&d,8); } else r.v=((NF)fn)(I[0],I[1],I[2],I[3],I[4],I[5],D[0],D[1],D[2],D[3],D[4],D[5],D[6],D[7],S[0],S[1],S[2],S[3],S[4],S[5]);
  r.v&=maskw(c.retw?c.retw:64); return r; }
static Expr* ex(Val v,unsigned w){ return v.e? v.e: mkConst(v.v,w); }
static Val mk(Expr*e){ if(isFixed(e)) return {evalExpr(e,g_model),nullptr}; return isC(e)? Val{e->k,nullptr}: Val{0,e}; }
static u64 conc(Val v){ return v.e? enumerate(v.e): v.v; }
static u64 cstrlenChecked(u64 p){ u64 n=0; for(;;n++){ checkRange(p+n,1,"read"); if(*(u8*)(p+n)==0&&!(maySym(p+n,1)&&rangeHasSym(p+n,1))) return n; if(n>100000000) unsupported("string too long"); } }
static string cstr(u64 p){ return string((char*)p); }
#include "handlers.inc"

// ------------------------------------------------------------------ the interpreter loop
static inline Val get(Frame&f,i32 i){ if(i<0) return f.f->consts[~i]; Val&v=f.r[i]; if(v.e&&isFixed(v.e)) v={evalExpr(v.e,g_model),nullptr}; return v; }
static void pushFrame(Func*f,i32 dst,int slots){ if(!f->decoded) decode(f); if(g_rsTop+f->nregs>(1ULL<<27)) violation("call stack exhausted"); g_fr.push_back({f,g_rs+g_rsTop,0,g_sp,dst,slots,g_stObjs.size(),0}); memset(g_rs+g_rsTop,0,sizeof(Val)*f->nregs); g_rsTop+=f->nregs; if(g_fr.size()>200000) violation("unbounded recursion"); SH->fnHit[f->idx&0xffff]=1; }
static u64 stackAlloc(u64 n){ u64 a=(g_sp+16+15)&~15ULL; g_sp=a+((n+15)&~15ULL)+16; if(g_sp>STACKB+STACK_SZ) violation("native stack exhausted"); stackMark(a,n,true); g_stObjs.push_back({a,n}); return a; }
static void popFrame(){ Frame&f=g_fr.back(); while(g_stObjs.size()>f.nst){ SObj&o=g_stObjs.back(); stackMark(o.a,o.n,false); clearSym(o.a,o.n); g_stObjs.pop_back(); } g_sp=f.sp; g_rsTop-=f.f->nregs; g_fr.pop_back(); }
static void fibSave(int k){ Fib&b=g_fibs[k]; b.fr.swap(g_fr); b.rsTop=g_rsTop; b.sp=g_sp; b.so.swap(g_stObjs); g_fr.clear(); g_stObjs.clear(); }
static void fibLoad(int k){ Fib&b=g_fibs[k]; g_fr.swap(b.fr); g_rsTop=b.rsTop; g_sp=b.sp; g_stObjs.swap(b.so); b.fr.clear(); b.so.clear(); g_curFib=k; }
static int fibSpawn(Func*f,Val arg){ if(g_fibs.empty()) g_fibs.emplace_back(); int id=g_fibs.size(); if(id>7) unsupported("more than 7 threads"); g_fibs.emplace_back(); fibSave(g_curFib); g_rsTop=(size_t)id<<24; g_sp=STACKB+STACK_SZ/2+(u64)id*(STACK_SZ/32); pushFrame(f,-1,0); g_fr.back().r[0]=arg; fibSave(id); fibLoad(g_curFib); return id; }
static void fibSwitch(){ int to=g_switchTo; g_switchTo=-1; if(to<0||to>=(int)g_fibs.size()||g_fibs[to].done) violation("switch to a thread that does not run"); if(to==g_curFib) return; fibSave(g_curFib); fibLoad(to); }
static void doEdge(Frame&f,const Edge&e){ if(e.mc==1){ auto&m=f.f->moves[e.ms]; f.r[m.first]=get(f,m.second); } else if(e.mc){ Val t[64]; vector<Val> big; Val*tp=t; if(e.mc>64){ big.resize(e.mc); tp=big.data(); } for(int i=0;i<e.mc;i++) tp[i]=get(f,f.f->moves[e.ms+i].second); for(int i=0;i<e.mc;i++) f.r[f.f->moves[e.ms+i].first]=tp[i]; } f.pc=e.target; }
static Expr* icmpE(unsigned p,Expr*a,Expr*b){ switch(p){ case CmpInst::ICMP_EQ: return mkCmp(E_EQ,a,b); case CmpInst::ICMP_NE: return mkNot(mkCmp(E_EQ,a,b)); case CmpInst::ICMP_ULT: return mkCmp(E_ULT,a,b); case CmpInst::ICMP_ULE: return mkCmp(E_ULE,a,b); case CmpInst::ICMP_UGT: return mkCmp(E_ULT,b,a); case CmpInst::ICMP_UGE: return mkCmp(E_ULE,b,a); case CmpInst::ICMP_SLT: return mkCmp(E_SLT,a,b); case CmpInst::ICMP_SLE: return mkCmp(E_SLE,a,b); case CmpInst::ICMP_SGT: return mkCmp(E_SLT,b,a); default: return mkCmp(E_SLE,b,a); } }
static bool icmpC(unsigned p,u64 a,u64 b,unsigned w){ switch(p){ case CmpInst::ICMP_EQ:return a==b; case CmpInst::ICMP_NE:return a!=b; case CmpInst::ICMP_ULT:return a<b; case CmpInst::ICMP_ULE:return a<=b; case CmpInst::ICMP_UGT:return a>b; case CmpInst::ICMP_UGE:return a>=b; case CmpInst::ICMP_SLT:return sx(a,w)<sx(b,w); case CmpInst::ICMP_SLE:return sx(a,w)<=sx(b,w); case CmpInst::ICMP_SGT:return sx(a,w)>sx(b,w); default:return sx(a,w)>=sx(b,w);} }
static Expr* fcmpE(unsigned p,Expr*a,Expr*b){ auto un=[&]{ return mkBin(E_OR,mkF(E_FNAN,a,nullptr,1),mkF(E_FNAN,b,nullptr,1)); }; Expr*o;
  switch(p){ case CmpInst::FCMP_FALSE: return mkConst(0,1); case CmpInst::FCMP_TRUE: return mkConst(1,1); case CmpInst::FCMP_ORD: return mkNot(un()); case CmpInst::FCMP_UNO: return un();
    case CmpInst::FCMP_OEQ: return mkF(E_FEQ,a,b,1); case CmpInst::FCMP_UNE: return mkNot(mkF(E_FEQ,a,b,1));
    case CmpInst::FCMP_OLT: return mkF(E_FLT,a,b,1); case CmpInst::FCMP_OLE: return mkF(E_FLE,a,b,1); case CmpInst::FCMP_OGT: return mkF(E_FLT,b,a,1); case CmpInst::FCMP_OGE: return mkF(E_FLE,b,a,1);
    case CmpInst::FCMP_UGE: return mkNot(mkF(E_FLT,a,b,1)); case CmpInst::FCMP_UGT: return mkNot(mkF(E_FLE,a,b,1)); case CmpInst::FCMP_ULE: return mkNot(mkF(E_FLT,b,a,1)); case CmpInst::FCMP_ULT: return mkNot(mkF(E_FLE,b,a,1));
    case CmpInst::FCMP_UEQ: return mkBin(E_OR,un(),mkF(E_FEQ,a,b,1)); default: o=mkBin(E_OR,un(),mkF(E_FEQ,a,b,1)); return mkNot(o); } }
static void binSlow(Frame&f,Inst&x,Val a,Val b){
  Expr*A=ex(a,x.w),*B=ex(b,x.w); EOp op=(EOp)x.sub;
  if(op>=E_UDIV&&op<=E_SREM){ // traps
    Expr*nz=mkNot(mkCmp(E_EQ,B,mkConst(0,x.w))); if(!isC(nz)||!nz->k) check(nz,"integer division by zero trap");
    if((op==E_SDIV||op==E_SREM)&&x.w>=32){ Expr*ov=mkBin(E_AND,mkCmp(E_EQ,A,mkConst(1ULL<<(x.w-1),x.w)),mkCmp(E_EQ,B,mkConst(maskw(x.w),x.w))); Expr*no=mkNot(ov); if(!isC(no)||!no->k) check(no,"integer division overflow trap (minimum value divided by -1)"); } }
  if(op>=E_SHL&&op<=E_ASHR&&!isC(B)) B=mkBin(E_AND,B,mkConst(x.w==64?63:31,x.w));
  f.r[x.d]=mk(mkBin(op,A,B)); }
static void castSlow(Frame&f,Inst&x,Val a){ Expr*A=ex(a,x.w2),*r; switch(x.sub){ case Instruction::ZExt: r=mkZext(A,x.w);break; case Instruction::SExt: r=mkSext(A,x.w);break; case Instruction::Trunc: r=mkExtract(A,0,x.w);break; case Instruction::FPToSI: r=mkF(E_FTOSI,A,nullptr,x.w);break; case Instruction::FPToUI: r=mkF(E_FTOUI,A,nullptr,x.w);break; case Instruction::SIToFP: r=mkF(E_SITOF,A,nullptr,x.w);break; case Instruction::UIToFP: r=mkF(E_UITOF,A,nullptr,x.w);break; case Instruction::FPExt: r=mkF(E_FEXT,A,nullptr,x.w);break; case Instruction::FPTrunc: r=mkF(E_FTRUNC,A,nullptr,x.w);break; default: unsupported("cast"); } f.r[x.d]=mk(r); }
static void enterCall(Func*g,CallI&ci,Val*av,size_t n,i32 dst,int slots){
  u64 va=0; if(g->vararg||n>(size_t)g->nargs){ // variadic area
    size_t extra= n>(size_t)g->nargs? n-g->nargs: 0; va=stackAlloc(8*extra+8); }
  size_t baseSt=g_stObjs.size()-(va?1:0); u64 baseSp=g_sp; pushFrame(g,dst,slots); Frame&nf=g_fr.back(); nf.nst=baseSt; nf.va=va; (void)baseSp;
  for(size_t k=0;k<n;k++){ Val v=av[k]; if(k<ci.byval.size()&&ci.byval[k]){ u64 src=conc(v); u64 d=stackAlloc(ci.byval[k]); checkRange(src,ci.byval[k],"read"); copyMem(d,src,ci.byval[k]); v={d,nullptr}; }
    if(k<(size_t)g->nargs) g_fr.back().r[k]=v; else { Val w=v; unsigned bw=ci.argw[k]; if(w.e&&bw<64) w.e=mkSext(w.e,64); else if(!w.e&&bw<64&&!ci.argf[k]) w.v=(u64)sx(w.v,bw); rawStore(va+8*(k-g->nargs),8,w); } } }
static void tick(){ if(SH->stop) endPath("trunc","time budget"); if(g_instr>g_maxInstr){ if(g_hang) violation("the run does not finish within "+std::to_string(g_maxInstr)+" instructions"); endPath("trunc","instruction budget"); } JS->instrs+=g_instr-g_instrReported; g_instrReported=g_instr; if(g_deadline&&now()>g_deadline) endPath("trunc","time budget"); }
// runs until the frame stack is back to `base`; the return value slots are left in retv
static Val g_retv[16];
static void run(size_t base){
  while(true){
    Frame*fp=&g_fr.back(); 
    Inst*code=fp->f->code.data();
    while(true){ Frame&f=*fp; Inst&x=code[f.pc++]; if((++g_instr&0xfffff)==0) tick();
      switch(x.op){
        case I_BIN: { Val a=get(f,x.a),b=get(f,x.b); if(!a.e&&!b.e){ u64 r; u64 m=maskw(x.w); switch(x.sub){ case E_ADD:r=(a.v+b.v)&m;break;case E_SUB:r=(a.v-b.v)&m;break;case E_MUL:r=(a.v*b.v)&m;break;case E_AND:r=a.v&b.v;break;case E_OR:r=a.v|b.v;break;case E_XOR:r=a.v^b.v;break;
              case E_SHL: case E_LSHR: case E_ASHR: { u64 s=b.v; if(s>=x.w) s&= x.w==64?63:31; r=foldBin((EOp)x.sub,a.v,s,x.w); break; }
              default: if(!b.v) violation("integer division by zero trap"); if((x.sub==E_SDIV||x.sub==E_SREM)&&x.w>=32&&b.v==m&&a.v==(1ULL<<(x.w-1))) violation("integer division overflow trap (minimum value divided by -1)"); r=foldBin((EOp)x.sub,a.v,b.v,x.w); } f.r[x.d]={r,nullptr}; } else binSlow(f,x,a,b); break; }
        case I_ICMP: { Val a=get(f,x.a),b=get(f,x.b); if(!a.e&&!b.e) f.r[x.d]={icmpC(x.sub,a.v,b.v,x.w2),nullptr}; else f.r[x.d]=mk(icmpE(x.sub,ex(a,x.w2),ex(b,x.w2))); break; }
        case I_FBIN: { Val a=get(f,x.a),b=get(f,x.b); if(!a.e&&!b.e) f.r[x.d]={foldF((EOp)x.sub,a.v,b.v,x.w,x.w,0),nullptr}; else f.r[x.d]=mk(mkF((EOp)x.sub,ex(a,x.w),ex(b,x.w),x.w)); break; }
        case I_FCMP: { Val a=get(f,x.a),b=get(f,x.b); f.r[x.d]=mk(fcmpE(x.sub,ex(a,x.w2),ex(b,x.w2))); break; }
        case I_FNEG: { Val a=get(f,x.a); u64 s=1ULL<<(x.w-1); if(!a.e) f.r[x.d]={a.v^s,nullptr}; else f.r[x.d]=mk(mkBin(E_XOR,a.e,mkConst(s,x.w))); break; }
        case I_COPY: f.r[x.d]=get(f,x.a); break;
        case I_CAST: { Val a=get(f,x.a); if(!a.e){ switch(x.sub){ case Instruction::ZExt: f.r[x.d]=a; break; case Instruction::SExt: f.r[x.d]={(u64)sx(a.v,x.w2)&maskw(x.w),nullptr}; break; case Instruction::Trunc: f.r[x.d]={a.v&maskw(x.w),nullptr}; break; default: castSlow(f,x,a); } } else castSlow(f,x,a); break; }
        case I_SELECT: { Val c=get(f,x.a); if(!c.e) f.r[x.d]=get(f,c.v?x.b:x.c); else if(g_forkPtr&&x.w>=32&&!get(f,x.b).e&&!get(f,x.c).e) f.r[x.d]=get(f,forkOn(c.e)?x.b:x.c); else { Val a=get(f,x.b),b=get(f,x.c); f.r[x.d]=mk(mkIte(c.e,ex(a,x.w),ex(b,x.w))); } break; }
        case I_LOAD: { Val a=get(f,x.a); f.r[x.d]=loadMem(a,x.imm,x.w); break; }
        case I_STORE: { Val a=get(f,x.a); storeMem(a,x.imm,get(f,x.b)); break; }
        case I_GEP: { Val a=get(f,x.a); if(!x.b){ if(!a.e) f.r[x.d]={a.v+x.imm,nullptr}; else f.r[x.d]=mk(mkBin(E_ADD,a.e,mkConst(x.imm,64))); break; }
          GepI*g=(GepI*)x.p; u64 off=g->off; Expr*e=a.e; u64 bv=a.v; bool sym=a.e; Expr*acc=nullptr; for(auto&ix:g->idx){ Val v=get(f,ix[0]); if(v.e&&g_forkPtr){ Expr*q=v.e; if((q->op==E_ZEXT||q->op==E_SEXT)&&q->a->w==1) v={forkOn(q->a)? q->op==E_ZEXT? 1: maskw(q->w): 0,nullptr}; else if(q->op==E_ITE&&isC(q->b)&&isC(q->c)) v={forkOn(q->a)? q->b->k: q->c->k,nullptr}; } if(!v.e) off+=(u64)sx(v.v,ix[1])*(u64)ix[2]; else { sym=true; Expr*t=mkBin(E_MUL,mkSext(v.e,64),mkConst(ix[2],64)); acc=acc? mkBin(E_ADD,acc,t): t; } }
          if(!sym) f.r[x.d]={bv+off,nullptr}; else { Expr*r=mkBin(E_ADD,e?e:mkConst(bv,64),mkConst(off,64)); if(acc) r=mkBin(E_ADD,acc,r); f.r[x.d]=mk(r); } break; }
        case I_ALLOCA: { Val n=get(f,x.a); u64 c=n.e? enumerate(n.e): n.v; u64 a=stackAlloc(c*x.imm); f.r[x.d]={a,nullptr}; break; }
        case I_SWITCH: { SwitchI*s=(SwitchI*)x.p; Val v=get(f,x.a); if(v.e){ bool hit=false; // explore the current model's case first
              u64 cur=evalExpr(v.e,g_model); for(auto&c:s->cases) if(c.first==cur){ if(forkOn(mkCmp(E_EQ,v.e,mkConst(c.first,s->w)))){ doEdge(f,c.second); hit=true; } else { f.pc--; hit=true; } break; }
              if(!hit){ for(auto&c:s->cases){ if(forkOn(mkCmp(E_EQ,v.e,mkConst(c.first,s->w)))){ doEdge(f,c.second); hit=true; break; } } if(!hit) doEdge(f,s->def); } break; }
          if(!s->table.empty()){ u64 k=v.v-s->lo; int q= k<s->table.size()? s->table[k]: -1; doEdge(f,q<0? s->def: s->cases[q].second); } else { const Edge*e=&s->def; for(auto&c:s->cases) if(c.first==v.v){ e=&c.second; break; } doEdge(f,*e); } break; }
        case I_BR: doEdge(f,*(Edge*)x.p); break;
        case I_CBR: { Val c=get(f,x.a); bool t= c.e? forkOn(c.e): c.v&1; doEdge(f,((Edge*)x.p)[t?0:1]); break; }
        case I_RET: { int n=x.b; AggI*ag=(AggI*)x.p; Val tmp[16]; if(n>16) unsupported("large return value"); for(int k=0;k<n;k++) tmp[k]=get(f,ag->copies[k].second); i32 dst=f.dst; popFrame(); if(g_curFib&&g_fr.empty()){ g_fibs[g_curFib].done=true; g_switchTo=0; fibSwitch(); goto switchFrame; } if(!g_curFib&&g_fr.size()==base){ for(int k=0;k<n;k++) g_retv[k]=tmp[k]; return; } Frame&c=g_fr.back(); if(dst>=0) for(int k=0;k<n;k++) c.r[dst+k]=tmp[k]; goto switchFrame; }
        case I_AGG: { AggI*ag=(AggI*)x.p; Val t[32]; size_t n=ag->copies.size(); if(n>32) unsupported("large aggregate"); for(size_t k=0;k<n;k++) t[k]=get(f,ag->copies[k].second); for(size_t k=0;k<n;k++) f.r[ag->copies[k].first]=t[k]; break; }
        case I_CALL: { CallI&ci=*(CallI*)x.p; Func*g=ci.f; if(!g){ Val t=get(f,ci.fn); u64 a=t.e? enumerate(t.e): t.v; auto it=byAddr.find(a); if(it==byAddr.end()) violation("call through an invalid function pointer "+descAddr(a)); g=it->second; }
          size_t n=ci.args.size(); Val av[40]; if(n>40) unsupported("too many arguments"); for(size_t k=0;k<n;k++) av[k]=get(f,ci.args[k]);
          if(g->model){ g=g->model; }
          if(g->isDecl){ if(!g->h) unsupported("call to external function "+g->name); g_modelFn=nullptr; Val r{0,nullptr}; static Interp ip; g_callInst=&x; g_callee=g; g->h(ip,ci,av,r); if(g_modelFn){ enterCall(g_modelFn,ci,av,n,x.d,ci.slots); goto switchFrame; } if(x.d>=0) g_fr.back().r[x.d]=r; if(g_switchTo>=0){ fibSwitch(); goto switchFrame; } break; }
          enterCall(g,ci,av,n,x.d,ci.slots); goto switchFrame; }
        case I_UNREACH: violation("unreachable code executed (undefined behaviour or abort)");
        case I_UNSUP: unsupported(string("IR not supported, ")+(char*)x.p);
      } }
    switchFrame: ;
  } }
static void interpCall(Func*f,const vector<Val>&args){ size_t base=g_fr.size(); pushFrame(f,-1,0); for(size_t i=0;i<args.size();i++) g_fr.back().r[i]=args[i]; run(base); }
#include "driver.inc"
