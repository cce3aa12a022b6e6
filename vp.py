#!/usr/bin/env python3
"""Solver-based checks of SPVM: builds bitcode from /repo's current sources, runs the symbolic executor on the
harnesses of one property, confirms counterexamples against sanitized builds of the real code, writes evidence."""
import sys, os, json, hashlib, subprocess, glob, re, time, shutil, tempfile, concurrent.futures as cf, fcntl
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VP_REPO", "/repo"); B = os.environ.get("VP_BUILD", V + "/build"); C = B + "/cache"
LIB = REPO + "/lib/SPVM"; CORE = LIB + "/Builder/src"; INC = LIB + "/Builder/include"; RT = V + "/engine/rt"
IFLAGS = ["-I", INC, "-I", LIB + "/Fn.native/include", "-I", LIB + "/Fn/Resource.native/include", "-I", RT]
BASE = ["-O1", "-fno-strict-aliasing", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-std=gnu99", "-D_GNU_SOURCE", "-w", "-fPIC", "-g0", "-fno-inline-functions"]
T0 = time.time()
def log(*a): print(*a, file=sys.stderr, flush=True)
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fh(path):
    with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
_hdr = {}
def hdr_hash():
    if "h" not in _hdr:
        h = hashlib.sha256()
        for d in (INC, LIB + "/Fn.native/include", LIB + "/Fn/Resource.native/include", RT, V + "/harness/inc"):
            for f in sorted(glob.glob(d + "/*.h")): h.update(f.encode()); h.update(open(f, "rb").read())
        h.update(fh(V + "/engine/build.sh").encode()); h.update(open(V + "/engine/driver.inc", "rb").read().split(b"// ------------------------------------------------------------------ run")[0]); _hdr["h"] = h.hexdigest()
    return _hdr["h"]
class BuildError(Exception): pass
class PrepFailure(Exception):
    """The real compiler, precompiler or initialisation fails on a valid harness program: concrete, reproducible."""
def compile_tu(src, extra=(), tag=None):
    """C source -> (bitcode for the executor, object with the same code for native execution)"""
    tag = tag or re.sub(r"\W", "_", os.path.relpath(src, REPO) if src.startswith(REPO) else os.path.basename(src))
    near = [fh(f) for f in sorted(glob.glob(src[:-2] + "/*.h"))] if src.startswith(V + "/harness/") else []
    key = hashlib.sha256("|".join([fh(src), hdr_hash(), src, *BASE, *extra, *near]).encode()).hexdigest()[:24]
    bc, o = f"{C}/{key}.bc", f"{C}/{key}.o"
    if os.path.exists(bc) and os.path.exists(o): os.utime(bc); os.utime(o); return bc, o
    t = tempfile.mkdtemp(dir=C)
    try:
        for cmd in (["clang", *BASE, *extra, *IFLAGS, "-emit-llvm", "-c", src, "-o", t + "/r.bc"], [B + "/vpe", "prep", t + "/r.bc", t + "/p.bc", tag + key[:4]], ["llc-18", "-O1", "-filetype=obj", "-relocation-model=pic", t + "/p.bc", "-o", t + "/p.o"]):
            r = sh(cmd)
            if r.returncode: raise BuildError(f"{' '.join(cmd)}\n{r.stdout[-3000:]}")
        os.rename(t + "/p.o", o); os.rename(t + "/p.bc", bc)
    finally: shutil.rmtree(t, ignore_errors=True)
    return bc, o
WRAPV = ["-fwrapv"]
def core_sources(): return sorted(glob.glob(CORE + "/*.c"))
def native_sources(): return sorted(f for f in glob.glob(LIB + "/**/*.c", recursive=True) if not f.startswith(LIB + "/Builder/"))
# in production every class is its own shared object; a symbol defined twice is renamed for the joint link
def native_flags(s): return ["-DSPVM__Native__Env__DESTROY=SPVM__Native__Env__DESTROY__second"] if s.endswith("/Native/BasicType.c") else []
def pmap(f, xs):
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(f, xs))
HOOKFLAGS = ["-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores"]   # calls a function of the harness before every memory access
def cflags_of(s, hooked): return WRAPV + (HOOKFLAGS if os.path.basename(s) in hooked else [])
def build_core(hooked=()):
    jobs = [(s, cflags_of(s, hooked)) for s in core_sources()] + [(s, native_flags(s)) for s in native_sources()] + [(RT + "/vplibc.c", ["-fno-builtin"])]
    outs = pmap(lambda j: compile_tu(*j), jobs)
    key = hashlib.sha256("|".join(b for b, _ in outs).encode()).hexdigest()[:24]; core = f"{C}/core{key}.bc"
    if not os.path.exists(core):
        r = sh(["llvm-link-18", *[b for b, _ in outs], "-o", core + ".tmp%d" % os.getpid()])
        if r.returncode: raise BuildError(r.stdout[-3000:])
        os.rename(core + ".tmp%d" % os.getpid(), core)
    return core, [o for _, o in outs]
def spv_flags(inc): return [f'-DVP_INC="{inc}"', f'-DVP_REPO="{REPO}"']
def gen_precompiled(root, inc, objs):
    """Runs the repository's own precompiler on the harness classes and returns the generated C files."""
    cls = sorted(glob.glob(inc + "/**/*.spvm", recursive=True)); std = sorted(glob.glob(LIB + "/**/*.spvm", recursive=True))
    key = hashlib.sha256("|".join([root, inc, *[fh(f) for f in cls + std], *objs, fh(RT + "/pcgen.c"), fh(RT + "/confirm.c"), fh(RT + "/spv.c")]).encode()).hexdigest()[:24]; d = f"{C}/pc{key}"
    if not os.path.exists(d + "/done"):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        o2 = [compile_tu(RT + "/pcgen.c", spv_flags(inc))[1], compile_tu(RT + "/spv.c", spv_flags(inc))[1]]
        r = sh(["clang", "-rdynamic", "-w", "-D_GNU_SOURCE", RT + "/confirm.c", *o2, *objs, "-o", d + "/gen", "-lm", "-lpthread", "-ldl"])
        if r.returncode: raise BuildError(r.stdout[-3000:])
        try: r = sh([d + "/gen", "gen", root + "," + d], timeout=120)
        except subprocess.TimeoutExpired: raise PrepFailure("the repository's compiler/precompiler does not terminate on the harness classes")
        if r.returncode: raise PrepFailure("the repository's compiler/precompiler fails on the harness classes (exit %d): " % r.returncode + r.stdout[-1500:])
        os.unlink(d + "/gen"); open(d + "/done", "w").close()
    return sorted(glob.glob(d + "/*.c"))
def meta_of(h):
    m = re.search(r"/\*vp\s*(\{.*?\})\s*\*/", open(h).read(), re.S); return json.loads(m.group(1)) if m else {}
def harnesses(pid): return sorted(glob.glob(f"{V}/harness/{pid}*.c"))
def inc_dir(h, m): return f"{V}/harness/{m.get('dir', os.path.basename(h)[:-2])}"
def build_harness(h, core, objs, out):
    m = meta_of(h); inc = inc_dir(h, m); units = []
    if m.get("hooked"): core, objs = build_core(m["hooked"])
    fl = spv_flags(inc) + ["-I", V + "/harness/inc"] + m.get("cflags", [])
    pcs = gen_precompiled(m["pc"], inc, objs) if m.get("pc") else []
    todo = [(h, fl + WRAPV), (RT + "/spv.c", spv_flags(inc))] + [(p, ["-DVP_PC"]) for p in pcs]
    def comp(j):
        try: return compile_tu(*j)
        except BuildError as e:
            if j[0] in pcs: raise PrepFailure("the C code generated by the precompiler does not compile: " + str(e)[-1500:])
            raise
    res = pmap(comp, todo)
    so = out + "/unit.so"
    r = sh(["clang", "-shared", "-o", so, *[o for _, o in res], *objs, "-Wl,--allow-shlib-undefined", "-Wl,-z,lazy", "-lm"])
    if r.returncode: raise BuildError(r.stdout[-3000:])
    return so, [core] + [b for b, _ in res], m, pcs, inc
def san_build(h, m, pcs, inc, out):
    """Real sources + harness under AddressSanitizer, used to confirm a counterexample."""
    d = out + "/san"; os.makedirs(d, exist_ok=True); exe = d + "/confirm"
    mac = ["-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc", "-Dfree=vp_free", "-Dstrdup=vp_strdup", "-include", d + "/a.h"]
    open(d + "/a.h", "w").write('#include <stddef.h>\n#include <stdlib.h>\n#include <string.h>\n#undef strdup\n#define strdup vp_strdup\nextern void* vp_malloc(size_t); extern void* vp_calloc(size_t,size_t); extern void* vp_realloc(void*,size_t); extern void vp_free(void*); extern char* vp_strdup(const char*);\n'.replace("#include <stdlib.h>", "#pragma push_macro(\"malloc\")\n#undef malloc\n#undef calloc\n#undef realloc\n#undef free\n#include <stdlib.h>\n#define malloc vp_malloc\n#define calloc vp_calloc\n#define realloc vp_realloc\n#define free vp_free"))
    open(d + "/a.h", "a").write("#include <pthread.h>\nextern int vp_lk_wrlock(void*), vp_lk_rdlock(void*), vp_lk_unlock(void*);\n#define pthread_rwlock_wrlock vp_lk_wrlock\n#define pthread_rwlock_rdlock vp_lk_rdlock\n#define pthread_rwlock_unlock vp_lk_unlock\n#define pthread_mutex_lock vp_lk_wrlock\n#define pthread_mutex_unlock vp_lk_unlock\n")
    sf = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-std=gnu99", "-D_GNU_SOURCE", "-w", "-fPIC"]
    todo = [(s, cflags_of(s, m.get("hooked", ()))) for s in core_sources()] + [(s, native_flags(s)) for s in native_sources()] + [(h, spv_flags(inc) + ["-I", V + "/harness/inc"] + m.get("cflags", []) + WRAPV), (RT + "/spv.c", spv_flags(inc))] + [(p, []) for p in pcs]
    def one(j):
        i, (s, e) = j; o = f"{d}/{i}.o"; r = sh(["clang", *sf, *([] if "#undef _GNU_SOURCE" in open(s, errors="replace").read() else mac), *e, *IFLAGS, "-c", s, "-o", o])
        if r.returncode: raise BuildError(r.stdout[-2000:])
        return o
    os_ = pmap(one, list(enumerate(todo)))
    r = sh(["clang", "-g", "-w", "-D_GNU_SOURCE", "-fsanitize=address", "-rdynamic", RT + "/confirm.c", *os_, "-o", exe, "-lm", "-lpthread", "-ldl"])
    if r.returncode: raise BuildError(r.stdout[-3000:])
    return exe
def confirm(exe, rec, d):
    f = d + "/in.txt"; open(f, "w").write("".join(f"{n.replace(' ', '_')} {v or '-'}\n" for n, v in rec["inputs"]))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=0:malloc_context_size=8:max_malloc_fill_size=0")
    try: r = sh([exe, rec["job"], f], env=env, timeout=200, errors="replace") if False else subprocess.run([exe, rec["job"], f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=200)
    except subprocess.TimeoutExpired: return True, "does not terminate"
    o = r.stdout.decode("utf-8", "replace")
    if r.returncode == 3: return False, "replay diverged: " + o[-300:]
    if r.returncode == 0: return False, "completes"
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|ASSERTION FAILED[^\n]*)", o); return True, (m.group(1) if m else f"exit status {r.returncode}: " + o.strip()[-200:])
def known(pid):
    out = []
    p = V + "/known_findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known": out.append(d)
    return out
def match_known(ks, rec):
    for k in ks:
        if k["job"] == rec["job"] and re.search(k["msg"], rec["msg"]) and re.search(k.get("trace", ""), rec["trace"]):
            ins = {}
            for n, v in rec["inputs"]: ins.setdefault(n, v)
            if all(re.fullmatch(rx, ins.get(n, "")) for n, rx in k.get("inputs", {}).items()): return k
    return None
def run_unit(h, pid, tier, core, objs, work, budget):
    name = os.path.basename(h)[:-2]; out = f"{work}/{name}"; os.makedirs(out); so, bcs, m, pcs, inc = build_harness(h, core, objs, out)
    if tier == "thorough": budget = m.get("time_thorough", m.get("time", budget) * 6)
    else: budget = m.get("time", budget)
    if os.environ.get("VP_TIME"): budget = float(os.environ["VP_TIME"])
    cmd = [B + "/vpe", "run", "--so=" + so, *["--bc=" + b for b in bcs], "--out=" + out, "--summary=" + out + "/summary.json", f"--time={budget}", "--par=" + os.environ.get("VP_PAR", "8"), "--replays=%d" % (m.get("replays", 300) * (4 if tier == "thorough" else 1)), "--xcheck=%d" % (50 if tier == "thorough" else 0)]
    if m.get("hang"): cmd.append("--hang=%d" % m["hang"])
    if m.get("forkptr"): cmd.append("--forkptr=1")
    if tier == "thorough": cmd.append("--rlimit=400000000")
    if os.environ.get("VP_JOBS"): cmd.append("--jobs=" + os.environ["VP_JOBS"])
    env = dict(os.environ, VP_TIER=tier); t = time.time(); r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=out)
    txt = r.stdout.decode("utf-8", "replace")
    if os.environ.get("VP_SLOW") or os.environ.get("VP_FORKS"): open("/tmp/slow.txt", "w").write(txt)
    if os.environ.get("VP_DEBUG") or r.returncode: log(txt[-6000:])
    if r.returncode and "SETUP-DONE" not in txt:
        exe = san_build(h, m, pcs, inc, out); open(out + "/none", "w").close(); q = subprocess.run([exe, "job_none_", out + "/none"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99"), timeout=200)
        if b"no job job_none_" not in q.stdout: raise PrepFailure(f"set-up of the harness program fails in the executor (exit {r.returncode}) and in the sanitized build (exit {q.returncode}): " + txt[-700:] + q.stdout.decode("utf-8", "replace")[-700:])
    if r.returncode or not os.path.exists(out + "/summary.json"): raise BuildError(f"executor failed on {name}: {txt[-1500:]}")
    s = json.loads(open(out + "/summary.json").read(), strict=False); s.update(name=name, wall=time.time() - t, san=(h, m, pcs, inc, out), meta=m, stderr=txt[-500:]); return s
def check(pid, tier):
    os.environ["VP_TIER"] = tier; os.makedirs(C, exist_ok=True); seed = int(os.environ.get("VERIF_SEED", "1"))
    r = sh([V + "/engine/build.sh", B + "/vpe"])
    if r.returncode: log(r.stdout); return 2
    work = tempfile.mkdtemp(prefix=f"run_{pid}_", dir=B); rc = 0
    try:
        core, objs = build_core(); hs = harnesses(pid)
        if os.environ.get("VP_UNIT"): hs = [h for h in hs if os.path.basename(h)[:-2] == os.environ["VP_UNIT"]]
        sums = [run_unit(h, pid, tier, core, objs, work, 100) for h in hs]
        rc = judge(pid, tier, seed, sums, work)
    except PrepFailure as e:
        rd = f"{V}/evidence/replay"; os.makedirs(rd, exist_ok=True); p = f"{rd}/{pid}_prep.json"; json.dump({"property": pid, "message": str(e)}, open(p, "w"), indent=1); print(str(e)); print(f"VIOLATION property={pid} replay={p}"); rc = 1
    except BuildError as e: log("BUILD ERROR", e); rc = 2
    finally:
        if not os.environ.get("VP_KEEP"): shutil.rmtree(work, ignore_errors=True)
        prune()
    return rc
def judge(pid, tier, seed, sums, work):
    ks = known(pid); viol = []; knownhit = {}; incomplete = []; errors = []; tot = {}
    samples = []; funcs = set(); rows = []; bounds = []
    for s in sums:
        funcs |= set(s["functions"]); bounds += s["meta"].get("bounds", [])
        if s["aborted"]: errors.append(f"{s['name']}: {s['aborted']} executor processes ended abnormally: {s['stderr'][-300:]}")
        exe = None
        def getexe():
            nonlocal exe
            if exe is None: exe = san_build(*s["san"])
            return exe
        for j in s["jobs"]:
            for k in ("paths", "forks", "instructions", "queries", "sat", "unsat", "unknown", "fallback", "cachehits", "solver_us", "assertions", "discharged", "inconclusive", "concretized", "memchecks", "replayed", "violations", "unsupported", "truncated", "xchecked", "xdisagree", "finite", "dead"): tot[k] = tot.get(k, 0) + j[k]
            rows.append({k: j[k] for k in ("job", "paths", "queries", "assertions", "inconclusive", "replayed", "solver_us")})
            if j["sample"] and len(samples) < 12: samples.append({"job": j["job"], "path_inputs": [[n, v[:80]] for n, v in j["sample"]["inputs"]][:8], "observed": j["sample"]["obs"][:6]})
            if j["unsupported"] or j["truncated"] or j["inconclusive"] or j["errors"]: incomplete.append(f"{j['job']}: {dict(list(j['problems'].items())[:4])} inconclusive={j['inconclusive']} errors={j['errors']}")
            if j["xdisagree"]: errors.append(f"{j['job']}: solvers disagree")
            seen = set()
            for v in j["violation_records"]:
                rec = v["rec"]; k = match_known(ks, rec)
                if k: knownhit[k["id"]] = k; continue
                sig = (rec["msg"].split(" at 0x")[0], rec["trace"].split(" < ")[0])
                if sig in seen or len(viol) >= 6: continue
                seen.add(sig)
                nat = v["native"]; ok, how = (True, "native replay: " + nat[2:]) if nat.startswith(("A:", "S:")) else (None, "")
                if ok is None: 
                    e = getexe(); ok, how = confirm(e, rec, os.path.dirname(e)); how = "sanitized replay: " + how
                if ok: viol.append((s, j, rec, how))
                else: errors.append(f"{j['job']}: counterexample not confirmed ({rec['msg']} in {rec['trace'][:200]}; {how}); inputs {rec['inputs'][:6]}")
            miss = set(j["must"]) - set(j["reach"])
            if not j["paths"] and not j["violations"]: errors.append(f"{j['job']}: no path completed: {j['problems']}")
            if miss and not j["violations"]: errors.append(f"{j['job']}: required situations never reached: {sorted(miss)[:5]}")
        for mm in s["mismatch_records"]:
            if mm["why"].startswith("A:") and mm["rec"]["status"] == "ok": 
                k = match_known(ks, dict(mm["rec"], msg=mm["why"][2:]))
                if k: knownhit[k["id"]] = k
                elif "assumption" not in mm["why"]: viol.append((s, {"job": mm["job"]}, dict(mm["rec"], msg=mm["why"][2:]), "native replay"))
                continue
            errors.append(f"{mm['job']}: symbolic and native runs differ: {mm['why']} {mm['rec']['inputs'][:6]}")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 1), "violations": len(viol),
      "coverage": {"states": tot.get("paths", 0), "transitions": tot.get("instructions", 0), "traces_validated_against_impl": tot.get("replayed", 0), "samples": samples or ["none"],
        "explanation": "states: feasible execution paths of the real code decided symbolically (each stands for all input values satisfying its path condition); transitions: LLVM instructions of the real code executed symbolically; traces: paths whose solver model was re-run natively with equal observations",
        "jobs": rows, "queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0), "unknown": tot.get("unknown", 0), "fallback_solver_queries": tot.get("fallback", 0), "solver_cache_hits": tot.get("cachehits", 0), "solver_seconds": round(tot.get("solver_us", 0) / 1e6, 2), "assertions_decided": tot.get("discharged", 0), "assertions_met": tot.get("assertions", 0), "memory_bound_queries": tot.get("memchecks", 0), "decided_on_a_finite_domain": tot.get("finite", 0), "cross_checked_with_a_second_solver": tot.get("xchecked", 0), "inconclusive": tot.get("inconclusive", 0), "truncated_paths": tot.get("truncated", 0), "unsupported_paths": tot.get("unsupported", 0), "concretized_values": tot.get("concretized", 0), "bounds": bounds, "functions_encoded": len(funcs), "function_names": sorted(funcs)[:400], "incomplete": incomplete[:20], "errors": errors[:20]},
      "assumptions": ["clang -O1 IR with -fwrapv (core) represents the C sources", "the models of libc functions in engine/rt/vplibc.c and engine/handlers.inc", "solver answers of z3 (cvc5/z3-new where z3 gives up)"]}
    if not sums: errors.append("no harness")
    os.makedirs(V + "/evidence", exist_ok=True); open(f"{V}/evidence/{pid}.json", "w").write(json.dumps(ev, indent=1))
    for k in ks: print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if k["id"] in knownhit else " (not met in this run)"))
    for l in incomplete[:10]: print("INCOMPLETE:", l)
    for l in errors[:10]: print("ERROR:", l)
    rd = f"{V}/evidence/replay"; os.makedirs(rd, exist_ok=True)
    for i, (s, j, rec, how) in enumerate(viol):
        p = f"{rd}/{pid}_{i}.json"; json.dump({"property": pid, "job": rec["job"], "message": rec["msg"], "trace": rec["trace"], "inputs": rec["inputs"], "confirmed_by": how, "rerun": f"VP_UNIT={s['name']} VP_JOBS={rec['job']} python3 {V}/vp.py check {pid}"}, open(p, "w"), indent=1)
        print(f"  {rec['job']}: {rec['msg']} [{how}] in {rec['trace'][:200]}; inputs " + " ".join(f"{n}={v}" for n, v in rec["inputs"][:10])[:400]); print(f"VIOLATION property={pid} replay={p}")
    print(f"{pid} {tier}: {tot.get('paths',0)} paths, {tot.get('queries',0)} queries ({tot.get('unsat',0)} unsat), {tot.get('solver_us',0)/1e6:.1f}s solver, {tot.get('assertions',0)} assertions, {tot.get('replayed',0)} paths replayed natively, {len(viol)} violations, {len(errors)} errors, wall {time.time()-T0:.0f}s")
    return 1 if viol else 2 if errors else 0
def prune(limit=3 << 30):
    fs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in glob.glob(C + "/*") if os.path.isfile(f)]; tot = sum(s for _, s, _ in fs)
    for _, s, f in sorted(fs):
        if tot < limit: break
        try: os.unlink(f); tot -= s
        except OSError: pass
def setup():
    os.makedirs(C, exist_ok=True); r = sh([V + "/engine/build.sh", B + "/vpe"])
    if r.returncode: log(r.stdout); return 1
    core, objs = build_core(); print("core built", round(time.time() - T0, 1))
    for h in sorted(glob.glob(V + "/harness/C*.c")):
        d = tempfile.mkdtemp(dir=B)
        try: build_harness(h, core, objs, d)
        except (BuildError, PrepFailure) as e: log("setup:", h, e)
        finally: shutil.rmtree(d, ignore_errors=True)
    print("harnesses built", round(time.time() - T0, 1)); return 0
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]: sys.exit(setup())
    if a[:1] == ["check"]: sys.exit(check(a[1], os.environ.get("VERIF_TIER", "quick") if len(a) < 3 else a[2]))
    print(__doc__); sys.exit(3)
