#!/usr/bin/env python3
"""C11 (exceptions) and C12 (object lifetime): random programs with symbolic conditions; the expected outcome of every
combination of conditions is computed by an independent interpreter of the documented semantics."""
import random, sys
from gen_lib import *
M64 = (1 << 64) - 1
NB = 6
class Thr(Exception):
    def __init__(s, msg, eid): s.msg, s.eid = msg, eid
class Ret(Exception):
    def __init__(s, v): s.v = v
class Nxt(Exception): pass
class Lst(Exception): pass
class Prog:
    def __init__(p, name, rnd, objs): p.name, p.r, p.objs, p.site, p.k, p.meth, p.nv = name, rnd, objs, 0, 0, {}, 0
    def w(p): p.site += 1; return p.r.getrandbits(48) * 2 + 1
    def nk(p): p.k += 1; return p.k
    def block(p, depth, n, env):
        env = dict(env, vars=list(env["vars"]), arrs=list(env["arrs"])); out = []
        for _ in range(n):
            s = p.stmt(depth, env)
            if s: out.append(s)
            if s and s[0] in ("ret", "next", "last", "die"): break
            if p.objs and p.r.random() < .35: out.append(("dchk",))
        return out
    def stmt(p, depth, env):
        r = p.r; c = r.random(); V = env["vars"]; A = env["arrs"]
        if p.objs and r.random() < .5:
            o = r.choice(["new", "new", "undef", "renew", "copy", "glob", "globu", "link", "linku", "next", "arr", "aset", "aget", "pass", "globget", "renext", "temp"])
            if o in ("new",) or not V: p.nv += 1; V.append(f"v{p.nv}"); return ("onew", f"v{p.nv}", p.w())
            v = r.choice(V); u = r.choice(V)
            if p.objs == "weak" and r.random() < .75:
                q = r.choice(["fset", "fset", "fset", "fsetu", "weaken", "weaken", "weaken", "unweaken", "iswk", "fdef", "fw", "fget"]); fl = r.choice("ab")
                return (q, v, fl, u)
            if o == "undef": return ("oundef", v)
            if o == "renew": return ("orenew", v, p.w())
            if o == "copy": return ("ocopy", v, u)
            if o == "glob": return ("oglob", v)
            if o == "globu": return ("oglobu",)
            if o == "globget": return ("oglobget", v)
            if o == "link": return ("olink", v, p.w())
            if o == "linku": return ("olinku", v)
            if o == "next": p.nv += 1; V.append(f"v{p.nv}"); return ("onext", f"v{p.nv}", v)
            if o == "renext": return ("orenext", v, u)
            if o == "temp": return ("otemp", p.w(), r.randrange(2))
            if o == "arr" or (o in ("aset", "aget") and not A): p.nv += 1; A.append(f"a{p.nv}"); return ("oarr", f"a{p.nv}")
            if o == "aset": return ("oaset", r.choice(A), r.randrange(3), v)
            if o == "aget": return ("oaget", v, r.choice(A), r.randrange(2))
            if o == "pass" and depth > 0 and env["d"] < 2:
                m = p.method(env["d"] + 1, True); p.nv += 1; V.append(f"v{p.nv}"); return ("ocall", f"v{p.nv}", m, v)
        if c < .22: return ("t", p.nk())
        if c < .40 and depth > 0: return ("ifb", r.randrange(NB), p.block(depth - 1, r.randint(1, 3), env), p.block(depth - 1, r.randint(0, 2), env))
        if c < .60 and depth > 0: return ("eval", p.block(depth - 1, r.randint(1, 4), env))
        if c < .70: return ("throwif", r.randrange(NB), r.choice(["msg", "msg", "cls", "id", "div", "oob", "undef", "native", "nomsg", "again"]), p.nk())
        if c < .78 and depth > 0: return ("loop", r.randint(2, 3), p.block(depth - 1, r.randint(1, 3), dict(env, loop=1)))
        if c < .83 and env["loop"]: return ("ifb", r.randrange(NB), [(r.choice(["next", "last"]),)], [])
        if c < .86: return ("ifb", r.randrange(NB), [("ret", env["ob"], r.choice(V) if V and env["ob"] else p.nk(), )], [])
        if c < .90: return ("die", r.choice(["msg", "cls"]), p.nk())
        if depth > 0 and env["d"] < 2: return ("call", p.method(env["d"] + 1, False))
        return ("t", p.nk())
    def method(p, d, ob):
        n = f"{p.name}_{len(p.meth)}"; p.meth[n] = None
        env = {"vars": ["o"] if ob else [], "arrs": [], "loop": 0, "d": d, "ob": ob}
        b = p.block(2, p.r.randint(3, 5), env); b.append(("ret", ob, "o" if ob else p.nk())); p.meth[n] = (ob, b); return n
    # ---- SPVM text
    def emit(p, b, ind="  "):
        o = []
        for s in b:
            k = s[0]
            if k == "t": o.append(f"$T = $T * 31L + {s[1]}L;")
            elif k == "dchk": o.append("$T = $T * 31L + $D;")
            elif k == "ifb": o.append(f"if ($x & {1 << s[1]}) {{ {p.emit(s[2])} }}" + (f" else {{ {p.emit(s[3])} }}" if s[3] else ""))
            elif k == "eval": o.append(f"eval {{ {p.emit(s[1])} }}; VP->note($@, eval_error_id);")
            elif k == "throwif": o.append(f"if ($x & {1 << s[1]}) {{ {p.thr(s[2], s[3])} }}")
            elif k == "die": o.append(p.thr(s[1], s[2]))
            elif k == "loop": o.append(f"for (my $i = 0; $i < {s[1]}; $i++) {{ {p.emit(s[2])} }}")
            elif k in ("next", "last"): o.append(k + ";")
            elif k == "ret": o.append(f"return ${s[2]};" if s[1] else f"return {s[2]};")
            elif k == "call": o.append(f"my $r = VP->{s[1]}($x); $T = $T * 31L + (long)$r;")
            elif k == "onew": o.append(f"my ${s[1]} : Ob = VP->mk({s[2]}L);")
            elif k == "oundef": o.append(f"${s[1]} = undef;")
            elif k == "orenew": o.append(f"${s[1]} = VP->mk({s[2]}L);")
            elif k == "ocopy": o.append(f"${s[1]} = ${s[2]};")
            elif k == "oglob": o.append(f"$G = ${s[1]};")
            elif k == "oglobu": o.append("$G = undef;")
            elif k == "oglobget": o.append(f"${s[1]} = $G;")
            elif k == "olink": o.append(f"{{ ${s[1]}->{{next}} = VP->mk({s[2]}L); }}")  # a temporary lives until the end of its scope
            elif k == "olinku": o.append(f"${s[1]}->{{next}} = undef;")
            elif k == "onext": o.append(f"my ${s[1]} : Ob = ${s[2]}->{{next}};")
            elif k == "orenext": o.append(f"${s[1]} = ${s[2]}->{{next}};")
            elif k == "fset": o.append(f"${s[1]}->{{{s[2]}}} = ${s[3]};")
            elif k == "fsetu": o.append(f"${s[1]}->{{{s[2]}}} = undef;")
            elif k == "fget": o.append(f"${s[3]} = ${s[1]}->{{{s[2]}}};")
            elif k == "weaken": o.append(f"weaken ${s[1]}->{{{s[2]}}};")
            elif k == "unweaken": o.append(f"unweaken ${s[1]}->{{{s[2]}}};")
            elif k == "iswk": o.append(f"$T = $T * 31L + (long)(isweak ${s[1]}->{{{s[2]}}});")
            elif k == "fdef": o.append(f"if (${s[1]}->{{{s[2]}}}) {{ $T = $T * 31L + 1L; }} else {{ $T = $T * 31L + 2L; }}")
            elif k == "fw": o.append(f"$T = $T * 31L + ${s[1]}->{{{s[2]}}}->{{w}};")
            elif k == "otemp": o.append(f"{{ VP->mk({s[1]}L); }}" if s[2] else f"{{ my $tmp = new Ob; $tmp->{{w}} = {s[1]}L; }}")
            elif k == "oarr": o.append(f"my ${s[1]} = new Ob[2];")
            elif k == "oaset": o.append(f"${s[1]}->[{s[2]}] = ${s[3]};")
            elif k == "oaget": o.append(f"${s[1]} = ${s[2]}->[{s[3]}];")
            elif k == "ocall": o.append(f"my ${s[1]} : Ob = VP->{s[2]}($x, ${s[3]});")
        # each call statement declares $r: keep it in a block of its own
        return " ".join(("{ " + t + " }") if t.startswith("my $r =") else t for t in o)
    def thr(p, kind, k):
        return {"msg": f'die "M{k}:";', "cls": f'die Err1 "M{k}:";', "id": f'die basic_type_id Err2, "M{k}:";', "div": "{ my $z = 0; $z = 7 / $z; }", "oob": "{ my $ar = new int[1]; $ar->[$x | 1] = 1; }", "undef": "{ my $u : Ob = undef; $u->{w} = 1L; }", "native": "Fn->memcpy(undef, 0, undef, 0, 1);", "nomsg": "die;", "again": "die $@;"}[kind]
    def spvm(p):
        o = []
        for n, (ob, b) in p.meth.items():
            o.append(f"  precompile static method {n} : " + ("Ob ($x : int, $o : Ob)" if ob else "int ($x : int)") + f" {{ {p.emit(b)} }}")
        return "\n".join(o)
    # ---- model
    def run(p, main, x):
        p.T = p.D = 0; p.exc = None; p.x = x; p.steps = 0; p.heap = {}; p.G = None; p.nid = 0
        try: v = p.callm(main, None); res = (v, 0, None)
        except Thr as e: p.exc = e.msg; res = (0, e.eid, e.msg)
        p.setG(None)
        if p.heap: raise OverflowError  # a strong cycle stays alive
        return res + (p.T, p.D)
    def mk(p, w): p.nid += 1; p.heap[p.nid] = {"w": w, "rc": 0, "f": {}, "k": set()}; return p.nid
    def inc(p, o):
        if o: p.heap[o]["rc"] += 1
        return o
    def dec(p, o):
        if not o: return
        h = p.heap[o]; h["rc"] -= 1; assert h["rc"] >= 0
        if h["rc"] == 0:
            if h["w"]: p.D = (p.D + h["w"]) & M64
            h["rc"] = 1
            for f in list(h["f"]):
                q = h["f"][f]; wk = f in h["k"]; h["k"].discard(f); h["f"][f] = None
                if not wk: p.dec(q)
            for x in p.heap.values():
                for f in list(x["k"]):
                    if x["f"][f] == o: x["f"][f] = None; x["k"].discard(f)
            del p.heap[o]
    def setG(p, o): p.inc(o); q = p.G; p.G = o; p.dec(q)
    def callm(p, n, arg):
        ob, b = p.meth[n]; fr = {"eid": 0}; sc = [{}]; 
        if ob: sc[0]["o"] = p.inc(arg)
        try:
            try: p.exe(b, sc, fr)
            finally:
                pass
        except Ret as r:
            v = r.v
            if ob: p.inc(v)
            p.leave(sc); 
            if ob: p.heap.get(v, {}) 
            return v
        except Thr: p.leave(sc); raise
        raise AssertionError("no return")
    def leave(p, sc):
        for v in sc.pop().values(): p.dec(v)
    def block_(p, b, sc, fr):
        sc.append({})
        try: p.exe(b, sc, fr)
        finally: p.leave(sc)
    def find(p, sc, v):
        for s in reversed(sc):
            if v in s: return s
        raise KeyError(v)
    def asg(p, sc, v, o): s = p.find(sc, v); p.inc(o); q = s[v]; s[v] = o; p.dec(q)
    def fld(p, o, f):
        if not o: raise Thr("*", 1)
        return p.heap[o]["f"].get(f)
    def setf(p, o, f, v):
        if not o: raise Thr("*", 1)
        p.inc(v); h = p.heap[o]["f"]; q = h.get(f); wk = f in p.heap[o]["k"]; p.heap[o]["k"].discard(f); h[f] = v
        if not wk: p.dec(q)
    def weaken(p, o, f):
        q = p.fld(o, f)
        if not q or f in p.heap[o]["k"]: return
        if p.heap[q]["rc"] == 1: p.heap[o]["f"][f] = None
        else: p.heap[o]["k"].add(f)
        p.dec(q)
    def unweaken(p, o, f):
        q = p.fld(o, f)
        if q and f in p.heap[o]["k"]: p.heap[o]["k"].discard(f); p.inc(q)
    def exe(p, b, sc, fr):
        for s in b:
            p.steps += 1
            if p.steps > 400: raise OverflowError
            k = s[0]; g = lambda v: p.find(sc, v)[v]
            if k == "t": p.T = (p.T * 31 + s[1]) & M64
            elif k == "dchk": p.T = (p.T * 31 + p.D) & M64
            elif k == "ifb": p.block_(s[2] if p.x >> s[1] & 1 else s[3], sc, fr)
            elif k == "eval":
                p.exc = None; fr["eid"] = 0
                try: p.block_(s[1], sc, fr)
                except Thr as e: p.exc = e.msg; fr["eid"] = e.eid
                code = 0 if p.exc is None else 1 if not p.exc.startswith("M") else int(p.exc[1:]) + 2
                p.T = (p.T * 31 + code) & M64; p.T = (p.T * 31 + fr["eid"]) & M64
            elif k == "throwif":
                if p.x >> s[1] & 1: p.throw(s[2], s[3])
            elif k == "die": p.throw(s[1], s[2])
            elif k == "loop":
                for i in range(s[1]):
                    try: p.block_(s[2], sc, fr)
                    except Nxt: pass
                    except Lst: break
            elif k == "next": raise Nxt
            elif k == "last": raise Lst
            elif k == "ret": raise Ret(g(s[2]) if s[1] else s[2])
            elif k == "call": r = p.callm(s[1], None); p.T = (p.T * 31 + r) & M64
            elif k == "onew": sc[-1][s[1]] = p.inc(p.mk(s[2]))
            elif k == "oundef": p.asg(sc, s[1], None)
            elif k == "orenew": p.asg(sc, s[1], p.mk(s[2]))
            elif k == "ocopy": p.asg(sc, s[1], g(s[2]))
            elif k == "oglob": p.setG(g(s[1]))
            elif k == "oglobu": p.setG(None)
            elif k == "oglobget": p.asg(sc, s[1], p.G)
            elif k == "olink":
                # the right side is evaluated first, and is released when the store throws
                o = g(s[1]); n = p.inc(p.mk(s[2]))
                try: p.setf(o, "next", n)
                finally: p.dec(n)
            elif k == "olinku": p.setf(g(s[1]), "next", None)
            elif k == "onext": v = p.fld(g(s[2]), "next"); sc[-1][s[1]] = p.inc(v)
            elif k == "orenext": p.asg(sc, s[1], p.fld(g(s[2]), "next"))
            elif k == "fset": p.setf(g(s[1]), s[2], g(s[3]))
            elif k == "fsetu": p.setf(g(s[1]), s[2], None)
            elif k == "fget": p.asg(sc, s[3], p.fld(g(s[1]), s[2]))
            elif k == "weaken": p.weaken(g(s[1]), s[2])
            elif k == "unweaken": p.unweaken(g(s[1]), s[2])
            elif k == "iswk": p.fld(g(s[1]), s[2]); p.T = (p.T * 31 + (s[2] in p.heap[g(s[1])]["k"])) & M64
            elif k == "fdef": p.T = (p.T * 31 + (1 if p.fld(g(s[1]), s[2]) else 2)) & M64
            elif k == "fw":
                q = p.fld(g(s[1]), s[2])
                if not q: raise Thr("*", 1)
                p.T = (p.T * 31 + p.heap[q]["w"]) & M64
            elif k == "otemp": o = p.inc(p.mk(s[1])); p.dec(o)
            elif k == "oarr": sc[-1][s[1]] = p.inc(p.mk(0))
            elif k == "oaset":
                if s[2] >= 2: raise Thr("*", 1)
                p.setf(g(s[1]), s[2], g(s[3]))
            elif k == "oaget": p.asg(sc, s[1], p.fld(g(s[2]), s[3]))
            elif k == "ocall":
                o = g(s[3]); v = p.callm(s[2], o); sc[-1][s[1]] = v  # reference handed over
            else: raise AssertionError(k)
    def throw(p, kind, k):
        if kind == "again": raise Thr(p.exc if p.exc is not None else "E", 1)
        if kind in ("msg", "cls", "id"): raise Thr(f"M{k}", {"msg": 1, "cls": 2, "id": 3}[kind])
        raise Thr("E" if kind == "nomsg" else "*", 1)
def size(b): return sum(1 + sum(size(x) for x in s[1:] if isinstance(x, list)) for s in b)
def build(pid, meta, seed, n, objs, extra, destroy):
    g = Gen(pid, meta); g.cls_head = "  use Ob; use Fn; use Err1; use Err2;\n  our $T : long; our $D : long; our $G : Ob;\n"
    g.s.append('''  static method note : void ($m : string, $id : int) { my $c = 0; if ($m) { if ((int)$m->[0] == 'M') { my $i = 1; while ((int)$m->[$i] != ':') { $c = $c * 10 + (int)$m->[$i] - '0'; $i++; } $c += 2; } else { $c = 1; } } $T = $T * 31L + (long)$c; my $e = 9; if ($id == 0) { $e = 0; } elsif ($id == basic_type_id Error) { $e = 1; } elsif ($id == basic_type_id Err1) { $e = 2; } elsif ($id == basic_type_id Err2) { $e = 3; } $T = $T * 31L + (long)$e; }
  precompile static method mk : Ob ($w : long) { my $o = new Ob; $o->{w} = $w; return $o; }
  static method d : void ($w : long) { $D += $w; }
  static method getT : long () { return $T; }
  static method getD : long () { return $D; }
  static method reset : void () { $T = 0L; $D = 0L; $G = undef; }
  static method dropG : void () { $G = undef; }
  static method eids : int[] () { my $a = new int[4]; $a->[1] = basic_type_id Error; $a->[2] = basic_type_id Err1; $a->[3] = basic_type_id Err2; return $a; }''')
    g.c.append('''typedef struct { int ret, eid; const char* msg; uint64_t T, D; } Exp;
static void run(SPV* s, const char* m, const Exp* ex) { OK(CALL(s, "reset", 0)); OK(CALL(s, "eids", 0)); int ids[4]; memcpy(ids, ENV->get_elems_int(ENV, ST, ST[0].oval), 16); int sc = ENV->enter_scope(ENV, ST);
  c_int x = sym_int("x"); vp_assume((x >= 0) & (x < %d));
  /* the first run may enlarge the frame storage, which the stack keeps */ set_int(0, x); CALL(s, m, 1); spv_clear_exc(s); OK(CALL(s, "reset", 0)); spv_clear_exc(s); ENV->leave_scope(ENV, ST, sc); OK(CALL(s, "reset", 0));
  BAL_BEGIN set_int(0, x); int e = CALL(s, m, 1); int rv = get_int(); const Exp* E = &ex[vp_pick(x)];
  vp_assert(!e == !E->eid, "an exception leaves the method exactly when it is thrown and not caught"); vp_assert(e == ids[E->eid], "error id of the exception"); vp_assert(e || rv == E->ret, "return value");
  if (e) { vp_assert(spv_exc(s) != 0, "the exception variable is set"); const char* c = spv_exc_chars(s); if (E->msg[0] != '*') { size_t n = strlen(E->msg); vp_assert(strncmp(c, E->msg, n) == 0 && c[n] == (E->msg[0] == 'E' ? '\\n' : ':'), "message of the exception"); } else vp_assert(c[0] != 0 && c[0] != 'M', "message of a built-in failure"); vp_assert(strstr(c, m) != 0, "the stack trace names the method"); }
  spv_clear_exc(s); OK(CALL(s, "getT", 0)); vp_assert((uint64_t)get_long() == E->T, "the statements executed are exactly those of the documented semantics"); OK(CALL(s, "dropG", 0)); OK(CALL(s, "getD", 0)); vp_assert((uint64_t)get_long() == E->D, "every object was destroyed exactly once"); vp_observe(get_long()); BAL_END }''' % (1 << NB))
    i = tries = 0
    while i < n:
        tries += 1; p = Prog(f"p{i}", random.Random(seed * 1000003 + tries), objs)
        env = {"vars": [], "arrs": [], "loop": 0, "d": 0, "ob": False}
        main = f"p{i}_main"; b = p.block(3, p.r.randint(5, 8), env); b.append(("ret", False, 7)); p.meth[main] = (False, b)
        if not (12 <= size(b) <= 60) or len(p.meth) > 5: continue
        # statements after an unconditional jump are rejected by no one, but keep programs lively
        try: exp = [p.run(main, x) for x in range(1 << NB)]
        except OverflowError: continue
        outs = {(e[0], e[1], e[2], e[3], e[4]) for e in exp}
        if len(outs) < 8: continue
        g.s.append(p.spvm())
        g.c.append(f"static const Exp E{i}[] = {{ " + ", ".join(f'{{ {e[0]}, {e[1]}, "{"Error" if e[2] == "E" else (e[2] or "")}", {e[3]}ULL, {e[4]}ULL }}' for e in exp) + " };")
        g.job(f"prog{i}", f'run(s, "{main}", E{i});'); i += 1
    extra(g); g.write()
    open(f"{H}/{pid}/Ob.spvm", "w").write("class Ob : public {\n  use VP; has w : public long; has next : public Ob; has a : public Ob; has b : public Ob;\n  method DESTROY : void () { %s VP->d($self->{w}); }\n}\n" % destroy)
    open(f"{H}/{pid}/Err1.spvm", "w").write("class Err1 extends Error : public { }\n"); open(f"{H}/{pid}/Err2.spvm", "w").write("class Err2 extends Err1 : public { }\n")
def extra11(g):
    g.method("dieid", "int", [("id", "int"), ("m", "string")], "eval { die $id, $m; }; $D = (long)(eval_error_id); if ($@) { return 1; } return 0;")
    g.method("dieid2", "int", [("id", "int"), ("m", "string")], "die $id, $m; return 5;")
    g.method("diem", "int", [("m", "string")], "eval { die $m; }; if ($@) { return 1; } return 0;")
    g.method("getexc", "string", [], "return $@;", vm=True); g.method("setexc", "int", [("m", "string")], "$@ = $m; if ($@) { return 1; } return 0;")
    g.job("die_id", '''c_int id = sym_int("id"); int n = vp_choice(3, "len"); char b[3]; vp_symbolic(b, n, "message"); void* m = spv_str(s, b, n); OK(CALL(s, "reset", 0));
  if (id == 0) return; set_int(0, id); ST[1].oval = m; OK(CALL(s, "dieid", 2)); vp_assert(get_int() == 1, "the exception is caught"); OK(CALL(s, "getD", 0)); vp_assert(get_long() == id, "eval_error_id is the thrown id"); void* ex = spv_exc(s); vp_assert(ex != 0 && ENV->length(ENV, ST, ex) > n && memcmp(ENV->get_chars(ENV, ST, ex), b, n) == 0 && ENV->get_chars(ENV, ST, ex)[n] == '\\n', "the message is the thrown one, followed by the stack trace");
  set_int(0, id); ST[1].oval = m; int e = CALL(s, "dieid2", 2); vp_assert(e == id, "the error id reaches the native caller"); spv_clear_exc(s);''')
    g.job("die_id0", '''set_int(0, 0); ST[1].oval = spv_str(s, "m", 1); OK(CALL(s, "reset", 0)); int e = CALL(s, "dieid", 2); vp_observe(e); spv_clear_exc(s);''')
    g.job("set_exc", '''int u = vp_choice(2, "undef"); int n = vp_choice(3, "len"); char b[3]; vp_symbolic(b, n, "message"); ST[0].oval = u ? 0 : spv_str(s, b, n); void* m = ST[0].oval; OK(CALL(s, "setexc", 1)); vp_assert(get_int() == !u, "the exception variable is a variable"); void* ex = spv_exc(s); vp_assert(u ? ex == 0 : ex && ENV->length(ENV, ST, ex) == n && memcmp(ENV->get_chars(ENV, ST, ex), b, n) == 0, "and holds the assigned string"); spv_clear_exc(s);''')
B = '"%s random programs of 12..60 statements (nested eval, die with message, class or id, failing operators, native failures, calls, loops, next, last, return%s) with every combination of their 6 conditions"'
if __name__ == "__main__":
    build("C11", '{"pc":"VP","time":150,"bounds":[' + B % ("80", "") + ',"die with every 32-bit id other than 0"]}', 11, 80, False, extra11, 'eval { die "in destructor"; };')
    build("C12", '{"pc":"VP","time":150,"bounds":[' + B % ("80", ", and objects held by variables, fields, elements, a class variable, arguments and return values, with a destructor that itself throws and catches") + ']}', 12, 80, True, lambda g: None, 'eval { die "in destructor"; };')
    build("C13", '{"pc":"VP","time":150,"bounds":[' + B % ("80", ", and objects whose two reference fields are stored, weakened, unweakened, tested and read, without strong cycles left at the end") + ']}', 13, 80, "weak", lambda g: None, "")
