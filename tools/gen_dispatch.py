#!/usr/bin/env python3
"""C15: a random class hierarchy with overrides, optional arguments and interfaces; every call form is compared with the documented method search."""
import random
from gen_lib import *
R = random.Random(15)
SIG = {"m0": [("a", "int", None)], "m1": [("a", "int", None), ("b", "long", 77)], "m2": [("a", "byte", None), ("b", "short", -3), ("c", "int", 1000)], "m3": [("ob", "object", None), ("a", "int", 9)], "m4": [("a", "long", None), ("f", "float", "2.5f"), ("d", "double", "-1.25")], "m5": [("str", "string", "undef"), ("a", "int", 4)], "m6": []}
NC = 10
class C: pass
cls = []
for i in range(NC):
    c = C(); c.n = f"K{i}"; c.i = i; c.p = None if i in (0, 5) else cls[R.randrange(5, i)] if i > 5 and R.random() < .8 else cls[R.randrange(max(0, i - 2), i)]; c.d = {}; c.s = {}; cls.append(c)
def chain(c):
    while c: yield c; c = c.p
def find(c, m): return next((k for k in chain(c) if m in k.d), None)
class D: pass
for c in cls:
    for m in SIG:
        if R.random() < (.8 if not c.p else .45):
            d = D(); d.k = R.randrange(1, 10**6); d.c = c; d.m = m; ps = []
            for a, t, v in SIG[m]:
                if v is not None and v != "undef" and R.random() < .5: v = {"long": 1000 + R.randrange(99), "short": R.randrange(-99, 99), "int": R.randrange(-999, 999), "float": "3.5f", "double": "0.75"}[t]
                ps.append((a, t, v))
            if m in ("m1", "m5") and c.p and R.random() < .35: ps = [(a, t, None) for a, t, v in ps]; d.req = True
            elif R.random() < .3: ps.append(("e", "int", R.randrange(-50, 50)))
            d.ps = ps; d.sup = bool(c.p and find(c.p, m)) and R.random() < .4 and not getattr(d, "req", False); d.virt = m in ("m0", "m1") and R.random() < .5 and find(c, "m6") is not None; d.pre = R.random() < .5
            c.d[m] = d
    if R.random() < .7 or i == 0: c.s["s0"] = (R.randrange(1, 9999), R.randrange(-99, 99))
L = lambda v: f"{v}LL"
def val(t, e):
    return {"float": f"(({e}) == 2.5f ? 3LL : ({e}) == 3.5f ? 5LL : 0)", "double": f"(({e}) > 0.5 ? 11LL : 0)", "object": f"(({e}) ? 100LL : 0)", "string": f"(({e}) ? 200LL : 0)"}.get(t, f"(long long)({e})")
W = {"a": 7, "b": 13, "c": 17, "e": 19}
def term_spvm(a, t):
    if t == "float": return f"if (${a} == 2.5f) {{ $r += 3L; }} if (${a} == 3.5f) {{ $r += 5L; }}"
    if t == "double": return f"if (${a} > 0.5) {{ $r += 11L; }}"
    if t in ("object", "string"): return f"if (${a}) {{ $r += {100 if t == 'object' else 200}L; }}"
    return f"$r += (long)${a} * {W[a]}L;"
def body(c, m, d):
    b = f"my $r = {d.k}L + $self->{{f{c.i}}} * 1000003L; " + " ".join(term_spvm(a, t) for a, t, v in d.ps)
    if d.virt: b += " $r += $self->m6 * 3L;"
    if d.sup: b += f" $r += $self->SUPER::{m}(" + ", ".join(f"${a}" for a, t, v in SIG[m]) + ") * 5L;"
    return b + " return $r;"
def fval(run, c): return L(100 + c.i * 10 + run.i)
def ev(run, d, args):
    """C expression of calling definition d on an object of class run with the given argument expressions; None: too few"""
    e = f"({L(d.k)} + {fval(run, d.c)} * 1000003LL"
    for j, (a, t, v) in enumerate(d.ps):
        if j < len(args): x = args[j]
        elif v is None: return None
        else: x = "0" if v == "undef" else str(v)
        e += " + " + (val(t, x) if t in ("float", "double", "object", "string") else f"{val(t, x)} * {W[a]}LL")
    if d.virt: e += " + 3LL * " + ev(run, find(run, "m6").d["m6"], [])
    if d.sup:
        full = [args[j] if j < len(args) else ("0" if v == "undef" else str(v)) for j, (a, t, v) in enumerate(d.ps[:len(SIG[d.m])])]
        x = ev(run, find(d.c.p, d.m).d[d.m], full)
        if x is None: return None
        e += " + 5LL * " + x
    return e + ")"
def meth(n, d, c): return f"  {'precompile ' if d.pre else ''}method {n} : long (" + ", ".join(f"${a} : {t}" + ("" if v is None else f" = {v}" + ("L" if t == "long" else "")) for a, t, v in d.ps) + f") {{ {body(c, n, d)} }}"
os.makedirs(f"{H}/C15", exist_ok=True)
IF = [("If0", ["m0", "m6"], ["m1"]), ("If1", ["m1"], []), ("If2", [], ["m2", "m3", "m5"]), ("If3", ["m4"], ["m0"])]
for n, req, opt in IF:
    open(f"{H}/C15/{n}.spvm", "w").write(f"class {n} : interface_t public {{\n" + "\n".join(f"  {'required ' if m in req else ''}method {m} : long (" + ", ".join(f"${a} : {t}" + ("" if v is None else f" = {v}" + ("L" if t == "long" else "")) for a, t, v in SIG[m]) + ");" for m in req + opt) + "\n}\n")
def impl(c): return [n for n, req, opt in IF if all(find(c, m) for m in req)]
for c in cls:
    ifs = [n for n in impl(c) if R.random() < .8]; c.ifs = ifs
def ifaces(c): return {n for k in chain(c) for n in k.ifs}
for c in cls:
    t = f"class {c.n}" + (f" extends {c.p.n}" if c.p else "") + " : public {\n" + "".join(f"  use {n};\n" for n in sorted(c.ifs)) + "".join(f"  interface {n};\n" for n in sorted(c.ifs)) + f"  has f{c.i} : public long;\n"
    t += f"  static method new : {c.n} () {{ my $self = new {c.n}; " + " ".join(f"$self->{{f{k.i}}} = {100 + k.i * 10 + c.i}L;" for k in chain(c)) + " return $self; }\n"
    for m, d in c.d.items(): t += meth(m, d, c) + "\n"
    if c.s: k, v = c.s["s0"]; t += f"  static method s0 : long ($a : int, $b : int = {v}) {{ return (long)$a * 3L + (long)$b * 5L + {k}L; }}\n"
    open(f"{H}/C15/{c.n}.spvm", "w").write(t + "}\n")
g = Gen("C15", '{"pc":"VP","time":150,"bounds":["10 classes in 2 trees up to 5 deep with 7 overridden methods of up to 4 arguments, 4 interfaces; every static type, every run-time class and undef, every number of given arguments, all argument values","recursion to depths around the limit of 1000 calls"]}', head="static SPV* CUR; static void* OB[%d];\nstatic void mk(SPV* s, int k) { char n[8]; sprintf(n, \"K%%d\", k); OK(CALLC(s, n, \"new\", 0)); }\n" % NC)
g.cls_head = "  " + " ".join(f"use {c.n};" for c in cls) + " " + " ".join(f"use {n};" for n, _, _ in IF) + "\n  our $SAVE : long;\n"
def syms(m, n):
    o, names = "", []
    for j, (a, t, v) in enumerate(SIG[m][:n]):
        if t in ("int", "long", "byte", "short", "float", "double"): o += f'c_{t} {a} = sym_{t}("{a}"); '; names.append((a, f"set_{t}({j + 1}, {a});"))
        else: o += f'int {a} = vp_choice(2, "{a} defined"); void* p{a} = {a} ? spv_str(s, "xy", 2) : 0; '; names.append((a, f"ST[{j + 1}].oval = p{a};"))
    return o, names
def callsite(T, form, m, n, runs, look):
    """T: static type, runs: possible run-time classes, look(run) -> definition or None"""
    key = f"{T}_{form.replace('::', '_')}_{n}"; ps = SIG[m][:n]
    g.method("c_" + key, "long", [("q", T)] + [(a, t) for a, t, v in ps], f"my $k = $SAVE; my $z = 12345L; my $r = $q->{form}({', '.join('$' + a for a, t, v in ps)}); $SAVE = $k + $z; return $r;")
    o, names = syms(m, n)
    b = f'{o} int ri = vp_choice({len(runs) + 1}, "run-time class"); static const int rk[] = {{ {", ".join(str(r.i) for r in runs)} }}; '
    b += f'if (ri < {len(runs)}) mk(s, rk[ri]); void* q = ri < {len(runs)} ? ST[0].oval : 0; ST[0].oval = q; ' + " ".join(x for _, x in names)
    b += f' int e = CALL(s, "c_{key}", {n + 1}); if (ri == {len(runs)}) {{ vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); }} else {{ long long want = 0; int few = 0; switch (rk[ri]) {{ '
    for r in runs:
        d = look(r); x = ev(r, d, [a for a, _ in names]) if d else None
        b += f"case {r.i}: " + ("few = 1; " if x is None else f"want = {x}; ") + "break; "
    b += '} if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s);'
    g.job(key, b)
desc = lambda c: [r for r in cls if c in chain(r)]
for c in cls:
    for m in SIG:
        k = find(c, m)
        if not k: continue
        ps = k.d[m].ps; req = sum(1 for p in ps if p[2] is None)
        for n in range(req, len(SIG[m]) + 1): callsite(c.n, m, m, n, desc(c), lambda r: find(r, m).d[m])
        if m in ("m1", "m2") : 
            n = len(SIG[m]); callsite(c.n, f"{k.n}::{m}", m, n, desc(c), lambda r: k.d[m])
for n_, req_, opt_ in IF:
    runs = [c for c in cls if n_ in ifaces(c)]
    for m in req_ + opt_:
        rq = sum(1 for p in SIG[m] if p[2] is None)
        for n in range(rq, len(SIG[m]) + 1): callsite(n_, m, m, n, runs, lambda r: find(r, m).d[m] if find(r, m) else None)
    for m in req_ + opt_:
        g.method(f"can_{n_}_{m}", "int", [("q", n_)], f"return $q can {m};")
        g.job(f"can_{n_}_{m}", f'int ri = vp_choice({len(runs)}, "class"); static const int rk[] = {{ {", ".join(str(r.i) for r in runs)} }}, can[] = {{ {", ".join(str(int(find(r, m) is not None)) for r in runs)} }}; mk(s, rk[ri]); OK(CALL(s, "can_{n_}_{m}", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists");')
# static calls
for c in cls:
    if c.s:
        k, v = c.s["s0"]
        for n in (1, 2):
            g.method(f"s_{c.n}_{n}", "long", [("a", "int"), ("b", "int")], f"return {c.n}->s0($a" + (", $b" if n == 2 else "") + ");")
            g.job(f"s_{c.n}_{n}", f'c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_{c.n}_{n}", 2)); vp_assert(get_long() == (long long)a * 3 + (long long){"b" if n == 2 else v} * 5 + {k}LL, "a static call runs the named class\'s method");')
# native dynamic calls
for m in ("m0", "m1", "m2", "m3"):
    o, names = syms(m, len(SIG[m])); runs = [c for c in cls if find(c, m)]
    b = f'{o} int ri = vp_choice({len(runs)}, "class"); static const int rk[] = {{ {", ".join(str(r.i) for r in runs)} }}; mk(s, rk[ri]); ' + " ".join(x for _, x in names) + f' int e = 0; ENV->call_instance_method_by_name(ENV, ST, "{m}", {len(names) + 1}, &e, "f", "F", 1); OK(e); long long want = 0; switch (rk[ri]) {{ ' + " ".join(f"case {r.i}: want = {ev(r, find(r, m).d[m], [a for a, _ in names])}; break;" for r in runs) + ' } vp_assert(get_long() == want, "a native call by name finds the same method");'
    g.job(f"native_{m}", b)
g.s.append('''  static method rec : int ($n : int) { if ($n <= 0) { return 0; } return VP->rec($n - 1) + 1; }
  precompile static method recp : int ($n : int) { if ($n <= 0) { return 0; } return VP->recp($n - 1) + 1; }
  precompile static method reca : int ($n : int) { if ($n <= 0) { return 0; } return VP->recb($n - 1) + 1; }
  static method recb : int ($n : int) { if ($n <= 0) { return 0; } my $k = $n * 3; my $r = VP->reca($n - 1) + 1; if ($k != $n * 3) { return -1; } return $r; }
  precompile static method safe : int ($n : int) { my $k = $n ^ 1234567; my $r = -7; eval { $r = VP->recb($n); }; if (($k ^ 1234567) != $n) { return -2; } if ($@) { return -1 - (int)($r == -7); } return $r; }''')
for m in ("rec", "recp", "reca", "safe"):
    g.job("depth_" + m, f'static const int at[] = {{ 1, 500, 997, 998, 999, 1000, 1001, 1500 }}; int n = at[vp_choice(8, "depth")]; for (int round = 0; round < 2; round++) {{ set_int(0, n); int e = CALL(s, "{m}", 1); int deep = n + 1{" + 1" if m == "safe" else ""} > 1000; ' + ('OK(e); vp_assert(get_int() == (deep ? -2 : n), "an exception of the depth limit is caught and the variables of the caller are intact");' if m == "safe" else 'vp_assert(!e == !deep, "the call depth limit is 1000"); if (e) { vp_assert(spv_exc_is(s, "Deep recursion"), "message"); spv_clear_exc(s); } else vp_assert(get_int() == n, "value of the recursion");') + " }")
g.write()
print(len(g.c) - 1, "jobs;", [(c.n, c.p and c.p.n, sorted(c.ifs)) for c in cls])
