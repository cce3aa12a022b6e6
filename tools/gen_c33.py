#!/usr/bin/env python3
"""Writes harness/C33/VP.spvm (programs of nested control statements) and harness/C33/ref.h: the same programs written
with nothing but conditional gotos from the documented expansion of each statement. Deterministic; run by hand."""
import random, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/C33/"
KINDS = ["if", "ifelse", "elsif", "unless", "unlesselse", "while", "while1", "for", "forever", "foreach", "switch", "switchbig", "block", "eval"]
class G:
    def __init__(s, n): s.r = random.Random(n); s.n = 0; s.k = 0; s.sp = []; s.c = []; s.ints = ["a", "b", "c"]; s.decl = []
    def id(s): s.n += 1; return s.n
    def tick(s): s.k += 1; return s.k
    def e(s, sp, c=None): s.sp.append(sp); s.c.append(sp if c is None else c)
    def trace(s): k = s.tick(); s.e(f"$VP::T = $VP::T * 31 + {k};", f"T = T * 31 + {k};")
    def cond(s, d=2, small=None):
        r = s.r; x = r.choice(s.ints)
        w = r.randrange(9 if d else 5)
        if w < 3:
            op = r.choice(["==", "!=", "<", ">", "<=", ">="]); v = r.choice([0, 1, 2, -1, 7]); return f"${x} {op} {v}", f"{x} {op} {v}"
        if w == 3: return f"${x}", f"{x}"
        if w == 4: y = r.choice(s.ints); return f"${x} < ${y}", f"{x} < {y}"
        if w == 5: a = s.cond(d - 1); return f"!({a[0]})", f"!({a[1]})"
        if w == 6: k = s.tick(); return f"&p({k}, ${x})", f"p({k}, {x})"
        a, b = s.cond(d - 1), s.cond(d - 1); o = r.choice(["&&", "||"]); return f"({a[0]}) {o} ({b[0]})", f"({a[1]}) {o} ({b[1]})"
    def jump(s, ctx):
        opts = ["return"]
        if ctx.get("next"): opts += ["next", "last", "next", "last"]
        if ctx.get("brk"): opts += ["break", "break"]
        opts.append("die"); j = s.want if getattr(s, "want", None) in opts else s.r.choice(opts)
        if j == "next": s.e("next;", f"goto {ctx['next']};")
        elif j == "last": s.e("last;", f"goto {ctx['last']};")
        elif j == "break": s.e("break;", f"goto {ctx['brk']};")
        elif j == "return": k = s.tick(); s.e(f"return {k};", f"return {k};")
        else:
            if ctx.get("eval"): s.e('die "x";', f"{{ ex = 1; goto {ctx['eval']}; }}")
            else: s.e('die "x";', "{ *err = 1; return 0; }")
    def condjump(s, ctx): a, b = s.cond(1); s.e(f"if ({a}) {{", f"if (!({b})) goto J{(i := s.id())};"); s.trace(); s.jump(ctx); s.e("}", f"J{i}:;")
    def body(s, d, ctx, inner=None):
        keep = list(s.ints); v = f"v{s.id()}"; s.decl.append(v)
        what = s.r.randrange(4)
        if what == 0: s.e(f"my ${v} : int; $VP::T += ${v}; ${v} = 5;", f"{v} = 0; T += {v}; {v} = 5;")
        elif what == 1: s.e(f"my ${v} = new VP;", ";")
        elif what == 2: s.e(f"my ${v} = &p({(k := s.tick())}, $a);", f"{v} = p({k}, a);"); s.ints.append(v)
        s.trace()
        if inner: s.stmt(inner, d, ctx)
        elif d > 0 and s.r.random() < .8: s.stmt(s.r.choice(KINDS), d, ctx)
        if s.r.random() < (.9 if d <= 1 else .5): s.condjump(ctx)
        if s.r.random() < .5: s.trace()
        s.ints = keep
    def stmt(s, kind, d, ctx, inner=None):
        i = s.id(); r = s.r; b = lambda c=ctx: s.body(d - 1, c, inner)
        loop = dict(ctx, next=f"N{i}", last=f"L{i}")
        if kind in ("if", "unless", "ifelse", "unlesselse", "elsif"):
            arms = [(kind.replace("else", "") if kind != "elsif" else "if")] + (["elsif"] * r.choice([1, 2]) if kind == "elsif" else []) + (["else"] if kind in ("ifelse", "unlesselse") or kind == "elsif" and r.random() < .6 else [])
            pick = r.randrange(len(arms))
            for n, arm in enumerate(arms):
                if arm == "else": s.e("else {", ";")
                else: x, y = s.cond(); s.e(f"{arm} ({x}) {{", f"if ({'' if arm == 'unless' else '!'}({y})) goto A{i}_{n};")
                s.body(d - 1, ctx, inner if n == pick else None) if n == pick or d > 1 and r.random() < .3 else s.trace()
                s.e("}", f"goto E{i}; A{i}_{n}:;")
            s.e("", f"E{i}:;")
        elif kind == "while":
            w = f"w{i}"; s.decl.append(w); x = r.choice(["a", "b", "c"]); s.e(f"my ${w} = 0; while (${w} < (${x} & 3)) {{ ${w}++;", f"{w} = 0; N{i}: if (!({w} < ({x} & 3))) goto L{i}; {w}++;"); s.ints.append(w); b(loop); s.ints.remove(w); s.e("}", f"goto N{i}; L{i}:;")
        elif kind == "while1":
            w = f"w{i}"; s.decl.append(w); s.e(f"my ${w} = 0; while (1) {{ if (${w}++ >= 2) {{ last; }}", f"{w} = 0; N{i}: if ({w}++ >= 2) goto L{i};"); s.ints.append(w); b(loop); s.ints.remove(w); s.e("}", f"goto N{i}; L{i}:;")
        elif kind == "for":
            w = f"i{i}"; s.decl.append(w); x = r.choice(["2", "3", "($a & 3)", "($b & 1)"]); y = x.replace("$", ""); k = s.tick(); s.e(f"for (my ${w} = 0; ${w} < {x}; ${w} = &q({k}, ${w})) {{", f"{w} = 0; C{i}: if (!({w} < {y})) goto L{i};"); s.ints.append(w); b(loop); s.ints.remove(w); s.e("}", f"N{i}: {w} = q({k}, {w}); goto C{i}; L{i}:;")
        elif kind == "forever":
            w = f"i{i}"; s.decl.append(w); s.e(f"for (my ${w} = 0; 1; ${w}++) {{ if (${w} > 1) {{ last; }}", f"{w} = 0; C{i}: if ({w} > 1) goto L{i};"); s.ints.append(w); b(loop); s.ints.remove(w); s.e("}", f"N{i}: {w}++; goto C{i}; L{i}:;")
        elif kind == "foreach":
            w = f"e{i}"; n = f"n{i}"; s.decl += [w, n]; m = r.choice([0, 2, 3, 3]); vals = [r.choice([0, 1, 7, -1]) for _ in range(m)]
            arr = "[" + ", ".join(map(str, vals)) + "]" if m else "new int[0]"; s.e(f"my $y{i} = {arr}; for my ${w} (@$y{i}) {{", f"{n} = 0; C{i}: if (!({n} < {m})) goto L{i}; {{ static const int t[] = {{ {', '.join(map(str, vals + [0]))} }}; {w} = t[{n}]; }}"); s.ints.append(w); b(loop); s.ints.remove(w); s.e("}", f"N{i}: {n}++; goto C{i}; L{i}:;")
        elif kind in ("switch", "switchbig"):
            x = r.choice(s.ints); sx, cx = r.choice([(f"${x}", x), (f"${x} & 7", f"({x} & 7)"), (f"(byte)${x}", f"(int)(int8_t){x}"), (f"&p({(k := s.tick())}, ${x})", f"p({k}, {x})")])
            pool = [0, 1, 2, 3, 4, 5, 6, 7] if r.random() < .5 else [-2147483648, -129, -128, -7, -1, 0, 1, 2, 5, 97, 127, 128, 1000000, 2147483647]
            r.shuffle(pool); labels = pool[:r.randrange(1, 4) if kind == "switch" else min(len(pool), r.randrange(6, 10))]; v = f"s{i}"; s.decl.append(v); groups = []
            while labels: groups.append([labels.pop() for _ in range(min(len(labels), r.choice([1, 1, 1, 2, 3])))])
            dflt = r.random() < .6; arms = len(groups) + dflt; pick = r.randrange(arms) if arms else 0; c2 = dict(ctx, brk=f"B{i}")
            s.e(f"switch ({sx}) {{", f"{v} = {cx};" + "".join(f" if ({v} == {'INT32_MIN' if l == -2147483648 else l}) goto S{i}_{n};" for n, g in enumerate(groups) for l in g) + (f" goto D{i};" if dflt else f" goto B{i};"))
            sp = lambda l: {0: r.choice(["0", "VP->E0"]), 1: r.choice(["1", "VP->E1"]), 97: r.choice(["97", "'a'"])}.get(l, str(l))
            for n, g in enumerate(groups):
                s.e(" ".join(f"case {sp(l)}:" for l in g) + " {", f"S{i}_{n}:;"); s.body(d - 1, c2, inner) if n == pick else s.condjump(c2) if n == 0 else s.trace(); s.e("}", f"goto B{i};")
            if dflt: s.e("default: {", f"D{i}:;"); s.body(d - 1, c2, inner) if pick == arms - 1 else s.trace(); s.e("}", ";")
            s.e("}", f"B{i}:;")
        elif kind == "block": s.e("{", ";"); b(); s.e("}", ";")
        elif kind == "eval": s.e("eval {", "ex = 0;"); b(dict(ctx, eval=f"V{i}")); s.e("};", f"V{i}:;"); k = s.tick(); s.e(f"if ($@) {{ $VP::T = $VP::T * 31 + {k}; }}", f"if (ex) {{ T = T * 31 + {k}; }}")
progs = []
def add(seed, kind, inner, want=None):
    g = G(seed); g.want = want; g.trace(); g.stmt(kind, 2, {}, inner); g.trace(); g.e("return 0;", "return 0;"); progs.append(g)
n = 0
for o in KINDS:
    for i in KINDS: n += 1; add(n, o, i)
for j in ("next", "last", "break", "die", "return"):
    for o in ("for", "while", "foreach", "switchbig", "eval", "forever"):
        for i in ("for", "switch", "eval", "while1", "foreach", "block"): n += 1; add(n, o, i, j)
for _ in range(60):
    n += 1; g = G(n); g.want = None; g.trace(); g.stmt(g.r.choice(KINDS), 3, {}); g.stmt(g.r.choice(KINDS), 2, {}); g.e("return 0;", "return 0;"); progs.append(g)
sp = ["# written by tools/gen_c33.py", "class VP {", "  enum { E0, E1 }", "  our $T : rw int;", "  static method p : int ($k : int, $v : int) { $VP::T = $VP::T * 31 + $k; return $v; }", "  static method q : int ($k : int, $v : int) { $VP::T = $VP::T * 31 + $k; return $v + 1; }"]
c = ["// written by tools/gen_c33.py", f"enum {{ NPROG = {len(progs)} }};"]
for m, g in enumerate(progs):
    g.sp = [x for x in g.sp if x]
    sp.append(f"  static method p{m} : int ($a : int, $b : int, $c : int) {{\n    " + "\n    ".join(g.sp) + "\n  }")
    c.append(f"static int r{m}(int a, int b, int c, int* err) {{ int ex = 0; (void)ex; " + ("int " + ", ".join(x + " = 0" for x in g.decl) + "; " if g.decl else "") + " ".join(g.c) + " }")
sp.append("}"); c.append("static int (*const REF[])(int, int, int, int*) = { " + ", ".join(f"r{m}" for m in range(len(progs))) + " };")
open(H + "VP.spvm", "w").write("\n".join(sp) + "\n"); open(H + "ref.h", "w").write("\n".join(c) + "\n"); print(len(progs))
