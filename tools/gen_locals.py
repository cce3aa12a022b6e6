#!/usr/bin/env python3
"""Generates the C09 harness: straight-line and branching programs over local variables, references and arguments,
emitted as an SPVM method and as the C function that defines its meaning."""
import sys, os, random; sys.path.insert(0, "/verif/tools")
from gen_lib import *
SC = I + F; ALL = SC + ["string"]
CT = {"string": "void*", **{t: "c_" + t for t in SC}}
g = Gen("C09", '{"pc":"VP","time":150,"bounds":["64 generated methods of 40..110 statements with up to 70 variables of 7 types in nested blocks, loops, branches, eval blocks, references and calls; all argument values symbolic","a method with 300 local variables; methods with 20 arguments of mixed types; recursion to depth 4"]}', cls_head="")
class P:
    def __init__(s, seed, size): s.r = random.Random(seed); s.sp, s.c, s.scopes, s.n, s.out, s.ind, s.left, s.conds, s.depth = [], [], [[]], 0, {"l": 0, "d": 0, "o": 0}, 0, size, 0, 0
    def e(s, sp, c=None): s.sp.append(sp); s.c.append(sp if c is None else c)
    def vars(s, t, writable=False): return [v for sc in s.scopes for v in sc if v[1] == t and v[0] not in ("i0", "i1", "i2", "i3") or (not writable and v[1] == t and v[0].startswith("i") and 0)]
    def refs(s, t): return [v for sc in s.scopes for v in sc if v[1] == t + "*"]
    def visible(s, name): return [v for sc in s.scopes for v in sc if v[0] == name][-1]
    def expr(s, t, avoid=None):
        vs = [v for v in s.vars(t) if v[0] != avoid]; rs = [v for v in s.refs(t) if v[0] != avoid and v[2] != avoid]; k = s.r.random()
        if rs and k < .2: v = s.r.choice(rs); return f"$${v[0]}", f"*{v[0]}"
        v = s.r.choice(vs); 
        if t in ("int", "long") and k < .35 and len(vs) > 1: w = s.r.choice(vs); return f"${v[0]} + ${w[0]}", f"({CT[t]})({v[0]} + {w[0]})"
        if k < .45 and t != "string": return f"VP->id_{t}(${v[0]})", v[0]
        if k < .5 and t in ("byte", "short"): return f"({t})(${v[0]} ^ ${s.r.choice(vs)[0]})".replace("^ $" , "^ $"), None
        return f"${v[0]}", v[0]
    def ex(s, t, avoid=None):
        while True:
            a, b = s.expr(t, avoid)
            if b is not None: return a, b
    def stmt(s):
        r = s.r; k = r.random(); s.left -= 1; t = r.choice(ALL)
        if k < .27:
            n = f"v{s.n}"; s.n += 1
            if s.depth and r.random() < .2:   # shadow an outer variable
                outer = [v for sc in s.scopes[:-1] for v in sc if v[0].startswith("v") and "#" not in v[0] and all(v[0] != w[0] for w in s.scopes[-1])]
                # the shadowed name must not be in use as the target of a visible reference in this scope
                outer = [v for v in outer if v[0] not in [x[2] for sc in s.scopes for x in sc if x[2]]]
                if outer: n = r.choice(outer)[0]
            for sc in s.scopes[:-1]: pass
            hidden = [v for sc in s.scopes[:-1] for v in sc if v[0] == n]
            if r.random() < .4: s.e(f"my ${n} : {t};", f"{CT[t]} {n} = 0;")
            else: a, b = s.ex(t, n); s.e(f"my ${n} : {t} = {a};" if r.random() < .5 or not a.startswith("$") or "+" in a or "-" in a or "$$" in a else f"my ${n} = {a};", f"{CT[t]} {n} = {b};")
            if hidden:
                for sc in s.scopes[:-1]:
                    for j, v in enumerate(sc):
                        if v[0] == n: sc[j] = (n + "#hidden%d" % s.depth, "hidden", None, v)
            s.scopes[-1].append((n, t, None))
        elif k < .34 and t != "string":
            vs = [v for v in s.vars(t)]; v = r.choice(vs); n = f"r{s.n}"; s.n += 1; s.e(f"my ${n} = \\${v[0]};", f"{CT[t]}* {n} = &{v[0]};"); s.scopes[-1].append((n, t + "*", v[0]))
        elif k < .42:
            rs = [v for x in SC for v in s.refs(x)]
            if rs:
                v = r.choice(rs); t = v[1][:-1]; a, b = s.ex(t)
                if r.random() < .5: s.e(f"$${v[0]} = {a};", f"*{v[0]} = {b};")
                else: s.e(f"VP->put_{t}(${v[0]}, {a});", f"*{v[0]} = {b};")
        elif k < .46 and t in ("int", "long"):
            v = r.choice(s.vars(t)); op = r.choice(["++", "--"]); s.e(f"${v[0]}{op};", f"{v[0]} = ({CT[t]})({v[0]} {op[0]} 1);")
        elif k < .66: v = r.choice(s.vars(t)); a, b = s.ex(t); s.e(f"${v[0]} = {a};", f"{v[0]} = {b};")
        elif k < .72: s.output(r.choice(ALL))
        elif s.depth < 4 and s.left > 4:
            if k < .80: s.block("{", "{")
            elif k < .86 and s.conds < 2: s.conds += 1; v = r.choice(s.vars("int")); s.block(f"if (${v[0]} > 3) {{", f"if ({v[0]} > 3) {{"); (s.block("else {", "else {") if r.random() < .6 else None)
            elif k < .93 and s.depth < 2: i = f"i{s.depth}"; s.block(f"for (my ${i} = 0; ${i} < 2; ${i}++) {{", f"for (c_int {i} = 0; {i} < 2; {i}++) {{")
            else: s.block("eval {", "{", 'die "x";' if r.random() < .5 else "")
        elif k < .95: s.e(f"VP->noise();", ";")
    def block(s, a, b, tail=""):
        s.e(a, b); s.scopes.append([]); s.depth += 1
        for _ in range(s.r.randint(2, 7)): s.stmt()
        if tail: s.e(tail, ";")
        s.e("};" if a.startswith("eval") else "}", "}"); s.scopes.pop()
        for sc in s.scopes:
            for j, v in enumerate(sc):
                if v[1] == "hidden" and v[0].endswith("#hidden%d" % s.depth): sc[j] = v[3]
        s.depth -= 1
    def output(s, t):
        a, b = s.ex(t); k = "o" if t == "string" else "d" if t in F else "l"; 
        if s.out[k] >= 40: return
        i = s.out[k]; s.out[k] += 1; arr = {"l": "lo", "d": "dd", "o": "oo"}[k]
        s.e(f"${arr}->[{i}] = {a};", f"x{arr}[{i}] = {b};")
for t in SC:
    g.method(f"id_{t}", t, [("x", t)], "my $y = 1; { my $z = 5L; $z++; } return $x;"); g.method(f"put_{t}", "void", [("r", t + "*"), ("x", t)], "my $q = 7; $$r = $x; $q++;")
g.method("noise", "int", [], "my $a = 1; my $b = 2L; my $c = 3.0; my $s = \"noise\" . $a; my $o = [1, 2, 3]; return $a + (int)$b;")
for i in range(64):
    p = P(1000 + i, [40, 70, 110][i % 3]); args = [(f"{t[0]}{t[1]}{k}", t) for t in SC for k in (0, 1)] + [("st0", "string"), ("st1", "string")]
    args = [({"by": "a", "sh": "b", "in": "c", "lo": "d", "fl": "e", "do": "f", "st": "g"}[n[:2]] + n[2:], t) for n, t in args]; p.r.shuffle(args)
    p.scopes[0] = [(n, t, None) for n, t in args]
    while p.left > 0: p.stmt()
    for t in ALL:
        for v in [v for v in p.scopes[0] if v[1] == t]:
            k = "o" if t == "string" else "d" if t in F else "l"; j = p.out[k]; p.out[k] += 1; arr = {"l": "lo", "d": "dd", "o": "oo"}[k]; p.e(f"${arr}->[{j}] = ${v[0]};", f"x{arr}[{j}] = {v[0]};")
    g.method(f"p{i}", "void", args + [("lo", "long[]"), ("dd", "double[]"), ("oo", "object[]")], "\n    " + "\n    ".join(p.sp) + "\n  ")
    nl, nd, no = p.out["l"] or 1, p.out["d"] or 1, p.out["o"] or 1
    g.c.append(f"static void ref_p{i}({', '.join(CT[t] + ' ' + n for n, t in args)}, c_long* xlo, c_double* xdd, void** xoo) {{\n  " + "\n  ".join(p.c) + "\n}")
    dec = " ".join((f'{CT[t]} {n} = sym_{t}("{n}");' if t != "string" else f'void* {n} = vp_choice(2, "{n}") ? spv_str(s, "{n}", 2) : 0;' if n == "g0" and i % 8 == 0 else f'void* {n} = spv_str(s, "{n}", 2);') for n, t in args)
    st = " ".join(f"set_{t}({j}, {n});" if t != "string" else f"ST[{j}].oval = {n};" for j, (n, t) in enumerate(args)); w = len(args)
    g.job(f"p{i}", f'''{dec} c_long xlo[{nl}] = {{0}}; c_double xdd[{nd}] = {{0}}; void* xoo[{no}] = {{0}}; void* lo = ENV->new_long_array(ENV, ST, {nl}); void* dd = ENV->new_double_array(ENV, ST, {nd}); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), {no});
  {st} ST[{w}].oval = lo; ST[{w + 1}].oval = dd; ST[{w + 2}].oval = oo; OK(CALL(s, "p{i}", {w + 3})); ref_p{i}({', '.join(n for n, t in args)}, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < {nl}; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < {nd}; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < {no}; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned");''')
# many variables
for t in ("int", "double", "byte", "string"):
    n = 300; arr = {"string": "object[]"}.get(t, t + "[]")
    g.method(f"many_{t}", "void", [("a", t), ("b", t), ("o", arr)], " ".join(f"my $v{k}{' : ' + t if k % 3 == 0 else ' = $a' if k % 3 == 1 else ' = $b'};" for k in range(n)) + " VP->noise(); { my $t0 = 1L; my $t1 = 2; } " + " ".join(f"$o->[{k}] = $v{k};" for k in range(n)))
    get = "ENV->get_elem_object(ENV, ST, o, k)" if t == "string" else "p[k]"
    g.job(f"many_{t}", (f'c_{t} a = sym_{t}("a"), b = sym_{t}("b"); void* o = ENV->new_{t}_array(ENV, ST, {n}); c_{t}* p = ENV->get_elems_{t}(ENV, ST, o); set_{t}(0, a); set_{t}(1, b);' if t != "string" else f'void* a = spv_str(s, "a", 1); void* b = spv_str(s, "b", 1); void* o = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), {n}); ST[0].oval = a; ST[1].oval = b;') + f' ST[2].oval = o; OK(CALL(s, "many_{t}", 3)); for (int k = 0; k < {n}; k++) vp_assert(' + (f'{get} == (k % 3 == 0 ? 0 : k % 3 == 1 ? a : b)' if t == "string" else f'same_{t}({get}, (k % 3 == 0 ? 0 : k % 3 == 1 ? a : b))') + ', "each of many variables keeps its value");')
# a declaration starts as zero or undef every time it runs
for t in SC:
    g.method(f"decl_{t}", t, [("x", t), ("n", "int")], f"my $last : {t}; for (my $i = 0; $i < $n; $i++) {{ my $d : {t}; $last = $d; $d = $x; {{ my $e : {t}; $last = ({t})($last + $e); $e = $x; }} }} return $last;" if t in ("int", "long", "float", "double") else f"my $last : {t}; for (my $i = 0; $i < $n; $i++) {{ my $d : {t}; $last = $d; $d = $x; }} return $last;")
    g.job(f"decl_{t}", f'c_{t} x = sym_{t}("x"); set_{t}(0, x); ST[1].ival = 3; OK(CALL(s, "decl_{t}", 2)); vp_assert(get_{t}() == 0, "a declaration without initialiser starts at zero each time");')
g.method("decl_o", "int", [("x", "object"), ("n", "int")], "my $bad = 0; for (my $i = 0; $i < $n; $i++) { my $d : object; if ($d) { $bad++; } $d = $x; { my $e : string[]; if ($e) { $bad++; } $e = new string[1]; } if ($i == 1) { next; } my $f : object; if ($f) { $bad++; } $f = $x; } return $bad;")
g.job("decl_o", 'ST[0].oval = spv_str(s, "x", 1); ST[1].ival = 4; OK(CALL(s, "decl_o", 2)); vp_assert(get_int() == 0, "object declarations start undef each time");')
# recursion keeps a frame per call
g.method("rec", "long", [("x", "int"), ("y", "long"), ("d", "int")], "my $a = $x; my $b = $y; if ($d > 0) { my $r = VP->rec($x + 1, $y + 10L, $d - 1); if ($a != $x || $b != $y) { die \"frame\"; } return $r + $a - $x; } return $b + $a;")
g.job("rec", 'c_int x = sym_int("x"); c_long y = sym_long("y"); for (int d = 0; d < 5; d++) { ST[0].ival = x; ST[1].lval = y; ST[2].ival = d; OK(CALL(s, "rec", 3)); vp_assert(get_long() == (c_long)((uint64_t)y + 10 * d + (int64_t)(int32_t)((uint32_t)x + d)), "recursion keeps each frame"); }')
# mixed assignments of objects through nested blocks
g.method("swap", "int", [("a", "string"), ("b", "string"), ("c", "int")], "my $t = $a; $a = $b; $b = $t; { my $a = \"inner\"; my $b = $a; $t = $b; } if ($c) { my $t = $a; $a = $b; $b = $t; } if ($a eq \"A\" && $b eq \"B\" && $t eq \"inner\") { return 1; } elsif ($a eq \"B\" && $b eq \"A\" && $t eq \"inner\") { return 2; } return 0;")
g.job("swap", 'c_int c = sym_int("c"); ST[0].oval = spv_str(s, "A", 1); ST[1].oval = spv_str(s, "B", 1); ST[2].ival = c; OK(CALL(s, "swap", 3)); vp_assert(get_int() == (c ? 1 : 2), "object variables swap and shadow correctly");')
g.write()
