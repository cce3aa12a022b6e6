#!/usr/bin/env python3
"""Generates the operator harnesses C01..C04 (C jobs and SPVM classes) from tables of operators and types."""
import sys; sys.path.insert(0, "/verif/tools")
from gen_lib import *
# ---------------------------------------------------------------- C01 arithmetic
g = Gen("C01", '{"pc":"VP","time":120,"bounds":["every pair of operand types and every operand value (no bound on values)","one operator application per run, in a local, field, element, class variable or reference"]}', cls_head=FLD)
OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%"}
def expected(op, r, x="x", y="y"):
    """C text of the documented result in result type r"""
    if r in F: return f"(c_{r})((c_{r}){x} {OPS[op]} (c_{r}){y})"
    if op in ("add", "sub", "mul"): return f"(c_{r})(({U[r]})(c_{r}){x} {OPS[op]} ({U[r]})(c_{r}){y})"
    return f"spec_{op}_{r}({x}, {y})"
for r in ("int", "long"):
    mn = "INT32_MIN" if r == "int" else "INT64_MIN"
    g.c.append(f"static c_{r} spec_div_{r}(c_{r} x, c_{r} y) {{ return y == -1 ? (c_{r})(0 - ({U[r]})x) : x / y; }}")
    g.c.append(f"static c_{r} spec_mod_{r}(c_{r} x, c_{r} y) {{ if (y == -1) return 0; c_{r} m = x % y; if ((x < 0) != (y < 0) && m) m += y; return m; }}")
g.c.append('static void zero_div(SPV* s, int e) { vp_assert(e != 0, "division by zero throws"); vp_assert(e == SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS, "with the basic error id"); vp_assert(spv_exc_is(s, "0"), "with a message"); vp_reach("zero divisor"); }')
for op in OPS:
    for t in N:
        for u in N:
            if op == "mod" and (t in F or u in F): continue
            r = prom(t, u); nm = f"{op}_{t}_{u}"; g.method(nm, r, [("x", t), ("y", u)], f"return $x {OPS[op]} $y;")
            z = r in I and op in ("div", "mod"); b = args2(t, u) + f" int e = CALL(s, \"{nm}\", 2); vp_observe(e);"
            if z: b += ' vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; }'
            b += f" OK(e); c_{r} r = get_{r}(); vp_assert(same_{r}(r, {expected(op, r)}), \"result of {t} {OPS[op]} {u}\");"
            if r in I: b += f" obs_{r}(r);"
            g.job(nm, b)
for op, o, t, cop in (("divu", "div_uint", "int", "/"), ("modu", "mod_uint", "int", "%"), ("divu", "div_ulong", "long", "/"), ("modu", "mod_ulong", "long", "%")):
    g.method(o, t, [("x", t), ("y", t)], f"return $x {o} $y;")
    g.job(o, args2(t, t) + f' int e = CALL(s, "{o}", 2); vp_must("zero divisor"); if (y == 0) {{ zero_div(s, e); return; }} OK(e); c_{t} r = get_{t}(); vp_assert(same_{t}(r, (c_{t})(({U[t]})x {cop} ({U[t]})y)), "result of {o}"); obs_{t}(r);')
for t in N:
    r = prom(t); g.method(f"neg_{t}", r, [("x", t)], "return -$x;"); g.method(f"plus_{t}", r, [("x", t)], "return +$x;")
    ng = f"(c_{r})(0 - ({U[r]})(c_{r})x)" if r in I else f"-(c_{r})x"
    g.job(f"neg_{t}", f'c_{t} x = sym_{t}("x"); set_{t}(0, x); OK(CALL(s, "neg_{t}", 1)); vp_assert(same_{r}(get_{r}(), {ng}), "negation"); set_{t}(0, x); OK(CALL(s, "plus_{t}", 1)); vp_assert(same_{r}(get_{r}(), (c_{r})x), "unary plus");')
# assignment forms and increments in every kind of place; the value of the expression and the stored value
LV = {"local": ("$x", ""), "field": (None, "my $o = new VP;"), "elem": (None, ""), "cvar": (None, ""), "ref": (None, "")}
def place(kind, t):
    if kind == "local": return "$x", "", "$x"
    if kind == "field": return f"$o->{{{fld(t)}}}", f"my $o = new VP; $o->{{{fld(t)}}} = $x;", f"$o->{{{fld(t)}}}"
    if kind == "elem": return "$a->[1]", f"my $a = new {t}[3]; $a->[1] = $x;", "$a->[1]"
    if kind == "cvar": return cv(t), f"{cv(t)} = $x;", cv(t)
    return "$$r", "my $r = \\$x;", "$x"
for t in N:
    for kind in LV:
        lv, pre, rd = place(kind, t)
        for nm, ex, d, post in (("preinc", "++{}", "+", 0), ("predec", "--{}", "-", 0), ("postinc", "{}++", "+", 1), ("postdec", "{}--", "-", 1)):
            m = f"{nm}_{kind}_{t}"; g.method(m, t, [("x", t), ("out", t + "[]")], f"{pre} my $v = {ex.format(lv)}; $out->[0] = $v; return {rd};")
        m2 = " ".join(f'''set_{t}(0, x); ST[1].oval = out; OK(CALL(s, "{nm}_{kind}_{t}", 2)); {{ c_{t} w = (c_{t})(({prom(t) if t in F else 'c_' + prom(t)})x {d} 1); vp_assert(same_{t}(get_{t}(), w), "stored value of {nm}"); vp_assert(same_{t}(ENV->get_elems_{t}(ENV, ST, out)[0], {"x" if post else "w"}), "value of {nm}"); }}''' for nm, d, post in (("preinc", "+", 0), ("predec", "-", 0), ("postinc", "+", 1), ("postdec", "-", 1)))
        g.job(f"incdec_{kind}_{t}", f'c_{t} x = sym_{t}("x"); void* out = ENV->new_{t}_array(ENV, ST, 1); {m2}')
for op in OPS:
    for t in N:
        for u in N:
            if op == "mod" and (t in F or u in F): continue
            r = prom(t, u); kinds = ["local", "elem"] if t == u else ["local"]
            if t == u: kinds += ["field", "cvar", "ref"]
            for kind in kinds:
                lv, pre, rd = place(kind, t); nm = f"as_{op}_{kind}_{t}_{u}"
                if op in ("div", "mod") and r in I: g.method(nm, t, [("x", t), ("y", u)], f"{pre} my $k = 0; eval {{ {lv} {OPS[op]}= $y; $k = 1; }} if ($k == 0) {{ CB_SEEN(); }} return {rd};".replace("CB_SEEN();", "$SEEN = 1;"))
                else: g.method(nm, t, [("x", t), ("y", u)], f"{pre} {lv} {OPS[op]}= $y; return {rd};")
                b = args2(t, u) + f' int e = CALL(s, "{nm}", 2); OK(e);'
                if op in ("div", "mod") and r in I: b += f' if (y == 0) {{ vp_assert(same_{t}(get_{t}(), x), "a failed division leaves the destination unchanged"); return; }}'
                ex = expected(op, r)
                if r in F and t in I: conv = f"conv_{r}_{t}({ex})"
                else: conv = f"(c_{t})({ex})"
                g.job(nm, b + f' vp_assert(same_{t}(get_{t}(), {conv}), "{t} {OPS[op]}= {u}");')
for r in F:
    for t in I:
        # same instruction as the compiled cast; out-of-range conversions are C-undefined and pinned to the same operation
        g.c.insert(1, f"static inline c_{t} conv_{r}_{t}(c_{r} v) {{ return (c_{t})v; }}")
g.cls_head += "  our $SEEN : public int;\n"
# nested expressions: temporaries must not clobber each other
for t in ("int", "long"):
    g.method(f"nest_{t}", t, [("a", t), ("b", t), ("c", t), ("d", t)], "return ($a + $b) * ($c - $d) - ($a * $d + -$b) * ($c + 3);")
    g.job(f"nest_{t}", f'{U[t]} a = sym_{t}("a"), b = sym_{t}("b"), c = sym_{t}("c"), d = sym_{t}("d"); set_{t}(0, a); set_{t}(1, b); set_{t}(2, c); set_{t}(3, d); OK(CALL(s, "nest_{t}", 4)); {U[t]} w = (a + b) * (c - d) - (a * d + (0 - b)) * (c + 3); vp_assert(same_{t}(get_{t}(), w), "nested expression"); obs_{t}(get_{t}());')
g.write()

# ---------------------------------------------------------------- C02 bits and shifts
g = Gen("C02", '{"pc":"VP","time":120,"bounds":["every pair of integer operand types and every operand value; shift amounts: every value whose result C defines (0 <= amount < width), other amounts only for absence of memory errors","one operator application per run"]}', cls_head=FLD)
B = {"and": "&", "or": "|", "xor": "^"}
for op in B:
    for t in I:
        for u in I:
            r = prom(t, u); nm = f"{op}_{t}_{u}"; g.method(nm, r, [("x", t), ("y", u)], f"return $x {B[op]} $y;")
            g.job(nm, args2(t, u) + f' OK(CALL(s, "{nm}", 2)); c_{r} r = get_{r}(); vp_assert(same_{r}(r, ((c_{r})x {B[op]} (c_{r})y)), "{t} {B[op]} {u}"); obs_{r}(r);')
            for kind in (["local", "field", "elem", "cvar", "ref"] if t == u else ["local"]):
                lv, pre, rd = place(kind, t); nm = f"as_{op}_{kind}_{t}_{u}"; g.method(nm, t, [("x", t), ("y", u)], f"{pre} {lv} {B[op]}= $y; return {rd};")
                g.job(nm, args2(t, u) + f' OK(CALL(s, "{nm}", 2)); vp_assert(same_{t}(get_{t}(), (c_{t})((c_{r})x {B[op]} (c_{r})y)), "{t} {B[op]}= {u}");')
for t in I:
    r = prom(t); g.method(f"not_{t}", r, [("x", t)], "return ~$x;"); g.job(f"not_{t}", f'c_{t} x = sym_{t}("x"); set_{t}(0, x); OK(CALL(s, "not_{t}", 1)); vp_assert(same_{r}(get_{r}(), ~(c_{r})x), "bitwise not"); obs_{r}(get_{r}());')
SH = {"shl": ("<<", lambda r: f"(c_{r})(({U[r]})(c_{r})x << n)"), "sar": (">>", lambda r: f"(c_{r})((c_{r})x < 0 ? ({U[r]})~(~({U[r]})(c_{r})x >> n) : ({U[r]})(c_{r})x >> n)"), "shr": (">>>", lambda r: f"(c_{r})(({U[r]})(c_{r})x >> n)")}
for op, (o, ex) in SH.items():
    for t in I:
        for u in I[:3]:
            r = prom(t); w = 32 if r == "int" else 64; nm = f"{op}_{t}_{u}"; g.method(nm, r, [("x", t), ("n", u)], f"return $x {o} $n;")
            g.job(nm, f'c_{t} x = sym_{t}("x"); c_{u} n = sym_{u}("n"); vp_assume((n >= 0) & (n < {w})); set_{t}(0, x); set_{u}(1, n); OK(CALL(s, "{nm}", 2)); c_{r} r = get_{r}(); vp_assert(same_{r}(r, {ex(r)}), "{t} {o} {u}"); obs_{r}(r);')
            for kind in (["local", "field", "elem", "cvar", "ref"] if u == "int" else ["local"]):
                lv, pre, rd = place(kind, t); nm = f"as_{op}_{kind}_{t}_{u}"; g.method(nm, t, [("x", t), ("n", u)], f"{pre} {lv} {o}= $n; return {rd};")
                g.job(nm, f'c_{t} x = sym_{t}("x"); c_{u} n = sym_{u}("n"); vp_assume((n >= 0) & (n < {w})); set_{t}(0, x); set_{u}(1, n); OK(CALL(s, "{nm}", 2)); vp_assert(same_{t}(get_{t}(), (c_{t})({ex(r)})), "{t} {o}= {u}");')
for t in ("int", "long"):
    g.method(f"bits_{t}", t, [("a", t), ("b", t), ("c", t), ("n", "int")], "return (($a & ~$b) | ($c ^ $a)) << $n | ($b >>> $n) & ($c >> 3);")
    w = 32 if t == "int" else 64
    g.job(f"bits_{t}", f'{U[t]} a = sym_{t}("a"), b = sym_{t}("b"), c = sym_{t}("c"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < {w})); set_{t}(0, a); set_{t}(1, b); set_{t}(2, c); set_int(3, n); OK(CALL(s, "bits_{t}", 4)); {U[t]} w = (((a & ~b) | (c ^ a)) << n) | ((b >> n) & ({U[t]})((c_{t})c >> 3)); vp_assert(same_{t}(get_{t}(), w), "nested bit expression"); obs_{t}(get_{t}());')
g.write()

# ---------------------------------------------------------------- C03 comparisons and conditions
g = Gen("C03", '{"pc":"VP","time":120,"bounds":["every pair of numeric operand types and every operand value including NaN, infinities and signed zeros","object, string, undef, Bool and reference conditions"]}', cls_head=FLD + "  use Bool; use Int;\n")
CO = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
for t in N:
    for u in N:
        r = prom(t, u); X, Y = f"(c_{r})x", f"(c_{r})y"
        body = ""; 
        for op in CO:
            nm = f"{op}_{t}_{u}"; g.method(nm, "int", [("x", t), ("y", u)], f"return $x {CO[op]} $y;")
            g.method(f"if_{nm}", "int", [("x", t), ("y", u)], f"my $k = 0; if ($x {CO[op]} $y) {{ $k += 1; }} else {{ $k += 2; }} unless ($x {CO[op]} $y) {{ $k += 4; }} if (!($x {CO[op]} $y)) {{ $k += 8; }} return $k;")
            body += f' set_{t}(0, x); set_{u}(1, y); OK(CALL(s, "{nm}", 2)); vp_assert(get_int() == (({X}) {CO[op]} ({Y})), "value of {t} {CO[op]} {u}");'
            body += f' {{ int w = ({X}) {CO[op]} ({Y}); set_{t}(0, x); set_{u}(1, y); OK(CALL(s, "if_{nm}", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on {t} {CO[op]} {u}"); }}'
        nm = f"cmp_{t}_{u}"; g.method(nm, "int", [("x", t), ("y", u)], "return $x <=> $y;")
        body += f' set_{t}(0, x); set_{u}(1, y); OK(CALL(s, "{nm}", 2)); vp_assert(get_int() == (({X}) > ({Y}) ? 1 : ({X}) < ({Y}) ? -1 : 0), "{t} <=> {u}"); vp_observe(get_int());'
        g.job(f"cmp_{t}_{u}", args2(t, u) + body)
for t in N:
    v = "(c_int)x" if t in ("byte", "short", "int") else "(x != 0)"
    g.method(f"cond_{t}", "int", [("x", t)], "my $k = 0; if ($x) { $k += 1; } unless ($x) { $k += 2; } if (!$x) { $k += 4; } my $i = 0; while ($x) { $i++; if ($i == 2) { last; } } return $k * 10 + $i;")
    g.method(f"not_{t}", "int", [("x", t)], "return !$x;"); g.method(f"nn_{t}", "int", [("x", t)], "return !!$x;")
    g.job(f"cond_{t}", f'c_{t} x = sym_{t}("x"); int z = !(x != 0); set_{t}(0, x); OK(CALL(s, "cond_{t}", 1)); vp_assert(get_int() == (z ? 60 : 12), "condition of type {t}"); set_{t}(0, x); OK(CALL(s, "not_{t}", 1)); vp_assert(get_int() == z, "logical not"); set_{t}(0, x); OK(CALL(s, "nn_{t}", 1)); vp_assert(get_int() == !z, "double logical not");')
    for u in N:
        g.method(f"and_{t}_{u}", "int", [("x", t), ("y", u)], "return $x && $y;"); g.method(f"or_{t}_{u}", "int", [("x", t), ("y", u)], "return $x || $y;")
        g.method(f"ifl_{t}_{u}", "int", [("x", t), ("y", u)], "my $k = 0; if ($x && $y) { $k += 1; } if ($x || $y) { $k += 2; } if (!($x && !$y)) { $k += 4; } unless (!$x || $y) { $k += 8; } return $k;")
        def cv_(q, a): return f"(c_int){a}" if q in ("byte", "short", "int") else f"({a} != 0)"
        g.job(f"logic_{t}_{u}", args2(t, u) + f' int a = {cv_(t, "x")}, b = {cv_(u, "y")}; OK(CALL(s, "and_{t}_{u}", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_{t}(0, x); set_{u}(1, y); OK(CALL(s, "or_{t}_{u}", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_{t}(0, x); set_{u}(1, y); OK(CALL(s, "ifl_{t}_{u}", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators");')
# order and number of evaluations in && and ||
g.s.append("  our $TR : public int;\n  precompile static method tap : int ($v : int, $bit : int) { $TR = $TR * 10 + $bit; return $v; }")
g.method("short_circuit", "int", [("a", "int"), ("b", "int"), ("c", "int")], "$TR = 0; my $r = VP->tap($a, 1) && VP->tap($b, 2) || VP->tap($c, 3); return $TR;")
g.job("short_circuit", 'c_int a = sym_int("a"), b = sym_int("b"), c = sym_int("c"); set_int(0, a); set_int(1, b); set_int(2, c); OK(CALL(s, "short_circuit", 3)); int w = a ? (b ? 12 : 123) : 13; vp_assert(get_int() == w, "operands evaluated in order and only when needed"); vp_observe(get_int());')
# objects, undef, Bool, references
g.method("objs", "int", [("x", "object"), ("y", "object")], "my $k = 0; if ($x) { $k += 1; } if ($x == $y) { $k += 2; } if ($x != $y) { $k += 4; } if ($x == undef) { $k += 8; } if (undef != $y) { $k += 16; } if (!$y) { $k += 32; } if ($x && $y) { $k += 64; } if ($x || $y) { $k += 128; } return $k;")
g.c.append('''JOB2(objects) { void* o[3] = { 0, spv_str(s, "a", 1), spv_str(s, "a", 1) }; int i = vp_choice(3, "i"), j = vp_choice(3, "j"); ST[0].oval = o[i]; ST[1].oval = o[j]; OK(CALL(s, "objs", 2)); int x = i != 0, y = j != 0, e = i == j;
  vp_assert(get_int() == (x ? 1 : 0) + (e ? 2 : 4) + (x ? 0 : 8) + (y ? 16 : 0) + (y ? 0 : 32) + (x && y ? 64 : 0) + (x || y ? 128 : 0), "object conditions compare identity"); vp_observe(get_int()); }''')
g.method("bools", "int", [("v", "int")], "my $b = new Bool; $b->{value} = $v; my $k = 0; if ($b) { $k += 1; } if (!$b) { $k += 2; } my $u : Bool = undef; return $k + ($b && 1) * 4;")
g.s.append('  precompile static method boolop : int ($x : int, $y : int) { my $t = Bool->FALSE; if ($x) { $t = Bool->TRUE; } my $u = false; unless (!$y) { $u = true; } my $k = 0; if ($t) { $k += 1; } if (!$u) { $k += 2; } if ($t && $u) { $k += 4; } if ($t || $u) { $k += 8; } if (Bool->TRUE) { $k += 16; } if (Bool->FALSE) { $k += 32; } if (true) { $k += 64; } if (false) { $k += 128; } return $k; }')
g.s = [x for x in g.s if "method bools" not in x]
g.c.append('''JOB2(bools) { c_int x = sym_int("x"), y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "boolop", 2)); vp_assert(get_int() == (x ? 1 : 0) + (y ? 0 : 2) + (x && y ? 4 : 0) + (x || y ? 8 : 0) + 80, "Bool objects in conditions"); }''')
g.method("refs", "int", [("x", "int")], "my $y = $x; my $r = \\$x; my $q = \\$y; my $p = \\$x; my $k = 0; if ($r == $p) { $k += 1; } if ($r != $q) { $k += 2; } if ($r) { $k += 4; } if ($r == $q) { $k += 8; } return $k;")
g.job("refs", 'c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "refs", 1)); vp_assert(get_int() == 7, "references compare identity, not value");')
for t in N:
    g.method(f"chain_{t}", "int", [("x", t), ("lo", t), ("hi", t)], "my $k = 0; if ($x < $lo) { $k = 1; } elsif ($x >= $hi) { $k = 2; } else { $k = 3; } if ($lo <= $x && $x < $hi) { $k += 10; } return $k;")
    g.job(f"chain_{t}", f'c_{t} x = sym_{t}("x"), l = sym_{t}("lo"), h = sym_{t}("hi"); set_{t}(0, x); set_{t}(1, l); set_{t}(2, h); OK(CALL(s, "chain_{t}", 3)); int k = x < l ? 1 : x >= h ? 2 : 3; if (l <= x) if (x < h) k += 10; vp_assert(get_int() == k, "range decision"); vp_observe(get_int());')
g.write()

# ---------------------------------------------------------------- C04 conversions
g = Gen("C04", '{"pc":"VP","time":150,"bounds":["every numeric source and target type and every value; out-of-range floating to integer conversions (undefined in C) only for absence of memory errors","number to string: every byte and short, int within +-20000 and long within +-2000 (thorough: +-1000000) and windows of 10 values at the limits; floating values to string: a table of 24 values (sprintf itself is not encoded)","string to integer: every string of length 0..3 (thorough: 4) and every digit string of 17..20 bytes with symbolic digits; string to floating: the text handed to strtod/strtof"]}', cls_head=FLD + "  use Byte; use Short; use Int; use Long; use Float; use Double;\n")
RNG = {"byte": "(v >= -128) & (v <= 127)", "short": "(v >= -32768) & (v <= 32767)"}
def inrange(src, dst, v):
    lo, hi = {"byte": ("-129.0", "128.0"), "short": ("-32769.0", "32768.0"), "int": ("-2147483649.0", "2147483648.0"), "long": ("-9223372036854775809.0", "9223372036854775808.0")}[dst]
    if dst == "int" and src == "float": return f"(({v} >= -2147483648.0f) & ({v} < 2147483648.0f))"
    if dst == "long": return f"(({v} >= -9223372036854775808.0) & ({v} < {hi}))"
    return f"(((double){v} > {lo}) & ((double){v} < {hi}))"
order = {t: i for i, t in enumerate(N)}
W = {"byte": 8, "short": 16, "int": 32, "long": 64}
for t in N:
    for u in N:
        nm = f"cast_{t}_{u}"; g.method(nm, u, [("x", t)], f"return ({u})$x;"); g.method(f"pcast_{t}_{u}", u, [("x", t)], f"return $x->({u});")
        conv = f"(c_{u})x"
        b = f'c_{t} x = sym_{t}("x"); '
        if t in F and u in I: b += f'int in = {inrange(t, u, "x")}; set_{t}(0, x); OK(CALL(s, "{nm}", 1)); if (!in) return; '
        else: b += f'set_{t}(0, x); OK(CALL(s, "{nm}", 1)); '
        if t in I and u in I:  # independent definition: truncation and sign extension
            if W[u] < W[t]: conv = f"(c_{u})((x & {hex((1 << W[u]) - 1)}ULL) ^ {hex(1 << (W[u]-1))}ULL) - {hex(1 << (W[u]-1))}ULL" ; conv = f"(c_{u})((((uint64_t)(c_long)x & {hex((1 << W[u]) - 1)}ULL) ^ {hex(1 << (W[u]-1))}ULL) - {hex(1 << (W[u]-1))}ULL)"
        b += f'vp_assert(same_{u}(get_{u}(), {conv}), "({u}) of {t}"); set_{t}(0, x); OK(CALL(s, "pcast_{t}_{u}", 1)); vp_assert(same_{u}(get_{u}(), {conv}), "postfix cast");'
        if order[t] < order[u]:
            g.method(f"wid_{t}_{u}", u, [("x", t)], f"my $v : {u} = $x; my $a = new {u}[1]; $a->[0] = $x; if ($a->[0] != $v && $v == $v) {{ die \"different\"; }} return VP->arg_{u}($x);")
            b += f' set_{t}(0, x); OK(CALL(s, "wid_{t}_{u}", 1)); vp_assert(same_{u}(get_{u}(), (c_{u})x), "implicit widening {t} to {u}");'
        g.job(nm, b)
    g.method(f"arg_{t}", t, [("v", t)], "return $v;")
    box = t.capitalize(); obj = f"{box}"
    g.method(f"box_{t}", t, [("x", t)], f"my $o : {box} = $x; my $p = ({box})$x; my $q : object = $o; if ($o->value != $p->value && $x == $x) {{ die \"different\"; }} my $u : {t} = $o; my $w = ({t})$q; if ($u != $w && $u == $u) {{ die \"unbox differs\"; }} return $w;")
    g.job(f"box_{t}", f'c_{t} x = sym_{t}("x"); set_{t}(0, x); OK(CALL(s, "box_{t}", 1)); vp_assert(same_{t}(get_{t}(), x), "boxing and unboxing {t}");')
    for u in N:
        if u == t: continue
        g.method(f"unbox_{t}_{u}", u, [("x", t)], f"my $o : object = ({box})$x; return ({u})$o;")
    g.method(f"unboxu_{t}", t, [("x", "object")], f"return ({t})$x;")
    b = f'c_{t} x = sym_{t}("x"); ' + " ".join(f'set_{t}(0, x); vp_assert(CALL(s, "unbox_{t}_{u}", 1) != 0, "unboxing {box} as {u} throws");' for u in N if u != t) + f' ST[0].oval = 0; vp_assert(CALL(s, "unboxu_{t}", 1) != 0, "unboxing undef throws"); ST[0].oval = spv_str(s, "1", 1);  vp_assert(CALL(s, "unboxu_{t}", 1) != 0, "unboxing a string object as a number throws");'
    g.job(f"unbox_{t}", b)
g.c.append(r'''
static int utoa10(uint64_t v, char* o) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) o[i] = t[n - 1 - i]; return n; }
static void check_dec(SPV* s, int64_t x) { vp_assert(ST[0].oval != 0, "a string is returned"); const char* p = ENV->get_chars(ENV, ST, ST[0].oval); int n = ENV->length(ENV, ST, ST[0].oval);
  int neg = x < 0; vp_assert(n >= 1 + neg, "not empty"); if (neg) vp_assert(p[0] == '-', "sign"); uint64_t v = 0; int ok = 1; for (int i = neg; i < n; i++) { ok &= (p[i] >= '0') & (p[i] <= '9'); v = v * 10 + (uint64_t)(p[i] - '0'); }
  vp_assert(ok, "digits only"); vp_assert(n - neg <= 19, "no more digits than needed"); vp_assert(v == (neg ? 0 - (uint64_t)x : (uint64_t)x), "the digits denote the value"); vp_assert((p[neg] != '0') | (n == 1), "no leading zero"); vp_assert(p[n] == 0, "terminated"); }
''')
for t in I:
    g.method(f"str_{t}", "string", [("x", t)], "my $v : string = $x; return $v;"); g.method(f"strc_{t}", "string", [("x", t)], "return (string)$x;")
    g.job(f"str_{t}", f'c_{t} x = sym_{t}("x"); ' + (f'c_{t} lim = vp_thorough() ? 1000000 : ' + ("2000" if t == "long" else "20000") + '; vp_assume((x > -lim) & (x < lim)); ' if t in ("int", "long") else '') + f'set_{t}(0, x); OK(CALL(s, "str_{t}", 1)); check_dec(s, x); set_{t}(0, x); OK(CALL(s, "strc_{t}", 1)); check_dec(s, x);')
for t, lim in (("int", ["INT32_MIN", "INT32_MIN + 9", "-1000000001", "-999999995", "999999995", "INT32_MAX - 9"]), ("long", ["INT64_MIN", "INT64_MIN + 9", "-1000000000000000001LL", "999999999999999995LL", "INT64_MAX - 9", "4294967290LL", "-4294967300LL"])):
    g.job(f"strx_{t}", f'static const c_{t} base[] = {{ {", ".join(lim)} }}; c_{t} x = base[vp_choice(vp_thorough() ? {len(lim)} : 3, "base")]; c_{t} d = sym_{t}("d"); vp_assume((d >= 0) & (d < 10)); x += d; set_{t}(0, x); OK(CALL(s, "str_{t}", 1)); check_dec(s, x);')
for t in F:
    g.method(f"str_{t}", "string", [("x", t)], "return (string)$x;")
    g.c.append(f'static const c_{t} tab_{t}[24] = {{ 0, -0.0, 1, -1, 0.1, 0.5, 1.5, 100000, 123456, 1234567, 1e5, 1e6, 1e-4, 1e-5, 3.14159265358979, 2.5e10, 1e30, -1e-30, 16777216, 1.0/3, 123456.5, 999999.5, 1e38, 1e-38 }};')
    g.job(f"str_{t}", f'int i = vp_choice(24, "i"); c_{t} x = tab_{t}[i]; char b[64]; snprintf(b, 64, "%g", x); set_{t}(0, x); OK(CALL(s, "str_{t}", 1)); vp_assert(ENV->length(ENV, ST, ST[0].oval) == (int)strlen(b), "length of the text"); vp_assert(memcmp(ENV->get_chars(ENV, ST, ST[0].oval), b, strlen(b) + 1) == 0, "text of the number");')
for t in N:
    g.method(f"num_{t}", t, [("x", "string")], f"return ({t})$x;")
g.c.append(r'''
static int64_t spec_strtoll(const char* p, int n, int* big) { int i = 0; *big = 0; while (i < n && (p[i] == ' ' || (p[i] >= 9 && p[i] <= 13))) i++; int neg = 0; if (i < n && (p[i] == '-' || p[i] == '+')) { neg = p[i] == '-'; i++; }
  uint64_t v = 0; for (; i < n && p[i] >= '0' && p[i] <= '9'; i++) { if (!*big) { uint64_t d = p[i] - '0'; if (v > (uint64_t)INT64_MAX / 10 || v * 10 > (uint64_t)INT64_MAX + neg - d) *big = 1; else v = v * 10 + d; } } if (*big) return neg ? INT64_MIN : INT64_MAX; return neg ? (int64_t)(0 - v) : (int64_t)v; }
static int64_t clampv(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
''')
LIM = {"byte": ("INT8_MIN", "INT8_MAX"), "short": ("INT16_MIN", "INT16_MAX"), "int": ("INT32_MIN", "INT32_MAX"), "long": ("INT64_MIN", "INT64_MAX")}
for t in I:
    g.job(f"num_{t}", f'int n = vp_choice(vp_thorough() ? 5 : 4, "len"); char b[8]; vp_symbolic(b, n, "text"); b[n] = 0; void* st = spv_str(s, b, n); ST[0].oval = st; OK(CALL(s, "num_{t}", 1)); int big; vp_assert(same_{t}(get_{t}(), clampv(spec_strtoll(b, n, &big), {LIM[t][0]}, {LIM[t][1]})), "string to {t}"); ST[0].oval = 0; OK(CALL(s, "num_{t}", 1)); vp_assert(get_{t}() == 0, "undef converts to 0");')
    for k, pre, nd in (("big", "-9223372036854775", 3), ("bigp", "9223372036854775", 4), ("i32", "-21474836", 2), ("i32p", "21474836", 2), ("i16", "-327", 2), ("i16p", "327", 2), ("i8p", "1", 2), ("i8", "-1", 2)):
        g.job(f"num_{t}_{k}", f'char b[32] = "{pre}"; int m = {len(pre)}, n = m + {nd}; vp_symbolic(b + m, {nd}, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= \'0\') & (b[i] <= \'9\'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_{t}", 1)); int big; vp_assert(same_{t}(get_{t}(), clampv(spec_strtoll(b, n, &big), {LIM[t][0]}, {LIM[t][1]})), "string to {t} near the limits"); vp_observe(get_{t}());')
for t in F:
    f = "strtof" if t == "float" else "strtod"
    g.job(f"num_{t}", f'static const char* T[] = {{ "", "0", "-0", "1.5", "  2.25x", "1e3", "-1e-3", "inf", "-INF", "nan", "0x10", "1e400", "abc", "1e-400", "123456789.123456789", "0.1", "16777217", ".5", "5." }}; const char* p = T[vp_choice(19, "i")]; c_{t} w = {f}(p, 0); ST[0].oval = spv_str(s, p, strlen(p)); OK(CALL(s, "num_{t}", 1)); vp_assert(same_{t}(get_{t}(), w), "string to {t}"); ST[0].oval = 0; OK(CALL(s, "num_{t}", 1)); vp_assert(get_{t}() == 0, "undef converts to 0");')
# string <-> byte[]
g.s.append("  precompile static method s2b : byte[] ($x : string) { return (byte[])$x; }\n  precompile static method b2s : string ($x : byte[]) { return (string)$x; }")
g.c.append(r'''
JOB2(bytes) { int n = vp_choice(6, "len"); char b[8]; vp_symbolic(b, n, "text"); b[n] = 0; void* st = spv_str(s, b, n); ST[0].oval = st; OK(CALL(s, "s2b", 1)); void* a = ST[0].oval; vp_assert(a != 0 && a != st, "a new array"); ENV->push_mortal(ENV, ST, a);
  vp_assert(ENV->length(ENV, ST, a) == n, "length of the array"); vp_assert(memcmp(ENV->get_elems_byte(ENV, ST, a), b, n) == 0, "elements are the characters");
  ST[0].oval = a; OK(CALL(s, "b2s", 1)); void* r = ST[0].oval; vp_assert(r != 0 && r != st && r != a, "a new string"); vp_assert(ENV->length(ENV, ST, r) == n, "length of the string"); vp_assert(memcmp(ENV->get_chars(ENV, ST, r), b, n + 1) == 0, "characters are the elements, terminated");
  ST[0].oval = 0; OK(CALL(s, "s2b", 1)); vp_assert(ST[0].oval == 0, "undef stays undef"); ST[0].oval = 0; OK(CALL(s, "b2s", 1)); vp_assert(ST[0].oval == 0, "undef stays undef"); }
''')
g.write()
