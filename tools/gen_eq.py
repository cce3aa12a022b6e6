#!/usr/bin/env python3
"""C16: random programs over the whole operator set, run by the interpreter and as generated C code on the same symbolic arguments; everything observable must agree."""
import random, sys
from gen_lib import *
class P:
    def __init__(p, seed): p.r = random.Random(seed); p.n = 0; p.v = {}; p.depth = 0; p.fs = seed % 2
    def new(p, t, pre="v"): p.n += 1; n = f"{pre}{p.n}"; p.v.setdefault(t, []).append(n); return n
    def var(p, t):
        l = p.v.get(t, []); return "$" + p.r.choice(l) if l else None
    def lit(p, t):
        r = p.r
        return {"byte": lambda: f"(byte){r.randint(-128, 127)}", "short": lambda: f"(short){r.choice([-32768, 32767, 7, -1])}", "int": lambda: str(r.choice([0, 1, 2, -1, 7, 31, 2147483647, -2147483648, 1000])), "long": lambda: str(r.choice([0, 1, -1, 63, 5, 9223372036854775807, -9223372036854775808])) + "L", "float": lambda: r.choice(["1.5f", "-0.5f", "0.0f", "3e10f"]), "double": lambda: r.choice(["2.5", "-1.0", "0.0", "1e300"])}[t]()
    def num(p, t, d):
        r = p.r; c = r.random()
        if d <= 0 or c < .22: return p.var(t) or p.lit(t)
        if c < .28: return p.lit(t)
        if c < .42:
            u = r.choice(N if not p.fs or t in F else I); return (f"VP->c_{t}((double)({p.num(u, d - 1)}))" if u in F and t in I else f"({t})({p.num(u, d - 1)})") if u != t else p.num(t, d - 1)
        if c < .50: return f"$o->{{{fld(t)}}}" if r.random() < .6 else cv(t)
        if c < .56 and t in ("int", "double", "byte", "long"):
            a = {"int": "ia", "double": "da", "byte": "ba", "long": "la"}[t]; return f"${a}->[{p.idx()}]"
        if t == "byte" and c < .66: return f"$s->[{p.idx()}]"
        if t in ("byte", "short"): return f"({t})({p.num('int', d - 1)})"
        if c < .60: return f"VP->h_{t}({p.num(t, d - 1)}, {p.num('int', d - 1)})"
        if t == "int":
            if c < .70: return "(" + r.choice([lambda: p.cmp(d - 1), lambda: f"length $s", lambda: f"({p.obj()} isa {r.choice(['Ob', 'Ob2', 'int[]', 'string'])})", lambda: "@$ia", lambda: f"(int)({p.num('long', d - 1)})", lambda: f"isweak $o->{{n}}", lambda: "basic_type_id Ob", lambda: f"is_read_only $s", lambda: f"!({p.cmp(d - 1)})", lambda: f"({p.cmp(d - 1)} && {p.cmp(d - 1)})", lambda: f"({p.cmp(d - 1)} || {p.cmp(d - 1)})"])() + ")"
        if t in ("int", "long"):
            o = r.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", ">>>", "neg", "~", "/", "%", "div_u", "mod_u"])
            x = p.num(t, d - 1)
            if o == "neg": return f"(-({x}))"
            if o == "~": return f"(~({x}))"
            if o in ("<<", ">>", ">>>"): return f"(({x}) {o} ({p.num('int', d - 1)} & {31 if t == 'int' else 63}))"
            if o in ("/", "%"): return f"(({x}) {o} {r.choice(['3', '-7', '16', '-1']) + ('L' if t == 'long' else '')})" if r.random() < .9 else f"({p.lit(t)} {o} {p.var(t) or p.lit(t)})"
            if o in ("div_u", "mod_u"): o = o + t; return f"(({x}) {o} {r.choice(['3', '10']) + ('L' if t == 'long' else '')})"
            return f"(({x}) {o} ({p.num(t, d - 1) if o != '*' else p.lit(t)}))"
        return f"(({p.num(t, d - 1)}) {r.choice(['+', '-', '*', '/'])} ({p.num(t, d - 1)}))" if r.random() < .8 else f"(-({p.num(t, d - 1)}))"
    def idx(p): return p.r.choice(["0", "1", "2", "$i & 3", "$i % 4", str(p.r.randint(-1, 4))])
    def obj(p): return p.r.choice(["$o", "$q", "(object)$ia", "(object)$s", "$o->{n}"])
    def cmp(p, d):
        r = p.r; c = r.random()
        if c < .5: t = r.choice(["int", "int", "long", "byte", "short"] + ([] if p.fs else ["float", "double"])); d = 0 if t in F else d; return f"(({p.num(t, d)}) {r.choice(['==', '!=', '<', '<=', '>', '>=', '<=>'])} ({p.num(t, d)}))"
        if c < .75: return f"({p.st(d)} {r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp'])} {p.st(d)})"
        return r.choice([f"({p.obj()} == undef)", f"({p.obj()} != undef)", f"($o == $o->{{n}})"])
    def st(p, d):
        r = p.r; c = r.random()
        if d <= 0 or c < .4: return p.var("string") or '"k"'
        if c < .6: return '"' + r.choice(["", "ab", "x\\0y", "\\xff"]) + '"'
        if c < .8: return f"({p.st(d - 1)} . {p.st(d - 1)})"
        return r.choice(["$o->{s}", "$CSTR", "(copy $s)", "(type_name $q)", "(compile_type_name $ia)", "__PACKAGE__"])
    def log(p):
        t = p.r.choice(N + ["string", "string"]); 
        return f"VP->ls({p.st(2)});" if t == "string" else (f"VP->ld({p.num(t, 2)});" if t in F else f"VP->ll({p.num(t, 2)});")
    def block(p, n): 
        sv = {k: list(x) for k, x in p.v.items()}; p.depth += 1; b = " ".join(p.stmt() for _ in range(n)); p.depth -= 1; p.v = sv; return b
    def stmt(p):
        r = p.r; c = r.random()
        if c < .16:
            t = r.choice(N); e = p.num(t, 3); v = p.new(t); return f"my ${v} : {t} = {e};"
        if c < .24:
            t = r.choice(["int", "long", "double", "float", "byte", "short"]); v = p.var(t)
            if not v: return p.log()
            o = r.choice(["=", "+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>=", ">>>=", "++", "--"])
            if o in ("++", "--"): return r.choice([f"{v}{o};", f"{o}{v};"])
            if t in F and o not in ("=", "+=", "-=", "*="): o = "+="
            if o in ("<<=", ">>=", ">>>="): return f"{v} {o} {p.num('int', 1)} & 31;"
            return f"{v} {o} {p.num(t, 2)};"
        if c < .34:
            t = r.choice(N); return r.choice([f"$o->{{{fld(t)}}} = {p.num(t, 2)};", f"{cv(t)} = {p.num(t, 2)};", f"$o->{{{fld(t)}}} += {p.num(t, 1)};"])
        if c < .42: a, t = r.choice([("ia", "int"), ("da", "double"), ("ba", "byte"), ("la", "long")]); return f"${a}->[{p.idx()}] = {p.num(t, 2)};"
        if c < .50: e = p.st(2); v = p.new("string", "s"); return f"my ${v} : string = {e};"
        if c < .53: return r.choice(["$o->{s} = ", "$CSTR = "]) + p.st(2) + ";"
        if c < .60 and p.depth < 3: return f"if ({p.cmp(1)}) {{ {p.block(2)} }}" + (f" else {{ {p.block(1)} }}" if r.random() < .5 else "")
        if c < .65 and p.depth < 2: k = p.new("int", "k"); p.v["int"].remove(k); b = p.block(2); return f"for (my ${k} = 0; ${k} < {r.randint(1, 3)}; ${k}++) {{ {b} {r.choice(['', 'if (' + p.cmp(1) + ') { next; }', 'if (' + p.cmp(1) + ') { last; }'])} }}"
        if c < .72 and p.depth < 3: return f"eval {{ {p.block(3)} }}; VP->ls($@); VP->ll((long)eval_error_id);"
        if c < .75 and p.depth < 3: return f"switch ({p.num('int', 1)}) {{ case 0: {{ {p.block(1)} break; }} case 1: {{ {p.block(1)} }} case 7: {{ {p.block(1)} break; }} default: {{ {p.block(1)} }} }}"
        if c < .78: return f"if ({p.cmp(1)}) {{ " + r.choice(['die "thrown";', 'die Err1 "E1";', "die $s;"]) + " }"
        if c < .84: return r.choice(["$o->{n} = $o2;", "$o->{n} = undef;", "weaken $o->{n};", "unweaken $o->{n};", "$q = $o;", "$q = $ia;", "$q = undef;", "$q = new Ob2;", "$o2 = new Ob;", "$q = $o2;", "{ my $cast = (Ob)$q; if ($cast) { $cast->{fi} += 3; } }", "{ my $cast2 = (int[])$q; if ($cast2) { $cast2->[0] ^= 5; } }", "{ my $cs = (string)$q; VP->ls($cs); }", "$ia = new int[3];", "{ my $al = @$la; VP->ll((long)$al); }"])
        if c < .88: t = r.choice(["int", "long", "double"]); v = p.var(t); return f"{{ my $ref = \\{v}; $$ref = {p.num(t, 1)}; VP->add_{t}($ref); }}" if v else p.log()
        if c < .90: return "{ my $ms = (mutable string)copy $s; if ($ms) { $ms->[" + p.idx() + f"] = {p.num('byte', 1)}; VP->ls($ms); }} }}"
        if c < .92: return f"{{ my $pt : Pt_2d; $pt->{{x}} = {p.num('double', 1)}; $pt->{{y}} = {p.num('double', 1)}; my $pa = new Pt_2d[2]; $pa->[{p.idx()}] = $pt; my $pu = $pa->[1]; VP->ld($pu->{{x}}); $pa->[0]->{{y}} = $pt->{{x}}; VP->ld($pa->[0]->{{y}}); }}"
        return p.log()
EQ_C = r'''
typedef struct { int e; int nl, nd, ns; uint64_t l[40]; uint64_t d[40]; char* s[40]; int sl[40]; char* exc; uint64_t live; } Out;
static void* bt(SPV* s, const char* n) { return s->env->api->runtime->get_basic_type_by_name(s->rt, n); }
static char* dup_str(SPV* s, void* o, int* n) { if (!o) { *n = -1; return 0; } *n = ENV->length(ENV, ST, o); char* p = malloc(*n + 1); memcpy(p, ENV->get_chars(ENV, ST, o), *n); p[*n] = 0; return p; }
static Out once(SPV* s, const char* m, c_byte b, c_short h, c_int i, c_long l, c_float f, c_double d, char* str, int sn, int od) { Out o; memset(&o, 0, sizeof o);
  OK(CALL(s, "reset", 0)); spv_clear_exc(s); int sc = ENV->enter_scope(ENV, ST);
  void* st = sn < 0 ? 0 : spv_str(s, str, sn); void* ob = 0; int fe = 0;
  if (od) { ob = ENV->new_object(ENV, ST, bt(s, "Ob")); ENV->set_field_int_by_name(ENV, ST, ob, "fi", i, &fe, "", "", 1); ENV->set_field_string_by_name(ENV, ST, ob, "s", st, &fe, "", "", 1); }
  set_byte(0, b); set_short(1, h); set_int(2, i); set_long(3, l); set_float(4, f); set_double(5, d); ST[6].oval = st; ST[7].oval = ob;
  o.e = CALL(s, m, 8); int n; if (o.e) o.exc = dup_str(s, spv_exc(s), &n);
  OK(CALL(s, "logs", 0)); void* a = ST[0].oval; void* parts[4]; for (int k = 0; k < 4; k++) parts[k] = ENV->get_elem_object(ENV, ST, a, k); void* ll = parts[0], *ld = parts[1], *ls = parts[2]; int* c = ENV->get_elems_int(ENV, ST, parts[3]); o.nl = c[0]; o.nd = c[1]; o.ns = c[2];
  for (int k = 0; k < o.nl && k < 40; k++) o.l[k] = ENV->get_elems_long(ENV, ST, ll)[k]; for (int k = 0; k < o.nd && k < 40; k++) o.d[k] = dbits(ENV->get_elems_double(ENV, ST, ld)[k]); for (int k = 0; k < o.ns && k < 40; k++) o.s[k] = dup_str(s, ENV->get_elem_object(ENV, ST, ls, k), &o.sl[k]);
  ENV->leave_scope(ENV, ST, sc); spv_clear_exc(s); OK(CALL(s, "reset", 0)); return o; }
static int nanbits(uint64_t x) { return (x & 0x7ff0000000000000ULL) == 0x7ff0000000000000ULL && (x & 0xfffffffffffffULL); }
static void eq(const char* m, int fs, double d0, float f0) { c_byte b = sym_byte("b"); c_short h = sym_short("h"); c_int i = sym_int("i"); c_long l = sym_long("l"); c_float f = fs ? sym_float("f") : f0; c_double d = fs ? sym_double("d") : d0; int sn = vp_choice(4, "string length") - 1, od = vp_choice(2, "object defined"); char str[4] = {0}; if (sn > 0) vp_symbolic(str, sn, "string");
  Out x = once(&SV, m, b, h, i, l, f, d, str, sn, od), y = once(&SP, m, b, h, i, l, f, d, str, sn, od);
  vp_assert(x.e == y.e, "the same error id"); vp_assert(!x.exc == !y.exc, "an exception in both or in none"); if (x.exc) vp_assert(strcmp(x.exc, y.exc) == 0, "the same exception message and stack trace");
  vp_assert(x.nl == y.nl && x.nd == y.nd && x.ns == y.ns, "the same statements are executed");
  for (int k = 0; k < x.nl && k < 40; k++) vp_assert(x.l[k] == y.l[k], "the same integer values"); for (int k = 0; k < x.nd && k < 40; k++) vp_assert((x.d[k] == y.d[k]) | (nanbits(x.d[k]) & nanbits(y.d[k])), "the same floating values");
  for (int k = 0; k < x.ns && k < 40; k++) { vp_assert(x.sl[k] == y.sl[k], "the same string lengths"); for (int q = 0; q < x.sl[k]; q++) vp_assert(x.s[k][q] == y.s[k][q], "the same string bytes"); }
  for (int k = 0; k < 40; k++) { free(x.s[k]); free(y.s[k]); } free(x.exc); free(y.exc); vp_reach("compared"); }
'''
if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    g = Gen("C16", '{"pc":"VP","time":200,"bounds":["%d random programs of about 14 statements over all numeric types, strings of 0..2 symbolic bytes or undef, objects, arrays, references, multi-numeric values, class variables, switch, loops, eval, die, weaken and casts, all argument values"]}' % n, head=EQ_C)
    fields = " ".join(f"has {fld(t)} : public {t};" for t in N); os.makedirs(f"{H}/C16", exist_ok=True)
    open(f"{H}/C16/Ob.spvm", "w").write("class Ob : public { " + fields + " has s : public string; has n : public Ob; }\n"); open(f"{H}/C16/Ob2.spvm", "w").write("class Ob2 extends Ob : public { }\n"); open(f"{H}/C16/Err1.spvm", "w").write("class Err1 extends Error : public { }\n"); open(f"{H}/C16/Pt_2d.spvm", "w").write("class Pt_2d : mulnum_t { has x : double; has y : double; }\n")
    g.cls_head = "  use Ob; use Ob2; use Err1; use Pt_2d;\n  our $CSTR : string; " + " ".join(f"our {cv(t)} : {t};" for t in N) + ''' our $LL : long[]; our $LD : double[]; our $LS : string[]; our $NC : int[];
  static method reset : void () { $CSTR = undef; ''' + " ".join(f"{cv(t)} = ({t})3;" for t in N) + ''' $LL = new long[40]; $LD = new double[40]; $LS = new string[40]; $NC = new int[3]; }
  static method logs : object[] () { my $r = new object[4]; $r->[0] = $LL; $r->[1] = $LD; $r->[2] = $LS; $r->[3] = $NC; return $r; }
  static method ll : void ($v : long) { if ($NC->[0] < 40) { $LL->[$NC->[0]] = $v; } $NC->[0]++; }
  static method ld : void ($v : double) { if ($NC->[1] < 40) { $LD->[$NC->[1]] = $v; } $NC->[1]++; }
  static method ls : void ($v : string) { if ($NC->[2] < 40) { $LS->[$NC->[2]] = $v; } $NC->[2]++; }
''' + "\n".join(f"  precompile static method c_{t} : {t} ($x : double) {{ if ($x > -100.0 && $x < 100.0) {{ return ({t})$x; }} return ({t})7; }}" for t in I) + "\n" + "\n".join(f"  precompile static method h_{t} : {t} ($x : {t}, $k : int) {{ if ($k > 100) {{ die \"big\"; }} return ({t})($x + ({t})$k); }}\n  precompile static method add_{t} : void ($r : {t}*) {{ $$r = ({t})($$r + ({t})1); }}" for t in N) + "\n"
    for k in range(n):
        p = P(16000 + k)
        p.v = {"byte": ["b"], "short": ["h"], "int": ["i"], "long": ["l"], "float": ["f"], "double": ["d"], "string": ["s"]}
        body = "my $ia = new int[3]; $ia->[0] = $i; my $da = new double[3]; my $ba = new byte[3]; my $la = new long[3]; $la->[1] = $l; my $q : object; my $o2 = new Ob; " + " ".join(p.stmt() for _ in range(14)) + " " + " ".join(p.log() for _ in range(3))
        body += " " + " ".join((f"VP->ld(${v});" if t in F else f"VP->ll((long)${v});" if t in I else f"VP->ls(${v});") for t in N + ["string"] for v in p.v.get(t, [])) + " VP->ll((long)$ia->[0]); VP->ld($da->[1]); if ($o) { VP->ll((long)$o->{fi}); VP->ld($o->{fd}); } VP->ll($CL);"
        g.method(f"p{k}", "void", [("b", "byte"), ("h", "short"), ("i", "int"), ("l", "long"), ("f", "float"), ("d", "double"), ("s", "string"), ("o", "Ob")], body)
        g.c.append(f'JOBV(p{k}) {{ eq("p{k}", {p.fs}, {[0.0, -2.5, 3e9, 1e300, -0.0, 41.75][k // 2 % 6]}, {[1.5, 0.0, -7.25, 3e38, 16777216.0, -0.0][k // 2 % 6]}f); }}')
    g.write()
