#!/usr/bin/env python3
"""Generates the C08 harness (fields, class variables, multi-numeric fields)."""
import sys, os; sys.path.insert(0, "/verif/tools")
from gen_lib import *
PT = {"Pt_3b": "byte", "Pt_3s": "short", "Pt_4i": "int", "Pt_3l": "long", "Pt_3f": "float", "Pt_2d": "double"}
OBJ = {"string", "Int", "object", "int[]", "Fa"}
CLS = {"Fa": (None, [("b1", "byte"), ("d1", "double"), ("s1", "short"), ("o1", "string"), ("i1", "int"), ("b2", "byte"), ("l1", "long"), ("s2", "short"), ("f1", "float"), ("o2", "Int"), ("i2", "int"), ("b3", "byte"), ("d2", "double"), ("o3", "int[]"), ("f2", "float")]),
       "Fb": ("Fa", [("b4", "byte"), ("l2", "long"), ("o4", "object"), ("s3", "short"), ("b5", "byte"), ("i3", "int")]),
       "Fc": ("Fb", [("o5", "Fa"), ("b6", "byte"), ("f3", "float"), ("s4", "short"), ("d3", "double")]),
       "Fd": (None, [("x0", "byte"), ("x1", "byte"), ("x2", "byte"), ("y", "long"), ("z", "byte")]),
       "Fe": ("Fd", [("w", "short"), ("v", "string"), ("u", "byte")])}
def members(c): p, fs = CLS[c]; return (members(p) if p else []) + fs
g = Gen("C08", '{"pc":"VP","time":150,"bounds":["five classes in two inheritance chains (5..26 fields of mixed types), 24 class variables in two classes, multi-numeric types of 2..4 fields of every numeric type","every stored value; each member in turn is stored while all others hold known values"]}', cls_head="  use Int;\n" + "".join(f"  use {c};\n" for c in list(CLS) + list(PT)) + "  use Va;\n")
os.makedirs(f"{H}/C08", exist_ok=True)
for c, (p, fs) in CLS.items():
    open(f"{H}/C08/{c}.spvm", "w").write(f"class {c}{' extends ' + p if p else ''} : public {{\n  use Int;\n" + "".join(f"  has {n} : public {t};\n" for n, t in fs) + f"  static method new_{c} : {c} () {{ return new {c}; }}\n" + "}\n")
for p, t in PT.items(): open(f"{H}/C08/{p}.spvm", "w").write(f"class {p} : mulnum_t {{\n" + "".join(f"  has {f} : {t};\n" for f in "xyzw"[:int(p[3])]) + "}\n")
def stk(t): return t if t in N else "obj"
g.c.append('''#define set_obj(i, v) (ST[i].oval = (v))
#define get_obj() (ST[0].oval)
#define same_obj(a, b) ((a) == (b))
typedef void* c_obj;
static void threw(SPV* s, int e) { vp_assert(e != 0, "access through undef throws"); vp_assert(spv_exc(s) != 0, "with an exception"); spv_clear_exc(s); }
static void* keep(SPV* s, void* o) { ENV->push_mortal(ENV, ST, o); return o; }
static void* mk(SPV* s, const char* m) { OK(CALL(s, m, 0)); return keep(s, ST[0].oval); }
static void* mko(SPV* s, const char* t) { if (!strcmp(t, "string")) return spv_str(s, "v", 1); if (!strcmp(t, "int[]")) return ENV->new_int_array(ENV, ST, 1); if (!strcmp(t, "Fa")) return mk(s, "new_Fa"); return mk(s, "new_Int"); }''')
g.method("new_Int", "Int", [], "return Int->new(4);")
for c in CLS:
    g.method(f"new_{c}", c, [], f"return new {c};")
    ms = members(c)
    for n, t in ms:
        g.method(f"get_{c}_{n}", t, [("o", c)], f"return $o->{{{n}}};"); g.method(f"set_{c}_{n}", t, [("o", c), ("v", t)], f"return $o->{{{n}}} = $v;")
        if t in N: g.method(f"viaref_{c}_{n}", "void", [("o", c), ("v", t)], f"my $t = $o->{{{n}}}; my $r = \\$t; $$r = $v; $o->{{{n}}} = $$r;")
    tab = f"static const struct {{ const char* n; const char* t; }} T_{c}[] = {{ " + ", ".join(f'{{"{n}", "{t}"}}' for n, t in ms) + " };\n"
    # fill and verify all members of an object, except member k
    fill = "".join((f'set_obj(0, o); set_{stk(t)}(1, ' + (f"(c_{t})({i + 1} * 3 + d)" if t in N else "ov[%d]" % i) + f'); OK(CALL(s, "set_{c}_{n}", 2)); ') for i, (n, t) in enumerate(ms))
    ver = "".join((f'if (k != {i}) {{ set_obj(0, o); OK(CALL(s, "get_{c}_{n}", 1)); vp_assert(same_{stk(t)}(get_{stk(t)}(), ' + (f"(c_{t})({i + 1} * 3 + d)" if t in N else "ov[%d]" % i) + f'), "field {n} keeps its value"); }} ') for i, (n, t) in enumerate(ms))
    g.c.append(tab + f"static void fill_{c}(SPV* s, void* o, void** ov, int d) {{ {fill} }}\nstatic void verify_{c}(SPV* s, void* o, void** ov, int k, int d) {{ {ver} }}")
    zero = "".join(f'set_obj(0, o); OK(CALL(s, "get_{c}_{n}", 1)); vp_assert(same_{stk(t)}(get_{stk(t)}(), 0), "field {n} starts as zero or undef"); ' for n, t in ms)
    und = "".join(f'set_obj(0, 0); threw(s, CALL(s, "get_{c}_{n}", 1)); set_obj(0, 0); set_{stk(t)}(1, 0); threw(s, CALL(s, "set_{c}_{n}", 2)); ' + (f'set_obj(0, 0); set_{t}(1, 0); threw(s, CALL(s, "viaref_{c}_{n}", 2)); ' if t in N else "") for n, t in ms)
    g.job(f"zero_{c}", f'void* o = mk(s, "new_{c}"); {zero} {und}')
    nm = len(ms)
    for i, (n, t) in enumerate(ms):
        k = stk(t)
        val = f'c_{t} v = sym_{t}("v");' if t in N else f'void* v = vp_choice(2, "undef") ? 0 : mko(s, "{t}");'
        api = (f'int err = 0; vp_assert(same_{t}(ENV->get_field_{t}_by_name(ENV, ST, o, "{n}", &err, "", "", 0), v) && !err, "native read");' if t in N else f'int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "{n}", &err, "", "", 0) == v && !err, "native read");')
        ref = f'fill_{c}(s, o, ov, 0); set_obj(0, o); set_{t}(1, v); OK(CALL(s, "viaref_{c}_{n}", 2)); set_obj(0, o); OK(CALL(s, "get_{c}_{n}", 1)); vp_assert(same_{t}(get_{t}(), v), "field stored through a reference"); verify_{c}(s, o, ov, {i}, 0); verify_{c}(s, o2, ov, -1, 50);' if t in N else ""
        g.job(f"f_{c}_{n}", f'''void* ov[{nm}]; for (int q = 0; q < {nm}; q++) ov[q] = strchr("bsilfd", T_{c}[q].t[0]) && strcmp(T_{c}[q].t, "string") && strcmp(T_{c}[q].t, "int[]") ? 0 : mko(s, T_{c}[q].t); void* o = mk(s, "new_{c}"); void* o2 = mk(s, "new_{c}"); fill_{c}(s, o, ov, 0); fill_{c}(s, o2, ov, 50); verify_{c}(s, o, ov, -1, 0); {val}
  set_obj(0, o); set_{k}(1, v); OK(CALL(s, "set_{c}_{n}", 2)); vp_assert(same_{k}(get_{k}(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_{c}_{n}", 1)); vp_assert(same_{k}(get_{k}(), v), "field {n} reads back"); verify_{c}(s, o, ov, {i}, 0); verify_{c}(s, o2, ov, -1, 50); {api} {ref}''')
# class variables
VT = N + ["string", "object"]
cvs = [("VP", f"$V{i}", t) for i, t in enumerate([VT[(i * 5 + i // 8) % 8] for i in range(16)])] + [("Va", f"$W{i}", t) for i, t in enumerate(VT)]
def q(c, v): return v if c == "VP" else f"$Va::{v[1:]}"
g.cls_head += "".join(f"  our {v} : public {t};\n" for c, v, t in cvs if c == "VP")
open(f"{H}/C08/Va.spvm", "w").write("class Va {\n" + "".join(f"  our {v} : public {t};\n" for c, v, t in cvs if c == "Va") + "}\n")
for c, v, t in cvs: g.method(f"cget_{v[1:]}", t, [], f"return {q(c, v)};"); g.method(f"cset_{v[1:]}", t, [("x", t)], f"return {q(c, v)} = $x;")
g.c.append("static void cfill(SPV* s, void** ov) { " + " ".join(f'set_{stk(t)}(0, {"(c_%s)(%d * 5 + 2)" % (t, i) if t in N else "ov[%d]" % (i % 4)}); OK(CALL(s, "cset_{v[1:]}", 1));' for i, (c, v, t) in enumerate(cvs)) + "}")
g.c.append("static void cver(SPV* s, void** ov, int k) { " + " ".join(f'if (k != {i}) {{ OK(CALL(s, "cget_{v[1:]}", 0)); vp_assert(same_{stk(t)}(get_{stk(t)}(), {"(c_%s)(%d * 5 + 2)" % (t, i) if t in N else "ov[%d]" % (i % 4)}), "class variable {v} keeps its value"); }}' for i, (c, v, t) in enumerate(cvs)) + "}")
g.job("cv_zero", " ".join(f'OK(CALL(s, "cget_{v[1:]}", 0)); vp_assert(same_{stk(t)}(get_{stk(t)}(), 0), "{v} starts as zero or undef");' for c, v, t in cvs))
for i, (c, v, t) in enumerate(cvs):
    k = stk(t); val = f'c_{t} v = sym_{t}("v");' if t in N else 'void* v = vp_choice(2, "undef") ? 0 : spv_str(s, "w", 1);'
    nat = f'int err = 0; vp_assert(same_{k}(ENV->get_class_var_{t if t in N else "object"}_by_name(ENV, ST, "{c}", "{v}", &err, "", "", 0), v) && !err, "native read");'
    g.job(f"cv_{v[1:]}", f'void* ov[4] = {{ spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }}; cfill(s, ov); cver(s, ov, -1); {val} set_{k}(0, v); OK(CALL(s, "cset_{v[1:]}", 1)); vp_assert(same_{k}(get_{k}(), v), "value of the assignment"); OK(CALL(s, "cget_{v[1:]}", 0)); vp_assert(same_{k}(get_{k}(), v), "class variable reads back"); cver(s, ov, {i}); {nat}')
# multi-numeric variables
for p, t in PT.items():
    n = int(p[3]); fs = "xyzw"[:n]
    g.method(f"m_{p}_pass", p, [("v", p)], "return $v;")
    g.method(f"m_{p}_add", "void", [("r", p + "*"), ("v", t), ("k", "int")], " elsif ".join(f"if ($k == {i}) {{ $r->{{{f}}} = $v; }}" for i, f in enumerate(fs)).replace(" elsif if", " elsif"))
    sets = " ".join(f"$p->{{{f}}} = $a{i}; $q->{{{f}}} = $a{(i + 1) % n};" for i, f in enumerate(fs))
    upd = " elsif ".join(f"($k == {i}) {{ $p->{{{f}}} = $v; }}" for i, f in enumerate(fs))
    g.method(f"m_{p}", t, [(f"a{i}", t) for i in range(n)] + [("v", t), ("k", "int"), ("w", "int"), ("how", "int")], f"my $z0 = 77; my $p : {p}; my $z1 = 88L; my $q : {p}; {sets} my $r = \\$p; if ($how == 0) {{ if {upd} }} elsif ($how == 1) {{ VP->m_{p}_add($r, $v, $k); }} else {{ my $c = $p; if {upd} my $e = VP->m_{p}_pass($p); $p = $c; $p = $e; }} if ($z0 != 77 || $z1 != 88L) {{ die \"neighbour\"; }} if ($w >= 10) {{ $w -= 10; " + " elsif ".join(f"if ($w == {i}) {{ return $q->{{{f}}}; }}" for i, f in enumerate(fs)).replace("elsif if", "elsif") + " } " + " elsif ".join(f"if ($w == {i}) {{ return $p->{{{f}}}; }}" for i, f in enumerate(fs)).replace("elsif if", "elsif") + " return $$r->{x};" .replace("$$r->{x}", "$r->{x}"))
    g.method(f"m_{p}_zero", "int", [], f"my $p : {p}; " + " ".join(f"if ($p->{{{f}}} != 0) {{ return 0; }}" for f in fs) + " return 1;")
    g.job(f"m_{p}", f'c_{t} a[{n}], v = sym_{t}("v"); for (int i = 0; i < {n}; i++) {{ char nm[3] = {{\'a\', \'0\' + i, 0}}; a[i] = sym_{t}(nm); }} OK(CALL(s, "m_{p}_zero", 0)); vp_assert(get_int() == 1, "starts at zero"); int k = vp_choice({n}, "k"), how = vp_choice(3, "how"); for (int w = 0; w < {n}; w++) for (int sec = 0; sec < 2; sec++) {{ for (int i = 0; i < {n}; i++) set_{t}(i, a[i]); set_{t}({n}, v); ST[{n} + 1].ival = k; ST[{n} + 2].ival = w + 10 * sec; ST[{n} + 3].ival = how; OK(CALL(s, "m_{p}", {n} + 4)); vp_assert(same_{t}(get_{t}(), (sec ? a[(w + 1) % {n}] : w == k ? v : a[w])), "exactly the named field of the named variable changes"); }}')
g.write()
