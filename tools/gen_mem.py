#!/usr/bin/env python3
"""Generates C06 (element access), C07 (creation) and C08 (fields) harnesses."""
import sys; sys.path.insert(0, "/verif/tools")
import os
os.environ["GEN_LIB"] = "1"
from gen_lib import *
PT = {"Pt_3b": "byte", "Pt_2s": "short", "Pt_2i": "int", "Pt_3l": "long", "Pt_2f": "float", "Pt_2d": "double"}
def pts(pid):
    os.makedirs(f"{H}/{pid}", exist_ok=True)
    for p, t in PT.items():
        n = int(p[3]); open(f"{H}/{pid}/{p}.spvm", "w").write(f"class {p} : mulnum_t {{\n" + "".join(f"  has {f} : {t};\n" for f in "xyz"[:n]) + "}\n")
USEPT = "".join(f"  use {p};\n" for p in PT)
# ------------------------------------------------------------ C06
g = Gen("C06", '{"pc":"VP","time":150,"bounds":["arrays of length 0..3 (and undef), every 32-bit index, every stored value, every element type","strings of length 0..3 for character access"]}', cls_head=USEPT + "  use Int;\n")
pts("C06")
g.c.append('#define BADIDX (i < 0 || i >= n)\nstatic void threw(SPV* s, int e) { vp_assert(e != 0, "an index outside the array throws"); vp_assert(spv_exc(s) != 0, "with an exception"); spv_clear_exc(s); vp_reach("outside"); }')
for t in N:
    g.method(f"get_{t}", t, [("a", t + "[]"), ("i", "int")], "return $a->[$i];"); g.method(f"set_{t}", t, [("a", t + "[]"), ("i", "int"), ("v", t)], "return $a->[$i] = $v;")
    g.method(f"alen_{t}", "int", [("a", t + "[]")], "return @$a;")
    g.method(f"addr_{t}", t, [("a", t + "[]"), ("i", "int"), ("v", t)], "my $k = 0; eval { $a->[$i] += $v; $k = 1; } if ($k == 0) { die \"out\"; } return $a->[$i];")
    b = f'''int n = vp_choice(5, "n"); c_int i = sym_int("i"); vp_must("outside"); if (n == 4) {{ ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_{t}", 2)); ST[0].oval = 0; ST[1].ival = i; set_{t}(2, 0); threw(s, CALL(s, "set_{t}", 3)); ST[0].oval = 0; threw(s, CALL(s, "alen_{t}", 1)); return; }}
  void* a = ENV->new_{t}_array(ENV, ST, n); c_{t}* p = ENV->get_elems_{t}(ENV, ST, a); c_{t} old[3]; for (int k = 0; k < n; k++) {{ char nm[3] = {{'e', '0' + k, 0}}; p[k] = old[k] = sym_{t}(nm); }} c_{t} v = sym_{t}("v");
  ST[0].oval = a; OK(CALL(s, "alen_{t}", 1)); vp_assert(get_int() == n, "array length operator");
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_{t}", 2); vp_observe(e); if (BADIDX) threw(s, e); else {{ OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & same_{t}(get_{t}(), old[k]); vp_assert(ok, "the element is read"); }}
  ST[0].oval = a; ST[1].ival = i; set_{t}(2, v); e = CALL(s, "set_{t}", 3); if (BADIDX) threw(s, e); else {{ OK(e); vp_assert(same_{t}(get_{t}(), v), "value of the assignment"); }}
  for (int k = 0; k < n; k++) vp_assert(same_{t}(p[k], (k == i ? v : old[k])), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; set_{t}(2, v); e = CALL(s, "addr_{t}", 3); if (BADIDX) {{ threw(s, e); for (int k = 0; k < n; k++) vp_assert(same_{t}(p[k], old[k]), "nothing changes"); }}'''
    g.job(f"num_{t}", b)
for it in ("byte", "short"):
    g.method(f"idx_{it}", "int", [("a", "int[]"), ("i", it), ("v", "int")], "$a->[$i] = $v; return $a->[$i];")
    g.job(f"idx_{it}", f'c_{it} i = sym_{it}("i"); c_int v = sym_int("v"); int n = 3; void* a = ENV->new_int_array(ENV, ST, n); int32_t* p = ENV->get_elems_int(ENV, ST, a); p[0] = 1; p[1] = 2; p[2] = 3; ST[0].oval = a; set_{it}(1, i); ST[2].ival = v; int e = CALL(s, "idx_{it}", 3); vp_must("outside"); if (BADIDX) {{ threw(s, e); vp_assert(p[0] == 1 && p[1] == 2 && p[2] == 3, "nothing changes"); return; }} OK(e); vp_assert(get_int() == v, "element"); for (int k = 0; k < 3; k++) vp_assert(p[k] == (k == i ? v : k + 1), "only the indexed element changes");')
for t, cast in (("object", "object"), ("string", "string"), ("Int", "Int")):
    g.method(f"get_{t}", t, [("a", t + "[]"), ("i", "int")], "return $a->[$i];"); g.method(f"set_{t}", t, [("a", t + "[]"), ("i", "int"), ("v", t)], "return $a->[$i] = $v;")
    g.method(f"undef_{t}", "void", [("a", t + "[]"), ("i", "int")], "$a->[$i] = undef;")
    g.method(f"make_{t}", t + "[]", [("n", "int")], f"return new {t}[$n];")
    mk = 'spv_str(s, "x", 1)' if t != "Int" else 'mkint(s, %s)'
    def mko(k): return f'spv_str(s, "{k}", 1)' if t != "Int" else f'mkint(s, {k})'
    if t == "object": g.method("mkint", "Int", [("v", "int")], "return Int->new($v);"); g.c.append('static void* mkint(SPV* s, int v) { ST[0].ival = v; OK(CALL(s, "mkint", 1)); void* o = ST[0].oval; ENV->push_mortal(ENV, ST, o); return o; }')
    g.job(f"obj_{t}", f'''int n = vp_choice(5, "n"); c_int i = sym_int("i"); void* v = {mko(7)}; vp_must("outside"); if (n == 4) {{ ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_{t}", 2)); ST[0].oval = 0; ST[1].ival = i; ST[2].oval = v; threw(s, CALL(s, "set_{t}", 3)); ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "undef_{t}", 2)); return; }}
  ST[0].ival = n; OK(CALL(s, "make_{t}", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); void* old[3] = {{ {mko(1)}, {mko(2)}, 0 }}; for (int k = 0; k < n; k++) {{ vp_assert(ENV->get_elem_object(ENV, ST, a, k) == 0, "elements start undef"); ENV->set_elem_object(ENV, ST, a, k, old[k]); }}
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_{t}", 2); if (BADIDX) threw(s, e); else {{ OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & (ST[0].oval == old[k]); vp_assert(ok, "the element is read"); }}
  ST[0].oval = a; ST[1].ival = i; ST[2].oval = v; e = CALL(s, "set_{t}", 3); if (BADIDX) threw(s, e); else {{ OK(e); vp_assert(ST[0].oval == v, "value of the assignment"); }} for (int k = 0; k < n; k++) vp_assert(ENV->get_elem_object(ENV, ST, a, k) == (k == i ? v : old[k]), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; e = CALL(s, "undef_{t}", 2); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n; k++) vp_assert(ENV->get_elem_object(ENV, ST, a, k) == (k == i ? 0 : old[k]), "exactly the indexed element becomes undef");''')
for p, t in PT.items():
    n = int(p[3]); fs = "xyz"[:n]
    g.method(f"mget_{p}", t, [("a", p + "[]"), ("i", "int"), ("f", "int")], f"my $v = $a->[$i]; if ($f == 0) {{ return $v->{{x}}; }} elsif ($f == 1) {{ return $v->{{y}}; }} return $v->{{{fs[-1]}}};")
    g.method(f"mget2_{p}", t, [("a", p + "[]"), ("i", "int")], "return $a->[$i]{y};".replace("[$i]{y}", "[$i]->{y}"))
    g.method(f"mset_{p}", "void", [("a", p + "[]"), ("i", "int"), ("v", t)], f"my $w : {p}; $w->{{x}} = $v; $w->{{{fs[-1]}}} = $v; $a->[$i] = $w;")
    g.method(f"mset2_{p}", "void", [("a", p + "[]"), ("i", "int"), ("v", t)], "$a->[$i]->{y} = $v;")
    g.method(f"mk_{p}", p + "[]", [("n", "int")], f"return new {p}[$n];")
    b = f'''int n = vp_choice(4, "n"); c_int i = sym_int("i"); c_{t} v = sym_{t}("v"); ST[0].ival = n; OK(CALL(s, "mk_{p}", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); c_{t}* p = ENV->get_elems_{t}(ENV, ST, a); c_{t} old[12]; for (int k = 0; k < n * {n}; k++) {{ vp_assert(p[k] == 0, "fields start at zero"); p[k] = old[k] = (c_{t})(k + 1); }} vp_must("outside");
  for (int f = 0; f < {n}; f++) {{ ST[0].oval = a; ST[1].ival = i; ST[2].ival = f; int e = CALL(s, "mget_{p}", 3); if (BADIDX) threw(s, e); else {{ OK(e); vp_assert(get_{t}() == (c_{t})(i * {n} + f + 1), "field of the element"); }} }}
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "mget2_{p}", 2); if (BADIDX) threw(s, e); else {{ OK(e); vp_assert(get_{t}() == (c_{t})(i * {n} + 2), "field read through the element"); }}
  ST[0].oval = a; ST[1].ival = i; set_{t}(2, v); e = CALL(s, "mset2_{p}", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * {n}; k++) vp_assert(same_{t}(p[k], (k / {n} == i && k % {n} == 1 ? v : old[k])), "exactly one field changes");
  ST[0].oval = a; ST[1].ival = i; set_{t}(2, v); e = CALL(s, "mset_{p}", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * {n}; k++) vp_assert(same_{t}(p[k], (k / {n} == i ? (k % {n} == 0 || k % {n} == {n} - 1 ? v : 0) : old[k])), "exactly one element changes");'''
    g.job(f"mul_{p}", b)
g.method("chr", "byte", [("x", "string"), ("i", "int")], "return $x->[$i];")
g.method("setchr", "void", [("x", "mutable string"), ("i", "int"), ("v", "byte")], "$x->[$i] = $v;")
g.job("chr", '''int n = vp_choice(5, "n"); c_int i = sym_int("i"); c_byte v = sym_byte("v"); char b[4]; vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "chr", 2)); ST[0].oval = 0; ST[1].ival = i; ST[2].bval = v; threw(s, CALL(s, "setchr", 3)); return; }
  vp_symbolic(b, n, "text"); void* o = spv_str(s, b, n); ST[0].oval = o; ST[1].ival = i; int e = CALL(s, "chr", 2); if (BADIDX) threw(s, e); else { OK(e); int w = 0; for (int k = 0; k < n; k++) w = k == i ? b[k] : w; vp_assert(get_byte() == w, "character read"); }
  ST[0].oval = o; ST[1].ival = i; ST[2].bval = v; e = CALL(s, "setchr", 3); if (BADIDX) threw(s, e); else OK(e); const char* p = ENV->get_chars(ENV, ST, o); for (int k = 0; k < n; k++) vp_assert(p[k] == (k == i ? v : b[k]), "exactly one character changes"); vp_assert(p[n] == 0, "still terminated");''')
g.method("two", "int", [("i", "int"), ("j", "int"), ("v", "int")], "my $a = new int[][2]; $a->[0] = new int[1]; $a->[1] = new int[3]; $a->[$i][$j] = $v; return $a->[1][0] + $a->[1][1] + $a->[1][2] + $a->[0][0];")
g.job("two", 'c_int i = sym_int("i"), j = sym_int("j"), v = sym_int("v"); ST[0].ival = i; ST[1].ival = j; ST[2].ival = v; int e = CALL(s, "two", 3); vp_must("outside"); int in = (i == 0 && j == 0) || (i == 1 && j >= 0 && j < 3); if (!in) { threw(s, e); return; } OK(e); vp_assert(get_int() == v, "nested element");')
g.method("generic", "int", [("x", "object"), ("i", "int")], "my $a = (object[])$x; my $o = $a->[$i]; if ($o) { return 1; } return 0;")
g.job("generic", 'c_int i = sym_int("i"); int n = 2; ST[0].ival = 2; OK(CALL(s, "make_Int", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); ENV->set_elem_object(ENV, ST, a, 1, mkint(s, 3)); ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "generic", 2); vp_must("outside"); if (BADIDX) { threw(s, e); return; } OK(e); vp_assert(get_int() == (i == 1), "element through object[]");')
g.write()
# ------------------------------------------------------------ C07
g = Gen("C07", '{"pc":"VP","time":150,"bounds":["every 32-bit length for every element type; an allocation request above the modelled limit (64 MiB) fails","content is examined at one symbolic index below the length (covers every element)","array literals of 0..5 elements with symbolic values"]}', cls_head=USEPT + "  use Int;\n")
pts("C07")
g.c.append('''static void refused(SPV* s, int e) { vp_assert(e != 0, "creation throws"); vp_assert(spv_exc(s) != 0, "with an exception"); spv_clear_exc(s); }
static void* created(SPV* s, int e, c_int n) { vp_must("negative"); vp_must("created"); vp_must("too large"); if (n < 0) { refused(s, e); vp_reach("negative"); return 0; } if (e) { refused(s, e); vp_reach("too large"); vp_assert(n > 1000000, "a modest request succeeds"); return 0; } vp_reach("created"); void* a = ST[0].oval; vp_assert(a != 0, "an object is returned"); ENV->push_mortal(ENV, ST, a); vp_assert(ENV->length(ENV, ST, a) == n, "the length is the requested one"); return a; }''')
def body(m, el, elty, nf=1, zero=None):
    return f'''c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "{m}", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); {el}'''
for t in N:
    g.method(f"new_{t}", t + "[]", [("n", "int")], f"return new {t}[$n];")
    g.job(f"new_{t}", body(f"new_{t}", f'c_{t}* p = ENV->get_elems_{t}(ENV, ST, a); vp_assert(p[i] == 0, "elements start at zero"); p[i] = 1; vp_assert(p[i] == 1, "elements are writable"); vp_assert(p[n - 1] == (i == n - 1), "last element");', t))
    g.c.append(f'JOBV(api_{t}) {{ c_int n = sym_int("n"); void* a = ENV->new_{t}_array_no_mortal(ENV, ST, n); vp_must("negative"); if (n < 0) {{ vp_assert(a == 0, "negative length gives no array"); vp_reach("negative"); return; }} if (!a) {{ vp_assert(n > 1000000, "a modest request succeeds"); return; }} vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_{t}* p = ENV->get_elems_{t}(ENV, ST, a); vp_assert(p[i] == 0, "zero"); p[i] = 5; }}')
for p, t in PT.items():
    n = int(p[3]); g.method(f"new_{p}", p + "[]", [("n", "int")], f"return new {p}[$n];")
    g.job(f"new_{p}", body(f"new_{p}", f'c_{t}* p = ENV->get_elems_{t}(ENV, ST, a); for (int f = 0; f < {n}; f++) {{ vp_assert(p[(size_t)i * {n} + f] == 0, "fields start at zero"); p[(size_t)i * {n} + f] = 1; }}', t))
for t in ("object", "string", "Int", "VP"):
    g.method(f"new_{t}", t + "[]", [("n", "int")], f"return new {t}[$n];")
    g.job(f"new_{t}", body(f"new_{t}", 'vp_assume(n < 100000); vp_assert(ENV->get_elem_object(ENV, ST, a, i) == 0, "elements start undef");', t).replace("if (!a || n == 0) return;", "if (!a || n == 0) return; if (n >= 100000) { ENV->set_elem_object(ENV, ST, a, n - 1, 0); return; }"))
for d in (2, 3):
    g.method(f"new_dim{d}", "int" + "[]" * d, [("n", "int")], f"return new int{'[]' * (d - 1)}[$n];")
    g.job(f"new_dim{d}", body(f"new_dim{d}", 'vp_assert(ENV->get_elem_object(ENV, ST, a, i) == 0, "elements start undef");', "x").replace("if (!a || n == 0) return;", "if (!a || n == 0) return; if (n >= 100000) { return; }"))
g.method("new_str", "string", [("n", "int")], "return new_string_len $n;")
g.job("new_str", body("new_str", 'char* p = (char*)ENV->get_chars(ENV, ST, a); vp_assert(p[i] == 0, "zero-filled"); p[i] = 7; vp_assert(p[n] == 0, "terminated"); vp_assert(!ENV->is_read_only(ENV, ST, a), "not read-only");', "x"))
g.c.append('JOBV(api_string) { c_int n = sym_int("n"); void* a = ENV->new_string_no_mortal(ENV, ST, 0, n); if (n < 0) { vp_assert(a == 0, "negative length gives no string"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); char* p = (char*)ENV->get_chars(ENV, ST, a); vp_assert(p[n] == 0, "terminated"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); vp_assert(p[i] == 0, "zero"); p[i] = 5; }')
g.c.append('JOBV(api_mulnum) { c_int n = sym_int("n"); void* bt = ENV->get_basic_type(ENV, ST, "Pt_3l"); void* a = ENV->new_mulnum_array_no_mortal(ENV, ST, bt, n); if (n < 0) { vp_assert(a == 0, "negative length gives no array"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); int64_t* p = ENV->get_elems_long(ENV, ST, a); for (int f = 0; f < 3; f++) { vp_assert(p[(size_t)i * 3 + f] == 0, "zero"); p[(size_t)i * 3 + f] = 5; } }')
for t in N:
    for n in (0, 1, 3, 5):
        if n == 0: g.method(f"lit{n}_{t}", f"{t}[]", [("a", t)], f"return ({t}[])[($a, $a)] ;" if False else f"my $r = new {t}[0]; return $r;")
        else: g.method(f"lit{n}_{t}", f"{t}[]", [(f"v{i}", t) for i in range(n)], f"return [{', '.join(f'$v{i}' for i in range(n))}];")
        b = " ".join(f'c_{t} v{i} = sym_{t}("v{i}"); set_{t}({i}, v{i});' for i in range(max(n, 1))) + f' OK(CALL(s, "lit{n}_{t}", {max(n, 1)})); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == {n}, "length of the literal");' + (f' c_{t}* p = ENV->get_elems_{t}(ENV, ST, a); ' if n else "") + " ".join(f'vp_assert(same_{t}(p[{i}], v{i}), "element {i}");' for i in range(n))
        g.job(f"lit{n}_{t}", b)
g.method("litmix", "object[]", [("i", "int"), ("d", "double"), ("x", "string")], 'return {k => $i, "d" => $d, x => $x};')
g.method("litnest", "int", [("a", "int"), ("b", "int"), ("c", "int"), ("i", "int"), ("j", "int")], "my $m = [[$a, $b], [$c], new int[0]]; return @$m * 1000 + @{$m->[0]} * 100 + @{$m->[1]} * 10 + @{$m->[2]};")
g.job("litnest", 'for (int k = 0; k < 5; k++) ST[k].ival = sym_int("v"); OK(CALL(s, "litnest", 5)); vp_assert(get_int() == 3210, "lengths of nested literals");')
g.job("litmix", '''c_int i = sym_int("i"); c_double d = sym_double("d"); void* x = spv_str(s, "q", 1); ST[0].ival = i; ST[1].dval = d; ST[2].oval = x; OK(CALL(s, "litmix", 3)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); vp_assert(ENV->length(ENV, ST, a) == 6, "key-value literal length"); 
  void* e[6]; for (int k = 0; k < 6; k++) { e[k] = ENV->get_elem_object(ENV, ST, a, k); vp_assert(e[k] != 0, "defined"); } vp_assert(!strcmp(ENV->get_chars(ENV, ST, e[0]), "k") && !strcmp(ENV->get_chars(ENV, ST, e[2]), "d") && !strcmp(ENV->get_chars(ENV, ST, e[4]), "x"), "keys in order"); vp_assert(e[5] == x, "object value"); int err = 0; vp_assert(ENV->get_field_int_by_name(ENV, ST, e[1], "value", &err, "", "", 0) == i, "boxed int"); vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, e[3], "value", &err, "", "", 0), d), "boxed double");''')
g.write()
