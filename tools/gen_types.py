#!/usr/bin/env python3
"""C10: run-time type tests."""
from gen_lib import *
g = Gen("C10", '{"pc":"VP","time":120,"bounds":["33 object types (classes in a chain of three, unrelated class, classes with interfaces, interface with an interface, strings, number objects, numeric, multi-numeric, string, class, interface and object arrays of 1..3 dimensions) x 32 target types, each pair with a cold cache and all pairs in one history","assignment rule of the compiler and run time: every pair of 14 base types with every pair of dimensions 0..255","error ids: every 32-bit value"]}')
CL = "use A; use B; use C; use D; use E1; use If1; use If2; use If3; use Pt_2d; use Qt_2d; use Err1; use Err2; use Int; use Long; use Fn;\n"
g.cls_head = CL
C = {"A": "class A : public { static method new : A () { return new A; } }",
 "B": "class B extends A : public { interface If1; static method new : B () { return new B; } method m1 : int () { return 1; } }",
 "C": "class C extends B : public { static method new : C () { return new C; } }",
 "D": "class D : public { interface If2; method m2 : int () { return 1; } }",
 "E1": "class E1 : public { interface If3; method m1 : int () { return 1; } method m3 : int () { return 1; } }",
 "If1": "class If1 : interface_t public { required method m1 : int (); }",
 "If2": "class If2 : interface_t public { required method m2 : int (); }",
 "If3": "class If3 : interface_t public { interface If1; required method m1 : int (); required method m3 : int (); }",
 "Pt_2d": "class Pt_2d : mulnum_t { has x : double; has y : double; }", "Qt_2d": "class Qt_2d : mulnum_t { has x : double; has y : double; }",
 "Err1": "class Err1 extends Error : public { }", "Err2": "class Err2 extends Err1 : public { }"}
SUP = {"B": ["A"], "C": ["B", "A"]}; IFS = {"B": ["If1"], "C": ["If1"], "D": ["If2"], "E1": ["If3", "If1"], "If3": ["If1"]}
PRIM = {"byte", "short", "int", "long", "float", "double"}; MUL = {"Pt_2d", "Qt_2d"}; IFN = {"If1", "If2", "If3"}; NOB = {"Int", "Long"}; CLS = {"A", "B", "C", "D", "E1"}
def parse(t):
    d = 0
    while t.endswith("[]"): t = t[:-2]; d += 1
    return t, d
def isobj(b, d): return d > 0 or b not in PRIM | MUL
def assignable(dst, src):
    (b, d), (e, f) = parse(dst), parse(src)
    if (b, d) == (e, f): return True
    if b == "object" and d == 0: return True
    if b == "object" and d == 1: return f >= 1 and isobj(e, f - 1)
    if d != f: return False
    if e == "object": return False
    return (b in SUP.get(e, [])) or (b in IFS.get(e, []))
OB = ["A", "B", "C", "D", "E1", "string", "Int", "Long", "byte[]", "int[]", "long[]", "int[][]", "int[][][]", "string[]", "string[][]", "A[]", "B[]", "C[]", "D[]", "E1[]", "A[][]", "B[][]", "C[][]", "If1[]", "If3[]", "If3[][]", "If2[]", "object[]", "Pt_2d[]", "Pt_2d[][]", "Qt_2d[]", "Int[]", "Int[][]"]
TY = ["object[]", "A", "B", "C", "D", "E1", "If1", "If2", "If3", "string", "Int", "Long", "byte[]", "int[]", "int[][]", "int[][][]", "string[]", "string[][]", "A[]", "B[]", "C[]", "D[]", "A[][]", "B[][]", "If1[]", "If1[][]", "If3[]", "If2[]", "Pt_2d[]", "Pt_2d[][]", "Int[]", "Int[][]"]
def arr(t, n): b, d = parse(t); return "new " + b + "[]" * (d - 1) + f"[{n}]"
for k, t in enumerate(OB):
    b, d = parse(t)
    e = arr(t, 2) if d else '"s"' if t == "string" else f"(Int)5" if t == "Int" else "(Long)5L" if t == "Long" else f"new {t}"
    g.method(f"mk{k}", "object", [], f"return {e};", vm=True)
for j, t in enumerate(TY):
    g.method(f"isa{j}", "int", [("o", "object")], f"return $o isa {t};")
    g.method(f"ist{j}", "int", [("o", "object")], f"return $o is_type {t};")
    g.method(f"cast{j}", "object", [("o", "object")], f"my $v : {t} = ({t})$o; return $v;")
    g.method(f"castkeep{j}", "object", [("o", "object")], f"my $v : {t} = undef; eval {{ $v = ({t})$o; }}; return $v;")
    g.method(f"casterr{j}", "int", [("o", "object")], f"if ($o isa {t}) {{ return 10; }} else {{ return 20; }}")
    b, d = parse(t)
    if not (b == "object"):
        g.method(f"store{j}", "object", [("o", "object")], f"my $a = {arr(t + '[]', 1)}; my $x : object[] = $a; $x->[0] = $o; return $x->[0];")
        g.method(f"storekeep{j}", "object", [("o", "object"), ("p", "object")], f"my $a = {arr(t + '[]', 2)}; my $x : object[] = $a; $x->[1] = $p; eval {{ $x->[1] = $o; }}; unless ($@) {{ return undef; }} return $x->[1];")
nO, nT = len(OB), len(TY)
tab = lambda f: "{" + ", ".join("{" + ", ".join(str(int(f(t, o))) for t in TY) + "}" for o in OB) + "}"
g.c.append(f"static const unsigned char ASG[{nO}][{nT}] = {tab(lambda t, o: assignable(t, o))};\nstatic const unsigned char SAM[{nO}][{nT}] = {tab(lambda t, o: t == o)};")
g.c.append("static const char* TYN[] = {" + ", ".join(f'"{t}"' for t in TY) + "};")
g.c.append('''
#define set_obj(i, v) (ST[i].oval = (v))
static void* mkobj(SPV* s, int k) { char b[16]; snprintf(b, 16, "mk%d", k); OK(CALL(s, b, 0)); ENV->push_mortal(ENV, ST, ST[0].oval); return ST[0].oval; }
static int call1(SPV* s, const char* p, int j, void* o) { char b[16]; snprintf(b, 16, "%s%d", p, j); set_obj(0, o); return CALL(s, b, 1); }
static void check_pair(SPV* s, void* o, int k, int j, int full) {
  OK(call1(s, "isa", j, o)); vp_assert(ST[0].ival == ASG[k][j], "isa tells whether the object can be assigned to the type");
  OK(call1(s, "ist", j, o)); vp_assert(ST[0].ival == SAM[k][j], "is_type tells whether the type is exactly that of the object");
  OK(call1(s, "casterr", j, o)); vp_assert(ST[0].ival == (ASG[k][j] ? 10 : 20), "isa as a condition");
  int e = call1(s, "cast", j, o); vp_assert((e == 0) == ASG[k][j], "a cast succeeds exactly when the object is assignable"); vp_assert(e || ST[0].oval == o, "a cast yields the object"); vp_assert(!e || spv_exc(s) != 0, "a failed cast throws"); spv_clear_exc(s);
  OK(call1(s, "castkeep", j, o)); vp_assert(ST[0].oval == (ASG[k][j] ? o : 0), "a failed cast leaves the destination unchanged");
  if (!full) return;
  if (strncmp(TYN[j], "object", 6)) { e = call1(s, "store", j, o); vp_assert((e == 0) == ASG[k][j], "an element accepts exactly the assignable objects"); vp_assert(e || ST[0].oval == o, "the element is the object"); spv_clear_exc(s);
    int same = -1; for (int q = 0; q < %d; q++) if (SAM[q][j]) same = q;
    if (same >= 0) { void* p = mkobj(s, same); set_obj(1, p); char b[16]; snprintf(b, 16, "storekeep%%d", j); set_obj(0, o); OK(CALL(s, b, 2)); vp_assert(ST[0].oval == (ASG[k][j] ? 0 : p), "a failed element store leaves the element unchanged"); } } }
'''.replace('%%', '%').replace('q < %d', 'q < ' + str(nO)))
for j, t in enumerate(TY):
    g.job(f"pair{j}", f'int k = vp_choice({nO}, "object"); void* o = mkobj(s, k); check_pair(s, o, k, {j}, 1); check_pair(s, o, k, {j}, 0);')
g.job("all", f'int rev = vp_choice(2, "reverse"); for (int q = 0; q < {nO}; q++) {{ int k = rev ? {nO} - 1 - q : q; void* o = mkobj(s, k); for (int r = 0; r < {nT}; r++) {{ int j = rev ? {nT} - 1 - r : r; OK(call1(s, "isa", j, o)); vp_assert(ST[0].ival == ASG[k][j], "isa in a long history"); int e = call1(s, "cast", j, o); vp_assert((e == 0) == ASG[k][j], "cast in a long history"); spv_clear_exc(s); }} }}')
g.job("undef", f'int j = vp_choice({nT}, "type"); OK(call1(s, "isa", j, 0)); vp_assert(ST[0].ival == 0, "undef isa nothing"); OK(call1(s, "ist", j, 0)); vp_assert(ST[0].ival == 0, "undef is of no type"); OK(call1(s, "cast", j, 0)); vp_assert(ST[0].oval == 0, "undef casts to every type"); if (strncmp(TYN[j], "object", 6)) {{ OK(call1(s, "store", j, 0)); vp_assert(ST[0].oval == 0, "undef can be stored in every element"); }}')
# the assignment rule itself, every dimension
BT = ["int", "double", "string", "object", "Int", "Long", "A", "B", "C", "D", "E1", "If1", "If3", "Pt_2d"]
def kind(b): return "P" if b in PRIM else "M" if b in MUL else "S" if b == "string" else "O" if b == "object" else "N" if b in NOB else "I" if b in IFN else "C"
g.c.append('#include "spvm_native.h"\nint32_t SPVM_API_TYPE_can_assign(void*, void*, int32_t, int32_t, void*, int32_t, int32_t); int32_t SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(void*, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, char*);')
g.c.append("static const char* BN[] = {" + ", ".join(f'"{b}"' for b in BT) + "}; static const char BK[] = \"" + "".join(kind(b) for b in BT) + "\"; static const unsigned char UP[%d][%d] = {" % (len(BT), len(BT)) + ", ".join("{" + ", ".join(str(int(b in SUP.get(e, []) or b in IFS.get(e, []))) for b in BT) + "}" for e in BT) + "};")
g.c.append('''
static void* bt(int i) { return SV.env->api->runtime->get_basic_type_by_name(SV.rt, BN[i]); }
static int spec_asg(int b, int d, int e, int f) { // destination b,d from source e,f without conversion, neither of them undef or void
  if (b == e && d == f) return 1; int nonobj = (f == 0) & ((BK[e] == 'P') | (BK[e] == 'M'));
  if (BK[b] == 'O' && d == 0) return !nonobj; if (BK[b] == 'O' && d == 1) return (f >= 2) | ((f == 1) & (BK[e] != 'P') & (BK[e] != 'M')); return (d == f) & UP[e][b]; }
''')
for i, b in enumerate(BT):
    g.c.append(f'void job_rule_{b}(void) {{ int e = vp_choice({len(BT)}, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[{i}] == \'O\') vp_assume(d <= 1); if (BK[e] == \'O\') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt({i})), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg({i}, d, e, f), "assignment rule"); vp_observe(r); }}')
# errors
g.cls_head += ""
g.method("ie1", "int", [("id", "int")], "return $id isa_error Err1;"); g.method("ie0", "int", [("id", "int")], "return $id isa_error Error;"); g.method("it1", "int", [("id", "int")], "return $id is_error Err1;")
g.method("basic_ids", "int[]", [], "my $a = new int[4]; $a->[0] = basic_type_id Error; $a->[1] = basic_type_id Err1; $a->[2] = basic_type_id Err2; $a->[3] = basic_type_id A; return $a;")
g.job("errid", '''OK(CALL(s, "basic_ids", 0)); int32_t* a = ENV->get_elems_int(ENV, ST, ST[0].oval); int q = vp_choice(4, "class"); int id = a[q];
  set_int(0, id); OK(CALL(s, "ie1", 1)); vp_assert(get_int() == (q == 1 || q == 2), "isa_error with a class"); set_int(0, id); OK(CALL(s, "ie0", 1)); vp_assert(get_int() == (q < 3), "isa_error with the base class"); set_int(0, id); OK(CALL(s, "it1", 1)); vp_assert(get_int() == (q == 1), "is_error is exact");''')
g.job("errid_any", '''c_int id = sym_int("id"); set_int(0, id); int e = CALL(s, "it1", 1); vp_assert(e || (get_int() & ~1) == 0, "is_error yields 0 or 1"); vp_observe(e); spv_clear_exc(s);''')
g.job("ieid_any", '''c_int id = sym_int("id"); int n = ENV->api->runtime->get_basic_types_length(s->rt); vp_assume((id < 8) | (id >= n - 3)); set_int(0, id); int e = CALL(s, "ie1", 1); vp_assert(e || (get_int() & ~1) == 0, "isa_error yields 0 or 1"); vp_observe(e); spv_clear_exc(s);''')
# mutable strings
g.method("mut", "object", [("o", "object")], "my $v : mutable string = (mutable string)$o; return $v;")
g.job("mut", '''int ro = vp_choice(2, "read-only"); void* o = spv_str(s, "abc", 3); if (ro) ENV->make_read_only(ENV, ST, o); set_obj(0, o); int e = CALL(s, "mut", 1); vp_assert((e != 0) == ro, "a cast to mutable string succeeds exactly for strings that are not read-only"); vp_assert(e || ST[0].oval == o, "the cast yields the string"); spv_clear_exc(s);
  void* x = mkobj(s, vp_choice(4, "object")); set_obj(0, x); vp_assert(CALL(s, "mut", 1) != 0, "other objects are rejected"); spv_clear_exc(s); set_obj(0, 0); OK(CALL(s, "mut", 1)); vp_assert(ST[0].oval == 0, "undef");''')
g.write()
for n, b in C.items(): open(f"{H}/C10/{n}.spvm", "w").write(b + "\n")
