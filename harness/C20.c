/*vp {"pc":"","forkptr":1,"hang":30000000,"time":200,"replays":100,"bounds":["one failing compilation (errors of every phase: characters, tokens, grammar, checks, missing and broken used classes), with a free byte in it or cut off anywhere, followed by a compilation of a fine class","two failing compilations in a row","names and literals shared by the failing and the fine class, literals with free bytes"]} */
#define COMP_MAP
#include "comp.h"
static const char* BAD[] = {
 "class { static method m : int () { return 1; } static method g : int () { return ??1; } }",
 "class { our $V : string; static method m : string () { $V = \"a$x\"; } }",
 "class { static method m : void () { my $x = <<'E';\nab\nE\n ??} }",
 "class { static method m : int () { my $v = 1; return \"a$v ??b\" + $w; } }",
 "class { has f : int; static method m : int () { my $f = method : int () { return ??; }; return 1; } }",
 "class { enum { A = 5, B ??} static method m : int () { return 1; } }",
 "class { use Nothing; static method m : int () { return 1; } }",
 "class { use VP; use Broken; static method m : int () { return ??1; } }",
 "class { static method m : int () { if (require Missing) { return 2; } return ??1; } }",
 "class extends VP { has f : int; ??method m : int () { return 1; } }",
 "class { static method m : int () { return VP->nothing; } interface VI; }",
 "class { version \"1\"; allow VP; alias VP as W; static method m : int () { my $a = W->??; } }",
};
enum { NB = sizeof BAD / sizeof *BAD };
static void add(SPV* s, const char* name, const char* text) { CAPI->add_class_file(s->compiler, name); void* f = CAPI->get_class_file(s->compiler, name); s->be->api->class_file->set_content(s->compiler, f, text); s->be->api->class_file->set_content_length(s->compiler, f, strlen(text)); char rel[40]; strcpy(rel, name); strcat(rel, ".spvm"); s->be->api->class_file->set_rel_file(s->compiler, f, rel); }
static int types(SPV* s) { return s->env->api->runtime->get_basic_types_length(s->rt); }
static int fails(SPV* s, const char* src) { int n = types(s); const char* nm = 0; int e = comp_anon(s, src, &nm); if (e) { vp_assert(types(s) == n, "a failed compilation adds no type to the runtime"); vp_assert(nm == 0, "a failed compilation names no class"); } return e; }
// a fine class using most of the syntax and the names of the failing ones
static void fine(SPV* s) { const char* nm = 0; int n = types(s); int e = comp_anon(s, "class : public { use VP; enum { A = 5, B } our $V : string; has f : int; static method m : int ($x : int) { $V = \"a$x\"; my $h = <<'E';\nab\nE\n my $f = method : int ($y : int) { return $y + &B; }; my $o = new VP; $o->{f} = \"$V$h\"; return $f->($x) * 100 + (length $o->{f}) + VP->two; } }", &nm); vp_assert(e == 0, "a fine class is accepted after a failed compilation"); if (e) { for (int i = 0; i < CAPI->get_error_messages_length(s->compiler); i++) vp_note(CAPI->get_error_message(s->compiler, i), 0); return; }
  int x; vp_symbolic(&x, 4, "x"); vp_assume((x >= 0) & (x < 9)); ST[0].ival = x; OK(spv_call(s, comp_method(s, nm, "m"), 1)); vp_assert(ST[0].ival == (x + 6) * 100 + 2 + 3 + 2, "the fine class computes its value"); vp_assert(types(s) > n, "an accepted class adds types to the runtime"); }
static void old(SPV* s) { int x; vp_symbolic(&x, 4, "old"); ST[0].ival = x; OK(CALL(s, "twice", 1)); vp_assert((uint32_t)ST[0].ival == (uint32_t)x * 2, "a class compiled earlier still works"); }
static int bad(SPV* s, int k, char* src) { strcpy(src, BAD[k]); char* q = strstr(src, "??"); if (k == 7) add(s, "Broken", "class Broken { static method x : int () { return \"a$"); if (!q) return 1; int mode = vp_choice(3, "mode"); if (mode == 0) { memmove(q, q + 2, strlen(q + 2) + 1); return 1; } if (mode == 1) { *q = 0; return 1; } vp_symbolic(q, 1, "byte"); memmove(q + 1, q + 2, strlen(q + 2) + 1); return 1; }
static void once(SPV* s, int k) { char src[300]; bad(s, k, src); int e = fails(s, src); if (e) vp_reach("failed"); else vp_reach("accepted"); old(s); fine(s); }
#define B(k) JOBV(after##k) { once(s, k); }
B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9) B(10) B(11)
static void cuts(SPV* s, int k) { char src[300]; strcpy(src, BAD[k]); char* q = strstr(src, "??"); if (q) memmove(q, q + 2, strlen(q + 2) + 1); if (k == 7) add(s, "Broken", "class Broken { "); int n = strlen(src), st = vp_thorough() ? 1 : 3; int p = vp_choice((n + st - 1) / st, "length") * st + (st > 1 ? k % st : 0); if (p > n) p = n; src[p] = 0; if (fails(s, src)) vp_reach("failed"); fine(s); }
#define C(k) JOBV(cut##k) { cuts(s, k); }
C(0) C(1) C(2) C(3) C(4) C(5) C(7) C(8) C(9)
JOBV(twice) { char src[300]; int a = vp_choice(NB, "first"), b = vp_choice(NB, "second"); for (int i = 0; i < 2; i++) { strcpy(src, BAD[i ? b : a]); char* q = strstr(src, "??"); if (q) *q = 0; if ((i ? b : a) == 7) add(s, "Broken", "class Broken { static method x : int () { return \"a$"); vp_assert(fails(s, src), "the class is rejected"); } fine(s); vp_reach("failed"); }
JOBV(named) { char t[100] = "class Nm { static method m : int () { return ?; } }"; char* q = strchr(t, '?'); vp_symbolic(q, 1, "byte"); add(s, "Nm", t); int n = types(s); const char* nm = 0; int e = CAPI->compile(s->compiler, "Nm"); if (e) { vp_assert(types(s) == n, "a failed compilation adds no type to the runtime"); vp_assert(s->env->api->runtime->get_basic_type_by_name(s->rt, "Nm") == 0, "a failed class is not in the runtime"); vp_assert(CAPI->get_class_file(s->compiler, "Nm") == 0, "the class file of a failed class is forgotten"); vp_reach("failed"); } else { OK(spv_call(s, comp_method(s, "Nm", "m"), 0)); vp_assert(ST[0].ival == t[q - t] - '0', "the class computes its value"); vp_reach("accepted"); return; }
  add(s, "Nm", "class Nm { static method m : int () { return 7; } }"); e = CAPI->compile(s->compiler, "Nm"); vp_assert(e == 0, "the class is accepted once it is repaired"); OK(spv_call(s, comp_method(s, "Nm", "m"), 0)); vp_assert(ST[0].ival == 7, "the repaired class is used"); fine(s); }
JOBV(literals) { char src[300], v[2]; for (int i = 0; i < 2; i++) { vp_symbolic(v + i, 1, "byte"); vp_assume((v[i] >= 'a') & (v[i] <= 'z')); } int z = vp_choice(2, "NUL"); strcpy(src, "class { static method m : string () { return \"?"); src[strlen(src) - 1] = v[0]; if (z) strcat(src, "\\0"); int p = strlen(src); src[p] = v[1]; src[p + 1] = 0; strcat(src, "\"; } "); char ok[300]; strcpy(ok, src); strcat(src, "static method g : int () { return $undeclared; } }"); strcat(ok, "}"); vp_assert(fails(s, src), "the class is rejected"); const char* nm = 0; int e = comp_anon(s, ok, &nm); vp_assert(e == 0, "the class is accepted"); OK(spv_call(s, comp_method(s, nm, "m"), 0)); void* o = ST[0].oval; const char* c = ENV->get_chars(ENV, ST, o); vp_assert(ENV->length(ENV, ST, o) == 2 + z && c[0] == v[0] && c[1 + z] == v[1] && (!z || c[1] == 0), "the literal keeps its bytes"); vp_reach("literal"); }
static const char* WRONG[] = { "class VP extends Nothing : private { static method two : int () { return 9; } has f : int; }", "class int { has f : int; }", "class Byte : mulnum_t { has f : int; }", "class vp { }", "class { static method m : int () { return 1; } }", "class;", "class eval::anon_class::0 { }", "class object extends VP { }", "interface VP;", "class string : interface_t { required method f : int (); }" };
enum { NW = sizeof WRONG / sizeof *WRONG };
JOBV(wrongname) { int k = vp_choice(NW, "text"); char b[200]; strcpy(b, WRONG[k]); int how = vp_choice(3, "how"); add(s, "Nm", b); int n = types(s); int e; if (how == 0) e = CAPI->compile(s->compiler, "Nm"); else e = fails(s, how == 1 ? "class { use Nm; static method m : int () { return 1; } }" : WRONG[k]); if (how == 2 && (k == 4 || k == 5)) { vp_reach("accepted"); } else { vp_assert(e, "a class whose name is not that of its file is rejected"); vp_assert(types(s) == n, "a failed compilation adds no type to the runtime"); vp_reach("failed"); }
  old(s); fine(s); fine(s); void* bt = s->env->api->runtime->get_basic_type_by_name(s->rt, "VP"); const char* f = s->env->api->basic_type->get_file(s->rt, bt); vp_assert(f != 0 && strstr(f, "VP.spvm") != 0, "an earlier class keeps its file"); vp_assert(s->env->api->basic_type->get_parent(s->rt, bt) == 0, "an earlier class keeps its parent"); }
