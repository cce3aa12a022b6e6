/*vp {"pc":"","forkptr":1,"hang":30000000,"time":200,"time_thorough":3000,"replays":100,"bounds":["every source text of up to 2 bytes (thorough: 3)","each text of a corpus that uses every syntax element, with one byte replaced by, or one byte inserted, of any value, at any position (quick: at every 7th position)","each text of the corpus cut off at any position and followed by any byte","a class file whose length is smaller than its text, with a free byte (NUL, invalid UTF-8) at any position","names of 1 to 1000 bytes in nine places, anonymous methods at lines up to 2147483640 and columns up to 6000, anonymous classes after up to 2147483640 earlier ones"]} */
#define COMP_MAP
#include "comp.h"
static const char* T[] = {
 "class { version \"1.0\"; use VP as V; alias VP as W; allow VP; enum { A, B = 3 } our $X : rw int; }",
 "class extends VP : public { has a : rw int; has b : string; method m : void () { $self->{a} = 1; } }",
 "class : interface_t { required method f : int ($x : int, $y : string = undef); }",
 "class : mulnum_t { has x : int; has y : int; }",
 "class : pointer { static method m : int ($x : int, $y : int = 1) { return $x + $y * 2; } }",
 "class { static method m : void () { for (my $i = 0; $i < 3; $i++) { if ($i == 1) { next; } else { last; } } } }",
 "class { static method m : void () { while (1) { last; } unless (0) { } elsif (1) { } for my $x (@{[1, 2]}) { } } }",
 "class { static method m : int () { switch (1) { case 1: { break; } case 'a': { } default: { } } return 0; } }",
 "class { static method m : string () { my $s = \"a$@b\"; my $o = new VP; return \"$s${s}\" . q'x' . $o->{f}; } }",
 "class { static method m : void () { my $a = new int[3][]; my $b = {a => 1}; $a->[0] = [1, 2]; my $l = @$a; } }",
 "class { static method m : void () { eval { die \"x\" if 1; }; if ($@) { warn \"a\"; print 1; say 2; } } }",
 "class { static method m : void () { my $f = method : int ($y : int) { return $y; }; my $z = [my $q = 1] method : void () { }; } }",
 "class { interface VP; static method m : object () { my $o = (object)1; return $o isa VP ? undef : $o; } }",
 "class { use VP; INIT { my $x = 1L; } static method m : long () { return 0x1FL + 07 - 0b1 << 2 >>> 1; } }",
 "class { native static method m : void (); precompile static method n : void () { &m(); VP->new; __CLASS__; } }",
 "class { static method m : int* ($x : int*) { my $i = 1; $$x = \\$i ? 1 : 2; $i += 1; return \\$i; } }",
 "class { static method m : void () { my $o = new VP; weaken $o->{f}; isweak $o->{g}; can $o \"f\"; copy $o; length \"a\"; } }",
 "class { #c\n=pod\n\n=cut\n static method m : void () { my $x = <<'E';\nab\nE\n } }",
 "class { static method m : double () { return -1.5e3 + .5f x 0x1p3 % ~1 ^ 2 | 3 & !4 && 5 || 6 <=> 7 eq 8; } }",
 "class { private our $V : string; protected has z : ro undef_t; static method m : mutable string () { return (mutable string)$V; } }",
};
enum { NT = sizeof T / sizeof *T };
static int ok_after; // compiles a fine class afterwards
static void compile(SPV* s, const char* src) { const char* nm = 0; int e = comp_anon(s, src, &nm); if (e) vp_reach("error"); else { vp_reach("accepted"); vp_assert(s->env->api->runtime->get_basic_type_by_name(s->rt, nm) != 0, "an accepted class is in the runtime"); } }
static void mutate(SPV* s, int k, int ins) { char src[300]; const char* t = T[k]; int n = strlen(t), st = vp_thorough() ? 1 : 7; int p = vp_choice((n + st - 1) / st, "position") * st + (st > 1 ? k % st : 0); if (p >= n) p = n - 1; uint8_t c; vp_symbolic(&c, 1, "byte"); memcpy(src, t, p); src[p] = c; strcpy(src + p + 1, t + p + !ins); compile(s, src); }
#define M(k) JOBV(rep##k) { mutate(s, k, 0); } JOBV(ins##k) { mutate(s, k, 1); } JOBV(cut##k) { char src[300]; int n = strlen(T[k]); int p = vp_choice(n + 1, "length"); memcpy(src, T[k], p); vp_symbolic(src + p, 1, "byte"); src[p + 1] = 0; compile(s, src); }
M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(18) M(19)
JOBV(raw1) { char src[4]; vp_symbolic(src, 1, "byte"); src[1] = 0; compile(s, src); } JOBV(raw2) { char src[4]; for (int i = 0; i < 2; i++) vp_symbolic(src + i, 1, "byte"); src[2] = 0; compile(s, src); } JOBV(raw3) { if (!vp_thorough()) return; char src[4]; for (int i = 0; i < 3; i++) vp_symbolic(src + i, 1, "byte"); src[3] = 0; compile(s, src); }

JOBV(file) { static char t[] = "class Ff { #\xc3\xa9\n static method m : string () { return \"\xe3\x81\x82\xf0\x9f\x98\x80$@\"; } }"; char src[200]; strcpy(src, t); int n = strlen(t); int p = vp_choice(n, "position"); int cut = vp_choice(2, "cut"); vp_symbolic(src + p, 1, "byte"); CAPI->add_class_file(s->compiler, "Ff"); void* f = CAPI->get_class_file(s->compiler, "Ff"); s->be->api->class_file->set_content(s->compiler, f, src); int len = 0; while (len < n && src[len]) len++; if (cut && p < len) len = p + 1; s->be->api->class_file->set_content_length(s->compiler, f, len); s->be->api->class_file->set_rel_file(s->compiler, f, "Ff.spvm"); int e = CAPI->compile(s->compiler, "Ff"); vp_assert((e != 0) == (CAPI->get_error_messages_length(s->compiler) > 0), "a failed compilation reports at least one error message and a successful one none"); if (e) vp_reach("error"); else { vp_reach("accepted"); vp_assert(s->env->api->runtime->get_basic_type_by_name(s->rt, "Ff") != 0, "an accepted class is in the runtime"); } }
// sizes of buffers that hold names and numbers
#include "spvm_compiler.h"
JOBV(anon_numbers) { static const int N[] = { 0, 9, 10, 99, 100, 12345, 99999999, 2147483640 }; ((SPVM_COMPILER*)s->compiler)->eval_anon_classes_length = N[vp_choice(8, "earlier anonymous classes")]; char c; vp_symbolic(&c, 1, "byte"); vp_assume((c == '}') | (c == ')') | (c == ';')); char src[80]; strcpy(src, "class { static method m : int () { return 1; } ?"); src[strlen(src) - 1] = c; for (int i = 0; i < 3; i++) compile(s, src); vp_reach("error"); }
static char big[9000];
static void fillname(char* p, int n, char c) { memset(p, c, n); p[n] = 0; }
JOBV(long_names) { static const int N[] = { 1, 40, 190, 230, 260, 1000 }; int n = N[vp_choice(6, "length")]; int k = vp_choice(9, "name"), good = vp_choice(2, "good"); char nm[1001]; fillname(nm, n, 'b'); const char* v = good ? "1" : "\"x\""; strcpy(big, "");
#define W(x) strcat(big, x)
  switch (k) { case 0: W("class { static method "); W(nm); W(" : int ($x : int) { return $x; } static method m : int () { return &"); W(nm); W("("); W(v); W("); } }"); break;
    case 1: W("class { static method m : int ($"); W(nm); W(" : int) { my $r : int = "); W(v); W("; return $"); W(nm); W(" + $r; } }"); break;
    case 2: W("class { has "); W(nm); W(" : rw int; method m : int () { $self->{"); W(nm); W("} = "); W(v); W("; return 1; } }"); break;
    case 3: W("class { our $V"); W(nm); W(" : rw int; static method m : int () { $V"); W(nm); W(" = "); W(v); W("; return 1; } }"); break;
    case 4: W("class { use VP; static method m : int () { return VP->"); W(nm); W("("); W(v); W("); } }"); break;
    case 5: W("class { use C"); W(nm); W("; static method m : int () { return 1; } }"); break;
    case 6: W("class { static method m : int () { my $h = <<'"); W(nm); W("';\na\n"); if (good) { W(nm); W("\n"); } W(" return 1; } }"); break;
    case 7: W("class { enum { E"); W(nm); W(" = "); W(v); W(" } static method m : int () { return &E"); W(nm); W("; } }"); break;
    case 8: W("class { alias VP as A"); W(nm); W("; use VP; static method m : int () { return A"); W(nm); W("->"); W(good ? "twice(1)" : "nothing(1)"); W("; } }"); break; }
  compile(s, big); vp_reach("error"); vp_reach("accepted"); }
JOBV(far) { static const char* LN[] = { "1", "99999", "2147483640" }; static const int COL[] = { 0, 90, 1100, 6000 }; strcpy(big, "class { static method m : object () {\n#line "); W(LN[vp_choice(3, "line")]); W("\n"); int c = COL[vp_choice(4, "column")]; char* p = big + strlen(big); memset(p, ' ', c); p[c] = 0; W("return method : int () { return 1; }; } }"); compile(s, big); vp_reach("error"); }
