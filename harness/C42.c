/*vp {"pc":"","time":200,"replays":60,"bounds":["every pair of the 18 binary integer operators and the two logical operators, between three int operands of every value (division and shift operands limited to the defined ones, and all three operands to 8 bits where one of the operators multiplies or divides), with no spaces, one space and a line break around the operators","every unary operator and cast before every binary operator, and every binary operator directly before and after a literal of one free digit (a minus sign directly before a digit may belong to the literal)","string concatenation and string comparisons against each other; chains of assignment and special assignment"]} */
#define EXTRA_SETUP setup();
static void setup(void);
#include "comp.h"
enum { OR, AND, BOR, XOR, BAND, EQ, NE, LT, GT, LE, GE, CMP, SHL, SAR, SHR, ADD, SUB, MUL, DIV, MOD, NOP };
static const struct { const char* t; int p; int non; } O[NOP] = { { "||", 1, 0 }, { "&&", 2, 0 }, { "|", 3, 0 }, { "^", 3, 0 }, { "&", 4, 0 }, { "==", 5, 1 }, { "!=", 5, 1 }, { "<", 6, 1 }, { ">", 6, 1 }, { "<=", 6, 1 }, { ">=", 6, 1 }, { "<=>", 6, 1 }, { "<<", 7, 0 }, { ">>", 7, 0 }, { ">>>", 7, 0 }, { "+", 8, 0 }, { "-", 8, 0 }, { "*", 9, 0 }, { "/", 9, 0 }, { "%", 9, 0 } };
static const char* SPC[] = { "", " ", "\n" };
static int32_t ev(int op, int32_t x, int32_t y) { if (op == DIV || op == MOD) { vp_assume((y != 0) & !((x == INT32_MIN) & (y == -1))); int32_t r = op == DIV ? x / y : x % y; return op == MOD && r && (r < 0) != (y < 0) ? r + y : r; } if (op >= SHL && op <= SHR) { vp_assume((y >= 0) & (y < 32)); return op == SHL ? (int32_t)((uint32_t)x << y) : op == SAR ? x >> y : (int32_t)((uint32_t)x >> y); }
  switch (op) { case OR: return (x != 0) | (y != 0); case AND: return (x != 0) & (y != 0); case BOR: return x | y; case XOR: return x ^ y; case BAND: return x & y; case EQ: return x == y; case NE: return x != y; case LT: return x < y; case GT: return x > y; case LE: return x <= y; case GE: return x >= y; case CMP: return (x > y) - (x < y); case ADD: return (int32_t)((uint32_t)x + (uint32_t)y); case SUB: return (int32_t)((uint32_t)x - (uint32_t)y); default: return (int32_t)((uint32_t)x * (uint32_t)y); } }
// the sources are compiled when the program starts; the values are free
typedef struct { void* m; int err; } C; static char src[4000];
static C comp(const char* args, const char* body) { C c; c.m = 0; strcpy(src, "class { static method m : int ("); strcat(src, args); strcat(src, ") { "); strcat(src, body); strcat(src, " } }"); const char* nm; c.err = SV.be->api->compiler->compile_anon_class(SV.compiler, src, &nm); if (!c.err) c.m = spv_find(&SV, nm, "m"); return c; }
static C pairs[3][NOP][NOP]; static void cat3(char* d, const char* a, const char* sp, const char* o, const char* b) { strcat(d, a); strcat(d, sp); strcat(d, o); strcat(d, sp); strcat(d, b); }
static int logic(int a) { return a == OR || a == AND; }
static const char* UN[] = { "-", "+", "~", "!", "- -", "-~", "(byte)", "(int)(short)", "!!" }; enum { NUN = 9 };
static C un[NUN][NOP], lit[4][NOP][2]; static const char* D10[] = { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" }; static C dig[10][NOP][2];
static C strs[3][8]; static C asg[8];
static void setup(void) { char b[400];
  for (int s = 0; s < 3; s++) for (int i = 0; i < NOP; i++) for (int j = 0; j < NOP; j++) { b[0] = 0; int lg = logic(i) || logic(j); strcat(b, lg ? "if (" : "my $r = "); cat3(b, "$a", SPC[s], O[i].t, ""); strcat(b, "$b"); cat3(b, "", SPC[s], O[j].t, "$c"); strcat(b, lg ? ") { return 1; } return 0;" : "; return $r;"); pairs[s][i][j] = comp("$a : int, $b : int, $c : int", b); }
  for (int u = 0; u < NUN; u++) for (int j = 0; j < NOP; j++) { b[0] = 0; strcat(b, logic(j) ? "if (" : "my $r = "); strcat(b, UN[u]); cat3(b, "$a", "", O[j].t, "$b"); strcat(b, logic(j) ? ") { return 1; } return 0;" : "; return $r;"); un[u][j] = comp("$a : int, $b : int", b); }
  for (int d = 0; d < 10; d++) for (int j = 0; j < NOP; j++) for (int l = 0; l < 2; l++) { b[0] = 0; strcat(b, logic(j) ? "if (" : "my $r = "); cat3(b, l ? D10[d] : "$a", "", O[j].t, l ? "$a" : D10[d]); strcat(b, logic(j) ? ") { return 1; } return 0;" : "; return $r;"); dig[d][j][l] = comp("$a : int", b); }
  for (int s = 0; s < 3; s++) { static const char* SO[] = { "eq", "ne", "lt", "gt", "le", "ge", "cmp" }; for (int k = 0; k < 7; k++) { b[0] = 0; strcat(b, "my $r = $a"); strcat(b, SPC[s]); strcat(b, "."); strcat(b, SPC[s]); strcat(b, "$b "); strcat(b, SO[k]); strcat(b, s == 2 ? "\n$c" : " $c"); strcat(b, SPC[s]); strcat(b, "."); strcat(b, SPC[s]); strcat(b, "$a; return $r;"); strs[s][k] = comp("$a : string, $b : string, $c : string", b); } }
  static const char* A[] = { "my $x=$b;$a=$x=$c;return $a-$x;", "$a+=$b+=$c;return $a;", "$a-=$b*=$c;return $a;", "my $x=$a++ + ++$b;return $x*$a-$b;", "my $x=$a+++$b;return $x-$a;", "my $x=-$a--- -$b;return $x+$a;", "$a<<=$b&=3;return $a;", "my $x=[$a,$b,$c];return $x->[0]-$x->[1]*@$x+-$x->[2];" }; for (int k = 0; k < 8; k++) asg[k] = comp("$a : int, $b : int, $c : int", A[k]); }
static int32_t small(const char* n) { return (int8_t)sym_byte(n); }
#define IN(n) (((i >= MUL) | (j >= MUL)) ? small(n) : sym_int(n))
JOBV(pairs) { int p = vp_choice(3, "spaces"), i = vp_choice(NOP, "first operator"), j = vp_choice(NOP, "second operator"); C* c = &pairs[p][i][j]; if (O[i].p == O[j].p && O[i].non) { vp_assert(c->err, "operators without associativity cannot be chained"); vp_reach("rejected"); return; } vp_assert(!c->err, "the expression is accepted whatever spaces are used"); int32_t a = IN("a"), b = IN("b"), d = IN("c"); 
  int32_t w; if (O[j].p > O[i].p) { if (i == OR) { if (a) { ST[0].ival = a; w = 1; goto run; } } if (i == AND) { if (!a) { w = 0; goto run; } } w = ev(i, a, ev(j, b, d)); } else { int32_t x = ev(i, a, b); if ((j == OR && x) || (j == AND && !x)) { w = j == OR; goto run; } w = ev(j, x, d); }
  run: if (logic(i) || logic(j)) w = w != 0; ST[0].ival = a; ST[1].ival = b; ST[2].ival = d; OK(spv_call(s, c->m, 3)); vp_assert(get_int() == w, "the operands are grouped by the documented precedence and associativity"); vp_reach("value"); }
static int32_t uev(int u, int32_t a) { switch (u) { case 0: return (int32_t)-(uint32_t)a; case 1: return a; case 2: return ~a; case 3: return !a; case 4: return a; case 5: return (int32_t)-(uint32_t)~a; case 6: return (int8_t)a; case 7: return (int16_t)a; default: return !!a; } }
JOBV(unary) { int u = vp_choice(NUN, "unary"), j = vp_choice(NOP, "operator"); C* c = &un[u][j]; vp_assert(!c->err, "the expression is accepted"); int i = 0; int32_t a = IN("a"), b = IN("b"), w, x = uev(u, a); if (j == OR || j == AND) w = j == OR ? (x != 0) | (b != 0) : (x != 0) & (b != 0); else w = ev(j, x, b); ST[0].ival = a; ST[1].ival = b; OK(spv_call(s, c->m, 2)); vp_assert(get_int() == w, "a unary operator binds to its operand"); vp_reach("value"); }
JOBV(literal) { int d = vp_choice(10, "digit"), j = vp_choice(NOP, "operator"), l = vp_choice(2, "side"); C* c = &dig[d][j][l]; if (j == SUB && !l && c->err) { vp_reach("-1"); return; } vp_assert(!c->err, "an operator directly next to a literal is accepted"); int i = 0; int32_t a = IN("a"), w = l ? ev(j, d, a) : ev(j, a, d); ST[0].ival = a; OK(spv_call(s, c->m, 1)); vp_assert(get_int() == w, "the operator's operands are the written ones"); vp_reach("value"); }
JOBV(strings) { int p = vp_choice(3, "spaces"), k = vp_choice(7, "operator"); C* c = &strs[p][k]; vp_assert(!c->err, "the expression is accepted"); char t[3][2]; int n[3]; for (int i = 0; i < 3; i++) { n[i] = vp_choice(2, "length"); if (n[i]) vp_symbolic(t[i], 1, "text"); ST[i].oval = 0; } void* o[3]; for (int i = 0; i < 3; i++) o[i] = spv_str(s, t[i], n[i]); uint8_t x[4], y[4]; int nx = 0, ny = 0; if (n[0]) x[nx++] = t[0][0]; if (n[1]) x[nx++] = t[1][0]; if (n[2]) y[ny++] = t[2][0]; if (n[0]) y[ny++] = t[0][0]; int cmp = 0; for (int i = 2; i-- > 0;) { int d = i < nx && i < ny ? (x[i] > y[i]) - (x[i] < y[i]) : i < nx ? 1 : i < ny ? -1 : 0; cmp = d ? d : cmp; } for (int i = 0; i < 3; i++) ST[i].oval = o[i]; OK(spv_call(s, c->m, 3)); int w = k == 0 ? cmp == 0 : k == 1 ? cmp != 0 : k == 2 ? cmp < 0 : k == 3 ? cmp > 0 : k == 4 ? cmp <= 0 : k == 5 ? cmp >= 0 : cmp; vp_assert(get_int() == w, "concatenation binds stronger than comparison"); vp_reach("value"); }
JOBV(assign) { int k = vp_choice(8, "statement"); C* c = &asg[k]; vp_assert(!c->err, "the statement is accepted"); uint32_t a = sym_int("a"), b = sym_int("b"), d = sym_int("c"), w = 0; if (k == 6) vp_assume(1); switch (k) { case 0: w = 0; break; case 1: w = a + (b + d); break; case 2: w = a - b * d; break; case 3: w = (a + (b + 1)) * (a + 1) - (b + 1); break; case 4: w = a + b - (a + 1); break; case 5: w = -a - -b + (a - 1); break; case 6: w = a << (b & 3); break; case 7: w = a - b * 3 + -d; break; } ST[0].ival = a; ST[1].ival = b; ST[2].ival = d; OK(spv_call(s, c->m, 3)); vp_assert((uint32_t)get_int() == w, "assignments associate to the right and increments bind to their variable"); vp_reach("value"); }
