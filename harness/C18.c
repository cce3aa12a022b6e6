/*vp {"pc":"","forkptr":1,"hang":20000000,"time":200,"replays":150,"bounds":["string literals of up to 4 free bytes (every byte that is allowed in a source text), each possibly starting an escape; every escape sequence: octal, hexadecimal and Unicode ones with every digit text up to one more than the longest accepted (Unicode: 6, or a fixed prefix and 3 free digits up to 8)","character literals of up to 4 free bytes and every escape","variable expansions of every documented form, with a free byte before and after, and free run-time values of up to 2 bytes","single-quoted literals of up to 4 free bytes, here documents of up to 5 free bytes","two literals of up to 3 free letters, possibly after a NUL given as an escape, in one class"]} */
#include "comp.h"
typedef struct { uint8_t b[64]; int n; int bad; } TXT;   // the bytes a literal denotes, or bad
static void put(TXT* t, int c) { t->b[t->n++] = (uint8_t)c; }
static int octd(uint8_t c) { return c >= '0' && c <= '7'; } static int hexd(uint8_t c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } static int hexv(uint8_t c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void utf8(TXT* t, uint32_t u) { if (u > 0x10ffff || (u >= 0xd800 && u <= 0xdfff)) { t->bad = 1; return; } if (u < 0x80) put(t, u); else if (u < 0x800) { put(t, 0xc0 | u >> 6); put(t, 0x80 | (u & 63)); } else if (u < 0x10000) { put(t, 0xe0 | u >> 12); put(t, 0x80 | (u >> 6 & 63)); put(t, 0x80 | (u & 63)); } else { put(t, 0xf0 | u >> 18); put(t, 0x80 | (u >> 12 & 63)); put(t, 0x80 | (u >> 6 & 63)); put(t, 0x80 | (u & 63)); } }
// an escape at s[i] (after the backslash), n bytes in all; returns the index after it
static int escape(TXT* t, const uint8_t* s, int i, int n, int str) { if (i >= n) { t->bad = 1; return n; } uint8_t c = s[i];
  switch (c) { case 'a': put(t, 7); return i + 1; case 't': put(t, 9); return i + 1; case 'n': put(t, 10); return i + 1; case 'f': put(t, 12); return i + 1; case 'r': put(t, 13); return i + 1; case '"': put(t, '"'); return i + 1; case '\'': put(t, '\''); return i + 1; case '\\': put(t, '\\'); return i + 1; }
  if (str && c == '$') { put(t, '$'); return i + 1; }
  if (octd(c) || c == 'o') { int br = c == 'o'; if (br) { i++; if (i >= n || s[i] != '{') { t->bad = 1; return i; } i++; } int k = 0, v = 0; while (i < n && k < 3 && octd(s[i])) { v = v * 8 + s[i] - '0'; i++; k++; } if (k == 0 || v > 255) { t->bad = 1; return i; } if (br) { if (i >= n || s[i] != '}') { t->bad = 1; return i; } i++; } put(t, v); return i; }
  if (c == 'x') { i++; int br = i < n && s[i] == '{'; i += br; int k = 0, v = 0; while (i < n && k < 2 && hexd(s[i])) { v = v * 16 + hexv(s[i]); i++; k++; } if (k == 0) { t->bad = 1; return i; } if (br) { if (i >= n || s[i] != '}') { t->bad = 1; return i; } i++; } put(t, v); return i; }
  if (str && c == 'N' && i + 1 < n && s[i + 1] == '{') { i += 2; if (i + 1 >= n || s[i] != 'U' || s[i + 1] != '+') { t->bad = 1; return i; } i += 2; int k = 0; uint32_t v = 0; while (i < n && hexd(s[i]) && k < 9) { v = v * 16 + hexv(s[i]); i++; k++; } if (k == 0 || k > 8 || i >= n || s[i] != '}') { t->bad = 1; return i; } utf8(t, v); return i + 1; }
  if (str && c < 128 && strchr("!#%&()*+,-./123456789:;<=>?@ABDGHKNPRSVWXZ[]^_`bdghkpsvwz{|}~", c) && c) { put(t, '\\'); put(t, c); return i + 1; }
  t->bad = 1; return i; }
static void dquoted(TXT* t, const uint8_t* s, int n) { t->n = t->bad = 0; for (int i = 0; i < n && !t->bad;) if (s[i] == '\\') i = escape(t, s, i + 1, n, 1); else put(t, s[i++]); }
static int build(SPV* s, const char* type, const uint8_t* lit, int n, const char* stmts, const char** nm) { char src[600]; strcpy(src, "class { static method m : "); strcat(src, type); strcat(src, " () { "); strcat(src, stmts); strcat(src, "return "); int p = strlen(src); memcpy(src + p, lit, n); src[p + n] = 0; strcat(src, "; } }"); return comp_anon(s, src, nm); }
static void isstr(SPV* s, void* o, const TXT* t) { vp_assert(o != 0 && ENV->length(ENV, ST, o) == t->n, "the literal has exactly the written bytes' length"); const char* c = ENV->get_chars(ENV, ST, o); int same = 1; for (int i = 0; i < t->n; i++) same &= (uint8_t)c[i] == t->b[i]; vp_assert(same, "the literal has exactly the written bytes"); vp_assert(c[t->n] == 0, "the string is terminated"); }
static void verdict(SPV* s, const uint8_t* lit, int n, TXT* t) { const char* nm; int e = build(s, "string", lit, n, "", &nm); vp_assert((e != 0) == (t->bad != 0), "a literal is accepted exactly when it is well-formed"); if (e) { vp_reach("rejected"); return; } OK(spv_call(s, comp_method(s, nm, "m"), 0)); isstr(s, ST[0].oval, t); vp_reach("accepted"); }
static void sym(uint8_t* p, int n) { for (int i = 0; i < n; i++) { vp_symbolic(p + i, 1, "byte"); vp_assume(((p[i] >= 32) & (p[i] < 127)) | (p[i] == 10) | (p[i] == 9) | (p[i] == 12)); } }
// "..." with free bytes
static void free_str(SPV* s, int n) { uint8_t lit[16]; TXT t; lit[0] = '"'; sym(lit + 1, n); int esc = 0; for (int i = 1; i <= n; i++) { if (esc) { esc = 0; continue; } vp_assume((lit[i] != '"') & (lit[i] != '$')); if (lit[i] == '\\') esc = 1; } vp_assume(!esc); lit[n + 1] = '"'; dquoted(&t, lit + 1, n); verdict(s, lit, n + 2, &t); }
JOBV(str1) { free_str(s, 1); vp_reach("rejected"); } JOBV(str2) { free_str(s, 2); } JOBV(str3) { free_str(s, 3); } JOBV(str4) { if (vp_thorough()) free_str(s, 4); }
JOBV(str0) { TXT t; t.n = t.bad = 0; verdict(s, (const uint8_t*)"\"\"", 2, &t); uint8_t l[] = "\"$\""; t.b[0] = '$'; t.n = 1; verdict(s, l, 3, &t); uint8_t m[5] = { '"', 0, '$', '"' }; sym(m + 1, 1); vp_assume((m[1] != '"') & (m[1] != '\\') & (m[1] != '$')); t.b[0] = m[1]; t.b[1] = '$'; t.n = 2; verdict(s, m, 4, &t); }
// escapes by template: prefix, free characters of a class, suffix
static void esc(SPV* s, const char* pre, int n, const char* set, const char* suf) { uint8_t lit[40]; int k = 0, m = strlen(set); lit[k++] = '"'; int lead = vp_choice(2, "leading text"); if (lead) lit[k++] = 'q'; for (; *pre; pre++) lit[k++] = *pre; for (int i = 0; i < n; i++) { vp_symbolic(lit + k, 1, "character"); int in = 0; for (int q = 0; q < m; q++) in |= lit[k] == (uint8_t)set[q]; vp_assume(in); k++; } for (; *suf; suf++) lit[k++] = *suf; lit[k++] = '"'; TXT t; dquoted(&t, lit + 1, k - 2); verdict(s, lit, k, &t); }
JOBV(oct) { esc(s, "\\", 1 + vp_choice(4, "digits"), "01234567", ""); vp_reach("rejected"); } JOBV(oct_tail) { esc(s, "\\", 3, "03478", "9"); } JOBV(octb) { esc(s, "\\o{", vp_choice(5, "digits"), "01234567", "}"); } JOBV(octb_open) { esc(s, "\\o", 3, "{}18", ""); } JOBV(octb_text) { esc(s, "\\o{", 2, "034}89a", "7}"); }
JOBV(hex) { esc(s, "\\x", vp_choice(3, "digits"), "0189afAFgG", "5"); } JOBV(hexb) { esc(s, "\\x{", vp_choice(4, "digits"), "0189afAFgG", "}"); } JOBV(hexb_open) { esc(s, "\\x", 3, "{}1fG", ""); }
JOBV(uni) { esc(s, "\\N{U+", vp_choice(6, "digits"), "0789cdDfF", "}"); } JOBV(uni6) { esc(s, "\\N{U+", 6, "01d", "}"); } JOBV(uni_any) { esc(s, "\\N{U+", 2, "0123456789abcdefABCDEFgG}", "}"); } JOBV(uni_d) { esc(s, "\\N{U+D", 3, "0123456789abcdefABCDEF", "}"); } JOBV(uni_10) { esc(s, "\\N{U+1", 5, "0F1", "}"); } JOBV(uni_p) { static const char* P[] = { "\\N{U+1", "\\N{U+00", "\\N{U+0000", "\\N{U+001", "\\N{U+FFFFF", "\\N{U+10FF", "\\N{U+8000", "\\N{U+F", "\\N{U+10", "\\N{U+FFFF0", "\\N{U+10000" }; esc(s, P[vp_choice(11, "prefix")], 3, "0123456789abcdefABCDEF", "}"); } JOBV(uni_open) { esc(s, "\\N", 3, "{U+}a1", "1}"); } JOBV(uni_tail) { esc(s, "\\N{U+e", 2, "0}a", "1"); }
JOBV(unfinished) { uint8_t lit[8]; int n = vp_choice(vp_thorough() ? 4 : 3, "length"), q = vp_choice(3, "quote"); int k = 0; static const char* Q[] = { "\"", "'", "q'" }; for (const char* c = Q[q]; *c; c++) lit[k++] = *c; sym(lit + k, n); for (int i = 0; i < n; i++) vp_assume((lit[k + i] != (q ? '\'' : '"')) & (lit[k + i] != '$')); k += n; char src[100]; strcpy(src, "class { static method m : void () { my $x = "); int p = strlen(src); memcpy(src + p, lit, k); src[p + k] = 0; const char* nm; int e = comp_anon(s, src, &nm); vp_assert(e != 0, "an unfinished literal is a compile error"); vp_reach("error"); }
// character literals
static void chr(SPV* s, const uint8_t* c, int n) { uint8_t lit[20]; lit[0] = '\''; memcpy(lit + 1, c, n); lit[n + 1] = '\''; TXT t; t.n = t.bad = 0; if (n == 0) t.bad = 1; else if (c[0] == '\\') { int i = escape(&t, c, 1, n, 0); if (!t.bad && i != n) t.bad = 1; } else { put(&t, c[0]); if (n != 1) t.bad = 1; }
  const char* nm; int e = build(s, "byte", lit, n + 2, "", &nm); vp_assert((e != 0) == (t.bad != 0), "a character literal is accepted exactly when it is well-formed"); if (e) { vp_reach("rejected"); return; } OK(spv_call(s, comp_method(s, nm, "m"), 0)); vp_assert((uint8_t)get_byte() == t.b[0], "the character literal is the written byte"); vp_reach("accepted"); }
static void chars(SPV* s, int n, int bs) { uint8_t c[8]; sym(c, n); int k = 0; if (bs) { vp_assume(c[0] == '\\'); k = 2; } for (int i = 0; i < n; i++) vp_assume((c[i] >= 32) & (c[i] < 127)); for (int i = k; i < n; i++) vp_assume(c[i] != '\''); if (!bs) vp_assume(c[0] != '\\'); chr(s, c, n); }
JOBV(chr1) { chars(s, 1, 0); vp_reach("rejected"); } JOBV(chr2) { chars(s, 2, 0); vp_reach("accepted"); } JOBV(chr_esc2) { chars(s, 2, 1); } JOBV(chr_esc3) { chars(s, 3, 1); } JOBV(chr0) { uint8_t c[1]; chr(s, c, 0); vp_reach("accepted"); } JOBV(chr_oct) { uint8_t c[8]; c[0] = '\\'; int n = 1 + vp_choice(4, "digits"); for (int i = 0; i < n; i++) { vp_symbolic(c + 1 + i, 1, "digit"); vp_assume(octd(c[1 + i])); } chr(s, c, n + 1); } JOBV(chr_octb) { uint8_t c[10] = "\\o{"; int n = vp_choice(4, "digits"); for (int i = 0; i < n; i++) { vp_symbolic(c + 3 + i, 1, "digit"); vp_assume((c[3 + i] >= '0') & (c[3 + i] <= '8')); } c[3 + n] = '}'; chr(s, c, n + 4); } JOBV(chr_hex) { uint8_t c[10] = "\\x{"; int br = vp_choice(2, "brace"), n = vp_choice(4, "digits"), k = 2 + br; for (int i = 0; i < n; i++) { vp_symbolic(c + k, 1, "digit"); vp_assume((c[k] >= '0' && c[k] <= '9') || (c[k] >= 'a' && c[k] <= 'g') || (c[k] >= 'A' && c[k] <= 'G')); k++; } if (br) c[k++] = '}'; chr(s, c, k); }
// single-quoted literals
static void single(SPV* s, int n) { uint8_t lit[16]; lit[0] = 'q'; lit[1] = '\''; sym(lit + 2, n); int e = 0; TXT t; t.n = t.bad = 0; for (int i = 2; i < n + 2; i++) { if (e) { e = 0; if (lit[i] == '\\' || lit[i] == '\'') put(&t, lit[i]); else t.bad = 1; continue; } vp_assume(lit[i] != '\''); if (lit[i] == '\\') e = 1; else put(&t, lit[i]); } vp_assume(!e); lit[n + 2] = '\''; verdict(s, lit, n + 3, &t); }
JOBV(single0) { single(s, 0); vp_reach("rejected"); } JOBV(single1) { single(s, 1); vp_reach("rejected"); } JOBV(single2) { single(s, 2); } JOBV(single4) { single(s, 4); }
// here documents
static void heredoc(SPV* s, int n, const char* name) { char src[300]; TXT t; t.n = t.bad = 0; strcpy(src, "class { static method m : string () { my $x = <<'"); strcat(src, name); strcat(src, "';\n"); int p = strlen(src), l = strlen(name); uint8_t c[16]; sym(c, n); memcpy(src + p, c, n); src[p + n] = 0; strcat(src, "\n"); strcat(src, name); strcat(src, "\n return $x; } }");
  for (int i = 0; i + l < n; i++) { int m = (i == 0 || c[i - 1] == '\n') && c[i + l] == '\n'; for (int j = 0; j < l; j++) m = m && c[i + j] == (uint8_t)name[j]; vp_assume(!m); } { int i = n - l; if (i >= 0) { int m = i == 0 || c[i - 1] == '\n'; for (int j = 0; j < l; j++) m = m && c[i + j] == (uint8_t)name[j]; vp_assume(!m); } }
  for (int i = 0; i < n; i++) put(&t, c[i]); put(&t, '\n'); const char* nm; int e = comp_anon(s, src, &nm); vp_assert(e == 0, "the here document is accepted"); OK(spv_call(s, comp_method(s, nm, "m"), 0)); isstr(s, ST[0].oval, &t); vp_reach("here document"); }
JOBV(here0) { heredoc(s, 0, "E"); } JOBV(here3) { heredoc(s, 3, "E"); } JOBV(here5) { heredoc(s, 5, "EO"); } JOBV(here_empty) { TXT t; t.n = t.bad = 0; const char* nm; int e = comp_anon(s, "class { static method m : string () { my $x = <<'E';\nE\n return $x; } }", &nm); vp_assert(e == 0, "the empty here document is accepted"); OK(spv_call(s, comp_method(s, nm, "m"), 0)); isstr(s, ST[0].oval, &t); vp_reach("empty"); }
// variable expansion: the variable forms against their value, with text around them
static const struct { const char* text; int kind; } VE[] = { { "$x", 0 }, { "${x}", 1 }, { "$$r", 0 }, { "$o->{f}", 2 }, { "$a->[1]", 2 }, { "$b->{g}[1]", 2 }, { "$b->{g}->[1]", 2 }, { "$@", 3 }, { "$CV", 0 }, { "${CV}", 1 }, { "$VP::CV", 0 }, { "$x_y", 0 }, { "${@}", 1 } };
static int is_name(uint8_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static void expand(SPV* s, int v, int nlit) { uint8_t lit[60]; int k = 0; lit[k++] = '"'; uint8_t b = 0, c[3]; if (nlit & 1) { sym(&b, 1); vp_assume((b != '\\') & (b != '"') & (b != '$')); lit[k++] = b; } for (const char* q = VE[v].text; *q; q++) lit[k++] = *q; int nc = nlit >> 1; sym(c, nc); for (int i = 0; i < nc; i++) vp_assume((c[i] != '\\') & (c[i] != '"') & (c[i] != '$'));
  if (nc && VE[v].kind != 1 && VE[v].kind != 3) { vp_assume(!is_name(c[0]) || VE[v].kind == 2); if (nc > 1) { vp_assume(!(c[0] == ':' && c[1] == ':')); vp_assume(!(c[0] == '-' && c[1] == '>')); } if (VE[v].kind == 2) vp_assume((c[0] != '[') & (c[0] != '{')); }
  for (int i = 0; i < nc; i++) lit[k++] = c[i]; lit[k++] = '"'; char val[3]; int vn = 1 + vp_choice(2, "length of the value"); for (int i = 0; i < vn; i++) vp_symbolic(val + i, 1, "value");
  char st[300]; strcpy(st, "my $x = $p; my $x_y = $p; my $r_s = $p; my $o = new VP; $o->{f} = $p; my $a = [\"A\", $p]; my $b = new VP; $b->{g} = $a; $CV = $p; my $n_ : int = 1; eval { die $p; }; "); char src[900]; strcpy(src, "class : public { use VP; our $CV : string; static method m : string ($p : string) { my $x = $p; my $x_y = $p; my $o = new VP; $o->{f} = $p; my $a = [\"A\", $p]; my $b = new VP; $b->{g} = $a; $CV = $p; $VP::CV = $p; $@ = $p; return ");
  int p = strlen(src); memcpy(src + p, lit, k); src[p + k] = 0; strcat(src, "; } }"); const char* nm; int e = comp_anon(s, src, &nm); vp_assert(e == 0, "the variable expansion is accepted");
  void* o = ENV->new_string(ENV, ST, val, vn); ST[0].oval = o; OK(spv_call(s, comp_method(s, nm, "m"), 1)); TXT t; t.n = t.bad = 0; if (nlit & 1) put(&t, b); for (int i = 0; i < vn; i++) put(&t, val[i]); for (int i = 0; i < nc; i++) put(&t, c[i]); isstr(s, ST[0].oval, &t); vp_reach("expanded"); }
#define X(nm, v) JOBV(exp_##nm) { expand(s, v, vp_choice(vp_thorough() ? 6 : 4, "text around")); }
X(var, 0) X(brace, 1) X(field, 3) X(elem, 4) X(chain, 5) X(chain2, 6) X(exc, 7) X(cv, 8) X(cvb, 9) X(cvq, 10) X(under, 11) X(excb, 12)
JOBV(exp_var2) { expand(s, 0, 4); } JOBV(exp_elem2) { expand(s, 4, 4); }
JOBV(exp_two) { uint8_t m; sym(&m, 1); vp_assume((m != '\\') & (m != '"') & (m != '$') & !is_name(m)); char src[300]; strcpy(src, "class { static method m : string ($x : string, $y : string) { return \"$x?${y}$x\"; } }"); *strchr(src, '?') = m; const char* nm; int e = comp_anon(s, src, &nm); vp_assert(e == 0, "two expansions are accepted"); char a[2]; vp_symbolic(a, 2, "values"); void* x = ENV->new_string(ENV, ST, a, 1); void* y = ENV->new_string(ENV, ST, a + 1, 1); ST[0].oval = x; ST[1].oval = y; OK(spv_call(s, comp_method(s, nm, "m"), 2)); TXT t; t.n = t.bad = 0; put(&t, a[0]); put(&t, m); put(&t, a[1]); put(&t, a[0]); isstr(s, ST[0].oval, &t); vp_reach("expanded"); }
JOBV(exp_ref) { char a; vp_symbolic(&a, 1, "value"); const char* nm; int e = comp_anon(s, "class { static method m : string ($v : byte) { my $i = (int)$v; my $r = \\$i; return \"<$$r>\"; } }", &nm); vp_assert(e == 0, "the dereference is accepted"); ST[0].bval = a; OK(spv_call(s, comp_method(s, nm, "m"), 1)); TXT t; t.n = t.bad = 0; put(&t, '<'); int v = a; char d[8]; int k = 0; int u = v < 0 ? -v : v; do { d[k++] = '0' + u % 10; u /= 10; } while (u); if (v < 0) put(&t, '-'); while (k) put(&t, d[--k]); put(&t, '>'); isstr(s, ST[0].oval, &t); vp_reach("expanded"); }
// two literals in one class do not get mixed up
JOBV(two) { uint8_t a[8], b[8]; int n = 1 + vp_choice(3, "length of a"), m = 1 + vp_choice(3, "length of b"); char src[300]; strcpy(src, "class { static method a : string () { return \""); TXT ta, tb; ta.n = tb.n = ta.bad = tb.bad = 0; int za = vp_choice(2, "NUL in a"), zb = vp_choice(2, "NUL in b"); sym(a, n); sym(b, m); for (int i = 0; i < n; i++) vp_assume((a[i] >= 'a') & (a[i] <= 'z')); for (int i = 0; i < m; i++) vp_assume((b[i] >= 'a') & (b[i] <= 'z'));
  if (za) { put(&ta, 0); strcat(src, "\\x00"); } int p = strlen(src); memcpy(src + p, a, n); src[p + n] = 0; for (int i = 0; i < n; i++) put(&ta, a[i]); strcat(src, "\"; } static method b : string () { return \""); if (zb) { put(&tb, 0); strcat(src, "\\x00"); } p = strlen(src); memcpy(src + p, b, m); src[p + m] = 0; for (int i = 0; i < m; i++) put(&tb, b[i]); strcat(src, "\"; } }");
  const char* nm; int e = comp_anon(s, src, &nm); vp_assert(e == 0, "two literals are accepted"); OK(spv_call(s, comp_method(s, nm, "a"), 0)); isstr(s, ST[0].oval, &ta); OK(spv_call(s, comp_method(s, nm, "b"), 0)); isstr(s, ST[0].oval, &tb); vp_reach("two"); }
