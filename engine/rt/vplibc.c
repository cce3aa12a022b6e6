// Bitcode models of C library functions, interpreted when an argument is symbolic.
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
typedef unsigned char u8;
double vp_uf_str(int kind, const char* p, size_t n); int vp_fmt_double(char* b, size_t n, const char* f, double d); int vp_fmt_int(char* b, const char* f, uint64_t v);
size_t vpl_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t vpl_strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
// one branch for "all equal"; otherwise the order is a branch-free value that is never 0
int vpl_memcmp(const void* a, const void* b, size_t n) { const u8 *x = a, *y = b; int eq = 1; for (size_t i = 0; i < n; i++) eq &= x[i] == y[i]; if (eq) return 0; int r = 1; for (size_t i = n; i-- > 0;) { int s = x[i] < y[i] ? -1 : 1; r = x[i] == y[i] ? r : s; } return r; }
int vpl_bcmp(const void* a, const void* b, size_t n) { return vpl_memcmp(a, b, n); }
void* vpl_memchr(const void* a, int c, size_t n) { const u8* x = a; for (size_t i = 0; i < n; i++) if (x[i] == (u8)c) return (void*)(x + i); return 0; }
void* vpl_memrchr(const void* a, int c, size_t n) { const u8* x = a; for (size_t i = n; i-- > 0;) if (x[i] == (u8)c) return (void*)(x + i); return 0; }
int vpl_strcmp(const char* a, const char* b) { for (size_t i = 0;; i++) { u8 x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int vpl_strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { u8 x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* vpl_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* vpl_strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* vpl_strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; for (; n[i]; i++) { if (h[i] != n[i]) break; } if (!n[i]) return (char*)h; if (!*h) return 0; } }
void* vpl_memmem(const void* h, size_t hl, const void* n, size_t nl) { const char* p = h; if (nl > hl) return 0; for (size_t i = 0; i + nl <= hl; i++) if (vpl_memcmp(p + i, n, nl) == 0) return (void*)(p + i); return 0; }
char* vpl_strcpy(char* d, const char* s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d; } }
char* vpl_stpcpy(char* d, const char* s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d + i; } }
char* vpl_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* vpl_strcat(char* d, const char* s) { vpl_strcpy(d + vpl_strlen(d), s); return d; }
char* vpl_strncat(char* d, const char* s, size_t n) { char* e = d + vpl_strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
static int inset(const char* s, char c) { for (; *s; s++) if (*s == c) return 1; return 0; }
size_t vpl_strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && inset(a, s[n])) n++; return n; }
size_t vpl_strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !inset(a, s[n])) n++; return n; }
char* vpl_strpbrk(const char* s, const char* a) { for (; *s; s++) if (inset(a, *s)) return (char*)s; return 0; }
// ctype, C locale, argument in unsigned char range or EOF; branch-free results
int vpl_isdigit(int c) { return (unsigned)c - '0' < 10; }
int vpl_isupper(int c) { return (unsigned)c - 'A' < 26; }
int vpl_islower(int c) { return (unsigned)c - 'a' < 26; }
int vpl_isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int vpl_isalnum(int c) { return vpl_isalpha(c) | vpl_isdigit(c); }
int vpl_isxdigit(int c) { return vpl_isdigit(c) | ((((unsigned)c | 32) - 'a') < 6); }
int vpl_isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5); }
int vpl_isblank(int c) { return (c == ' ') | (c == '\t'); }
int vpl_isprint(int c) { return (unsigned)c - 32 < 95; }
int vpl_isgraph(int c) { return (unsigned)c - 33 < 94; }
int vpl_iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int vpl_ispunct(int c) { return vpl_isgraph(c) & !vpl_isalnum(c); }
int vpl_tolower(int c) { return vpl_isupper(c) ? c | 32 : c; }
int vpl_toupper(int c) { return vpl_islower(c) ? c & ~32 : c; }
int vpl_strcasecmp(const char* a, const char* b) { for (size_t i = 0;; i++) { int x = vpl_tolower((u8)a[i]), y = vpl_tolower((u8)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int* __errno_location(void);
static uint64_t strtoull_core(const char* s, char** end, int base, int is_signed, int* range, int* neg) {
  const char* p = s; while (vpl_isspace((u8)*p)) p++; *neg = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vpl_isxdigit((u8)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  uint64_t v = 0; int any = 0; *range = 0;
  uint64_t lim = is_signed ? (*neg ? 1ULL << 63 : (1ULL << 63) - 1) : ~0ULL;
  for (;; p++) { u8 c = *p; unsigned d; if (vpl_isdigit(c)) d = c - '0'; else if (vpl_isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= (unsigned)base) break; any = 1;
    if (!*range) { if (v > lim / base || v * base > lim - d) { *range = 1; } else v = v * base + d; } }
  if (*range) v = lim; if (end) *end = (char*)(any ? p : s); if (*range) *__errno_location() = 34; return any ? v : 0; }
long long vpl_strtoll(const char* s, char** e, int b) { int r, n; uint64_t v = strtoull_core(s, e, b, 1, &r, &n); return n ? -v : v; }
long vpl_strtol(const char* s, char** e, int b) { return vpl_strtoll(s, e, b); }
unsigned long long vpl_strtoull(const char* s, char** e, int b) { int r, n; uint64_t v = strtoull_core(s, e, b, 0, &r, &n); return n && !r ? -v : v; }
unsigned long vpl_strtoul(const char* s, char** e, int b) { return vpl_strtoull(s, e, b); }
long long vpl___isoc23_strtoll(const char* s, char** e, int b) { return vpl_strtoll(s, e, b); }
long vpl___isoc23_strtol(const char* s, char** e, int b) { return vpl_strtoll(s, e, b); }
unsigned long long vpl___isoc23_strtoull(const char* s, char** e, int b) { return vpl_strtoull(s, e, b); }
unsigned long vpl___isoc23_strtoul(const char* s, char** e, int b) { return vpl_strtoull(s, e, b); }
int vpl_atoi(const char* s) { return (int)vpl_strtoll(s, 0, 10); }
long vpl_atol(const char* s) { return vpl_strtoll(s, 0, 10); }
// the extent of a floating literal is computed here; its value is an uninterpreted function of its bytes
static size_t flt_extent(const char* s, const char** start) {
  const char* p = s; while (vpl_isspace((u8)*p)) p++; *start = p; const char* b = p; if (*p == '-' || *p == '+') p++;
  if (vpl_tolower((u8)p[0]) == 'i' && vpl_tolower((u8)p[1]) == 'n' && vpl_tolower((u8)p[2]) == 'f') { p += 3; const char* t = "inity"; int i = 0; while (t[i] && vpl_tolower((u8)p[i]) == t[i]) i++; if (!t[i]) p += 5; return p - b; }
  if (vpl_tolower((u8)p[0]) == 'n' && vpl_tolower((u8)p[1]) == 'a' && vpl_tolower((u8)p[2]) == 'n') { p += 3; if (*p == '(') { const char* q = p + 1; while (vpl_isalnum((u8)*q) || *q == '_') q++; if (*q == ')') p = q + 1; } return p - b; }
  int hex = 0; if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && (vpl_isxdigit((u8)p[2]) || (p[2] == '.' && vpl_isxdigit((u8)p[3])))) { hex = 1; p += 2; }
  int any = 0; while (hex ? vpl_isxdigit((u8)*p) : vpl_isdigit((u8)*p)) { p++; any = 1; }
  if (*p == '.') { const char* q = p + 1; int d = 0; while (hex ? vpl_isxdigit((u8)*q) : vpl_isdigit((u8)*q)) { q++; d = 1; } if (any || d) { p = q; any |= d; } }
  if (!any) return 0;
  if (hex ? (*p == 'p' || *p == 'P') : (*p == 'e' || *p == 'E')) { const char* q = p + 1; if (*q == '+' || *q == '-') q++; if (vpl_isdigit((u8)*q)) { while (vpl_isdigit((u8)*q)) q++; p = q; } }
  return p - b; }
double vpl_strtod(const char* s, char** e) { const char* b; size_t n = flt_extent(s, &b); if (e) *e = (char*)(n ? b + n : s); return n ? vp_uf_str(0, b, n) : 0; }
float vpl_strtof(const char* s, char** e) { const char* b; size_t n = flt_extent(s, &b); if (e) *e = (char*)(n ? b + n : s); return n ? (float)vp_uf_str(1, b, n) : 0; }
double vpl_atof(const char* s) { return vpl_strtod(s, 0); }
void vpl_qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { char* a = base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = a[j * sz + k]; a[j * sz + k] = t; } }
// printf family
struct out { char* b; size_t cap, n; };
static void put(struct out* o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void pad(struct out* o, char c, int n) { while (n-- > 0) put(o, c); }
static void num(struct out* o, uint64_t v, unsigned base, int upper, int neg, int plus, int space, int alt, int zero, int left, int width, int prec) {
  char t[72]; int n = 0; uint64_t x = v; while (x) { unsigned d = x % base; t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; x /= base; }
  if (n == 0 && prec != 0) t[n++] = '0'; char pre[3]; int pn = 0; if (neg) pre[pn++] = '-'; else if (plus) pre[pn++] = '+'; else if (space) pre[pn++] = ' ';
  if (alt && base == 16 && v) { pre[pn++] = '0'; pre[pn++] = upper ? 'X' : 'x'; } if (alt && base == 8 && (prec <= n)) prec = n + 1;
  int z = prec > n ? prec - n : 0; if (prec < 0 && zero && !left && width > pn + n) z = width - pn - n; int tot = pn + z + n;
  if (!left) pad(o, ' ', width - tot); for (int i = 0; i < pn; i++) put(o, pre[i]); pad(o, '0', z); while (n--) put(o, t[n]); if (left) pad(o, ' ', width - tot); }
int vpl_vsnprintf(char* buf, size_t cap, const char* f, va_list ap0) {
  struct out o = { buf, cap, 0 }; va_list ap; va_copy(ap, ap0);
  for (; *f; f++) { if (*f != '%') { put(&o, *f); continue; } const char* spec = f; f++;
    int left = 0, plus = 0, space = 0, alt = 0, zero = 0; for (;; f++) { if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else if (*f == '0') zero = 1; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0; while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { lng += *f == 'h' ? -1 : *f == 'l' ? 1 : 2; f++; }
    switch (*f) {
      case 'd': case 'i': { int64_t v; if (lng > 0) v = va_arg(ap, long); else v = va_arg(ap, int); if (lng == -1) v = (short)v; else if (lng < -1) v = (signed char)v; int neg = v < 0; num(&o, neg ? 0 - (uint64_t)v : (uint64_t)v, 10, 0, neg, plus, space, 0, zero, left, width, prec); break; }
      case 'u': case 'x': case 'X': case 'o': { uint64_t v; if (lng > 0) v = va_arg(ap, unsigned long); else v = va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; else if (lng < -1) v = (u8)v; num(&o, v, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', 0, 0, 0, alt, zero, left, width, prec); break; }
      case 'p': { uint64_t v = va_arg(ap, uint64_t); if (!v) { const char* s = "(nil)"; pad(&o, ' ', left ? 0 : width - 5); while (*s) put(&o, *s++); pad(&o, ' ', left ? width - 5 : 0); } else num(&o, v, 16, 0, 0, 0, 0, 1, zero, left, width, prec); break; }
      case 'c': { int v = va_arg(ap, int); if (!left) pad(&o, ' ', width - 1); put(&o, (char)v); if (left) pad(&o, ' ', width - 1); break; }
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; int n = 0; while ((prec < 0 || n < prec) && s[n]) n++; if (!left) pad(&o, ' ', width - n); for (int i = 0; i < n; i++) put(&o, s[i]); if (left) pad(&o, ' ', width - n); break; }
      case '%': put(&o, '%'); break;
      case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': { double d = va_arg(ap, double); char fs[16], t[1024]; int k = 0; fs[k++] = '%'; if (left) fs[k++] = '-'; if (plus) fs[k++] = '+'; if (space) fs[k++] = ' '; if (alt) fs[k++] = '#'; if (zero) fs[k++] = '0'; 
        if (width > 99 || prec > 99) { __builtin_trap(); } if (width > 9) fs[k++] = '0' + width / 10; if (width) fs[k++] = '0' + width % 10; if (prec >= 0) { fs[k++] = '.'; if (prec > 9) fs[k++] = '0' + prec / 10; fs[k++] = '0' + prec % 10; } fs[k++] = *f; fs[k] = 0; int n = vp_fmt_double(t, sizeof t, fs, d); for (int i = 0; i < n && i < 1023; i++) put(&o, t[i]); break; }
      default: __builtin_trap(); } (void)spec; }
  va_end(ap); if (cap) buf[o.n < cap ? o.n : cap - 1] = 0; return (int)o.n; }
int vpl_vsprintf(char* b, const char* f, va_list ap) { return vpl_vsnprintf(b, (size_t)1 << 40, f, ap); }
int vpl_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vpl_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vpl_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vpl_vsnprintf(b, (size_t)1 << 40, f, ap); va_end(ap); return r; }
