// Common code of the language-level harnesses: every job body runs twice, with the method interpreted by the
// VM (job_vm_*) and with the C code that the repository's precompiler generates for it (job_pc_*).
#ifndef LANG_H
#define LANG_H
#include "spv.h"
#include <math.h>
static SPV SV, SP;
#ifndef LANG_NO_SETUP
#ifndef ROOT
#define ROOT "VP"
#endif
#ifndef EXTRA_SETUP
#define EXTRA_SETUP
#endif
void vp_setup(void) { if (spv_open(&SV, ROOT, SPV_VM) || spv_open(&SP, ROOT, SPV_PC)) abort(); EXTRA_SETUP }
#endif
#define JOB2(name) static void body_##name(SPV* s, int pc); void job_vm_##name(void) { body_##name(&SV, 0); } void job_pc_##name(void) { body_##name(&SP, 1); } static void body_##name(SPV* s, int pc)
#define JOBV(name) static void body_##name(SPV* s); void job_##name(void) { body_##name(&SV); } static void body_##name(SPV* s)
static inline int CALLC(SPV* s, const char* c, const char* m, int w) { return spv_call(s, spv_find(s, c, m), w); }
static inline int CALL(SPV* s, const char* m, int w) { return CALLC(s, "VP", m, w); }
#define ST (s->stack)
#define ENV (s->env)
typedef int8_t c_byte; typedef int16_t c_short; typedef int32_t c_int; typedef int64_t c_long; typedef float c_float; typedef double c_double;
static inline c_byte sym_byte(const char* n) { uint8_t v; vp_symbolic(&v, 1, n); return v; }
static inline c_short sym_short(const char* n) { uint16_t v; vp_symbolic(&v, 2, n); return v; }
static inline c_int sym_int(const char* n) { return vp_i32(n); }
static inline c_long sym_long(const char* n) { return vp_i64(n); }
static inline c_float sym_float(const char* n) { uint32_t v = vp_i32(n); float f; memcpy(&f, &v, 4); return f; }
static inline c_double sym_double(const char* n) { uint64_t v = vp_i64(n); double f; memcpy(&f, &v, 8); return f; }
static inline uint32_t fbits(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
static inline uint64_t dbits(double f) { uint64_t v; memcpy(&v, &f, 8); return v; }
#define isnan_f(f) ((f) != (f))
static inline int same_float(float a, float b) { return (fbits(a) == fbits(b)) | ((a != a) & (b != b)); }
static inline int same_double(double a, double b) { return (dbits(a) == dbits(b)) | ((a != a) & (b != b)); }
#define same_byte(a, b) ((c_byte)(a) == (c_byte)(b))
#define same_short(a, b) ((c_short)(a) == (c_short)(b))
#define same_int(a, b) ((c_int)(a) == (c_int)(b))
#define same_long(a, b) ((c_long)(a) == (c_long)(b))
#define obs_byte(v) vp_observe((uint64_t)(int64_t)(v))
#define obs_short obs_byte
#define obs_int obs_byte
#define obs_long obs_byte
#define obs_float(v) vp_observe((v) != (v) ? 1 : fbits(v))
#define obs_double(v) vp_observe((v) != (v) ? 1 : dbits(v))
#define set_byte(i, v) (ST[i].bval = (v))
#define set_short(i, v) (ST[i].sval = (v))
#define set_int(i, v) (ST[i].ival = (v))
#define set_long(i, v) (ST[i].lval = (v))
#define set_float(i, v) (ST[i].fval = (v))
#define set_double(i, v) (ST[i].dval = (v))
#define get_byte() (ST[0].bval)
#define get_short() (ST[0].sval)
#define get_int() (ST[0].ival)
#define get_long() (ST[0].lval)
#define get_float() (ST[0].fval)
#define get_double() (ST[0].dval)
// x becomes concrete when it is within 0..n: the path forks on each value
static volatile int pin_tab[33] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32 };
__attribute__((noinline, unused)) static int vp_pin(int x, int n) { for (int i = 0; i <= n; i++) if (x == i) return pin_tab[i]; return x; }
#define OK(e) vp_assert(!(e), "no exception is thrown")
// memory balance: run body, and afterwards the number of live heap blocks must be what it was
#define BAL_BEGIN uint64_t _live = vp_live_blocks(); int _scope = ENV->enter_scope(ENV, ST);
#define BAL_END ENV->leave_scope(ENV, ST, _scope); spv_clear_exc(s); vp_assert(vp_live_blocks() == _live, "the number of live memory blocks returns to its previous value"); vp_assert(vp_held_locks() == 0, "no lock is left held");
#endif
