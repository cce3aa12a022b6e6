/*vp {"pc":"VP","time":120,"bounds":["every pair of operand types and every operand value (no bound on values)","one operator application per run, in a local, field, element, class variable or reference"]} */
// generated by tools/gen_*.py
#include "lang.h"

static inline c_long conv_double_long(c_double v) { return (c_long)v; }
static inline c_int conv_double_int(c_double v) { return (c_int)v; }
static inline c_short conv_double_short(c_double v) { return (c_short)v; }
static inline c_byte conv_double_byte(c_double v) { return (c_byte)v; }
static inline c_long conv_float_long(c_float v) { return (c_long)v; }
static inline c_int conv_float_int(c_float v) { return (c_int)v; }
static inline c_short conv_float_short(c_float v) { return (c_short)v; }
static inline c_byte conv_float_byte(c_float v) { return (c_byte)v; }
static c_int spec_div_int(c_int x, c_int y) { return y == -1 ? (c_int)(0 - (uint32_t)x) : x / y; }
static c_int spec_mod_int(c_int x, c_int y) { if (y == -1) return 0; c_int m = x % y; if ((x < 0) != (y < 0) && m) m += y; return m; }
static c_long spec_div_long(c_long x, c_long y) { return y == -1 ? (c_long)(0 - (uint64_t)x) : x / y; }
static c_long spec_mod_long(c_long x, c_long y) { if (y == -1) return 0; c_long m = x % y; if ((x < 0) != (y < 0) && m) m += y; return m; }
static void zero_div(SPV* s, int e) { vp_assert(e != 0, "division by zero throws"); vp_assert(e == SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS, "with the basic error id"); vp_assert(spv_exc_is(s, "0"), "with a message"); vp_reach("zero divisor"); }
JOB2(add_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "add_byte_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of byte + byte"); obs_int(r); }
JOB2(add_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "add_byte_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of byte + short"); obs_int(r); }
JOB2(add_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "add_byte_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of byte + int"); obs_int(r); }
JOB2(add_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "add_byte_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y)), "result of byte + long"); obs_long(r); }
JOB2(add_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int e = CALL(s, "add_byte_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of byte + float"); }
JOB2(add_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int e = CALL(s, "add_byte_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of byte + double"); }
JOB2(add_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "add_short_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of short + byte"); obs_int(r); }
JOB2(add_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "add_short_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of short + short"); obs_int(r); }
JOB2(add_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "add_short_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of short + int"); obs_int(r); }
JOB2(add_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "add_short_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y)), "result of short + long"); obs_long(r); }
JOB2(add_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int e = CALL(s, "add_short_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of short + float"); }
JOB2(add_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int e = CALL(s, "add_short_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of short + double"); }
JOB2(add_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "add_int_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of int + byte"); obs_int(r); }
JOB2(add_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "add_int_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of int + short"); obs_int(r); }
JOB2(add_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "add_int_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y)), "result of int + int"); obs_int(r); }
JOB2(add_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "add_int_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y)), "result of int + long"); obs_long(r); }
JOB2(add_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int e = CALL(s, "add_int_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of int + float"); }
JOB2(add_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int e = CALL(s, "add_int_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of int + double"); }
JOB2(add_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "add_long_byte", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y)), "result of long + byte"); obs_long(r); }
JOB2(add_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "add_long_short", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y)), "result of long + short"); obs_long(r); }
JOB2(add_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "add_long_int", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y)), "result of long + int"); obs_long(r); }
JOB2(add_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "add_long_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y)), "result of long + long"); obs_long(r); }
JOB2(add_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int e = CALL(s, "add_long_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of long + float"); }
JOB2(add_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int e = CALL(s, "add_long_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of long + double"); }
JOB2(add_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int e = CALL(s, "add_float_byte", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of float + byte"); }
JOB2(add_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int e = CALL(s, "add_float_short", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of float + short"); }
JOB2(add_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int e = CALL(s, "add_float_int", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of float + int"); }
JOB2(add_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int e = CALL(s, "add_float_long", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of float + long"); }
JOB2(add_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "add_float_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x + (c_float)y)), "result of float + float"); }
JOB2(add_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int e = CALL(s, "add_float_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of float + double"); }
JOB2(add_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int e = CALL(s, "add_double_byte", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of double + byte"); }
JOB2(add_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int e = CALL(s, "add_double_short", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of double + short"); }
JOB2(add_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int e = CALL(s, "add_double_int", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of double + int"); }
JOB2(add_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int e = CALL(s, "add_double_long", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of double + long"); }
JOB2(add_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int e = CALL(s, "add_double_float", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of double + float"); }
JOB2(add_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "add_double_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x + (c_double)y)), "result of double + double"); }
JOB2(sub_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "sub_byte_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of byte - byte"); obs_int(r); }
JOB2(sub_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "sub_byte_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of byte - short"); obs_int(r); }
JOB2(sub_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "sub_byte_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of byte - int"); obs_int(r); }
JOB2(sub_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "sub_byte_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y)), "result of byte - long"); obs_long(r); }
JOB2(sub_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int e = CALL(s, "sub_byte_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of byte - float"); }
JOB2(sub_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int e = CALL(s, "sub_byte_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of byte - double"); }
JOB2(sub_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "sub_short_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of short - byte"); obs_int(r); }
JOB2(sub_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "sub_short_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of short - short"); obs_int(r); }
JOB2(sub_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "sub_short_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of short - int"); obs_int(r); }
JOB2(sub_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "sub_short_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y)), "result of short - long"); obs_long(r); }
JOB2(sub_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int e = CALL(s, "sub_short_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of short - float"); }
JOB2(sub_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int e = CALL(s, "sub_short_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of short - double"); }
JOB2(sub_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "sub_int_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of int - byte"); obs_int(r); }
JOB2(sub_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "sub_int_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of int - short"); obs_int(r); }
JOB2(sub_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "sub_int_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y)), "result of int - int"); obs_int(r); }
JOB2(sub_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "sub_int_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y)), "result of int - long"); obs_long(r); }
JOB2(sub_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int e = CALL(s, "sub_int_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of int - float"); }
JOB2(sub_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int e = CALL(s, "sub_int_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of int - double"); }
JOB2(sub_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "sub_long_byte", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y)), "result of long - byte"); obs_long(r); }
JOB2(sub_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "sub_long_short", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y)), "result of long - short"); obs_long(r); }
JOB2(sub_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "sub_long_int", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y)), "result of long - int"); obs_long(r); }
JOB2(sub_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "sub_long_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y)), "result of long - long"); obs_long(r); }
JOB2(sub_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int e = CALL(s, "sub_long_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of long - float"); }
JOB2(sub_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int e = CALL(s, "sub_long_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of long - double"); }
JOB2(sub_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int e = CALL(s, "sub_float_byte", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of float - byte"); }
JOB2(sub_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int e = CALL(s, "sub_float_short", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of float - short"); }
JOB2(sub_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int e = CALL(s, "sub_float_int", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of float - int"); }
JOB2(sub_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int e = CALL(s, "sub_float_long", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of float - long"); }
JOB2(sub_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "sub_float_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x - (c_float)y)), "result of float - float"); }
JOB2(sub_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int e = CALL(s, "sub_float_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of float - double"); }
JOB2(sub_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int e = CALL(s, "sub_double_byte", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of double - byte"); }
JOB2(sub_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int e = CALL(s, "sub_double_short", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of double - short"); }
JOB2(sub_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int e = CALL(s, "sub_double_int", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of double - int"); }
JOB2(sub_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int e = CALL(s, "sub_double_long", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of double - long"); }
JOB2(sub_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int e = CALL(s, "sub_double_float", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of double - float"); }
JOB2(sub_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "sub_double_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x - (c_double)y)), "result of double - double"); }
JOB2(mul_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "mul_byte_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of byte * byte"); obs_int(r); }
JOB2(mul_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "mul_byte_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of byte * short"); obs_int(r); }
JOB2(mul_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "mul_byte_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of byte * int"); obs_int(r); }
JOB2(mul_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "mul_byte_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y)), "result of byte * long"); obs_long(r); }
JOB2(mul_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int e = CALL(s, "mul_byte_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of byte * float"); }
JOB2(mul_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int e = CALL(s, "mul_byte_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of byte * double"); }
JOB2(mul_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "mul_short_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of short * byte"); obs_int(r); }
JOB2(mul_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "mul_short_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of short * short"); obs_int(r); }
JOB2(mul_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "mul_short_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of short * int"); obs_int(r); }
JOB2(mul_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "mul_short_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y)), "result of short * long"); obs_long(r); }
JOB2(mul_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int e = CALL(s, "mul_short_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of short * float"); }
JOB2(mul_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int e = CALL(s, "mul_short_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of short * double"); }
JOB2(mul_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "mul_int_byte", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of int * byte"); obs_int(r); }
JOB2(mul_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "mul_int_short", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of int * short"); obs_int(r); }
JOB2(mul_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "mul_int_int", 2); vp_observe(e); OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y)), "result of int * int"); obs_int(r); }
JOB2(mul_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "mul_int_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y)), "result of int * long"); obs_long(r); }
JOB2(mul_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int e = CALL(s, "mul_int_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of int * float"); }
JOB2(mul_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int e = CALL(s, "mul_int_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of int * double"); }
JOB2(mul_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "mul_long_byte", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y)), "result of long * byte"); obs_long(r); }
JOB2(mul_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "mul_long_short", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y)), "result of long * short"); obs_long(r); }
JOB2(mul_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "mul_long_int", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y)), "result of long * int"); obs_long(r); }
JOB2(mul_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "mul_long_long", 2); vp_observe(e); OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y)), "result of long * long"); obs_long(r); }
JOB2(mul_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int e = CALL(s, "mul_long_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of long * float"); }
JOB2(mul_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int e = CALL(s, "mul_long_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of long * double"); }
JOB2(mul_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int e = CALL(s, "mul_float_byte", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of float * byte"); }
JOB2(mul_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int e = CALL(s, "mul_float_short", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of float * short"); }
JOB2(mul_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int e = CALL(s, "mul_float_int", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of float * int"); }
JOB2(mul_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int e = CALL(s, "mul_float_long", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of float * long"); }
JOB2(mul_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "mul_float_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x * (c_float)y)), "result of float * float"); }
JOB2(mul_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int e = CALL(s, "mul_float_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of float * double"); }
JOB2(mul_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int e = CALL(s, "mul_double_byte", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of double * byte"); }
JOB2(mul_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int e = CALL(s, "mul_double_short", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of double * short"); }
JOB2(mul_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int e = CALL(s, "mul_double_int", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of double * int"); }
JOB2(mul_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int e = CALL(s, "mul_double_long", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of double * long"); }
JOB2(mul_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int e = CALL(s, "mul_double_float", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of double * float"); }
JOB2(mul_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "mul_double_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x * (c_double)y)), "result of double * double"); }
JOB2(div_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "div_byte_byte", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of byte / byte"); obs_int(r); }
JOB2(div_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "div_byte_short", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of byte / short"); obs_int(r); }
JOB2(div_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "div_byte_int", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of byte / int"); obs_int(r); }
JOB2(div_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "div_byte_long", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_div_long(x, y)), "result of byte / long"); obs_long(r); }
JOB2(div_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int e = CALL(s, "div_byte_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of byte / float"); }
JOB2(div_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int e = CALL(s, "div_byte_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of byte / double"); }
JOB2(div_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "div_short_byte", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of short / byte"); obs_int(r); }
JOB2(div_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "div_short_short", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of short / short"); obs_int(r); }
JOB2(div_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "div_short_int", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of short / int"); obs_int(r); }
JOB2(div_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "div_short_long", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_div_long(x, y)), "result of short / long"); obs_long(r); }
JOB2(div_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int e = CALL(s, "div_short_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of short / float"); }
JOB2(div_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int e = CALL(s, "div_short_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of short / double"); }
JOB2(div_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "div_int_byte", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of int / byte"); obs_int(r); }
JOB2(div_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "div_int_short", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of int / short"); obs_int(r); }
JOB2(div_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "div_int_int", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_div_int(x, y)), "result of int / int"); obs_int(r); }
JOB2(div_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "div_int_long", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_div_long(x, y)), "result of int / long"); obs_long(r); }
JOB2(div_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int e = CALL(s, "div_int_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of int / float"); }
JOB2(div_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int e = CALL(s, "div_int_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of int / double"); }
JOB2(div_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "div_long_byte", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_div_long(x, y)), "result of long / byte"); obs_long(r); }
JOB2(div_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "div_long_short", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_div_long(x, y)), "result of long / short"); obs_long(r); }
JOB2(div_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "div_long_int", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_div_long(x, y)), "result of long / int"); obs_long(r); }
JOB2(div_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "div_long_long", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_div_long(x, y)), "result of long / long"); obs_long(r); }
JOB2(div_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int e = CALL(s, "div_long_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of long / float"); }
JOB2(div_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int e = CALL(s, "div_long_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of long / double"); }
JOB2(div_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int e = CALL(s, "div_float_byte", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of float / byte"); }
JOB2(div_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int e = CALL(s, "div_float_short", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of float / short"); }
JOB2(div_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int e = CALL(s, "div_float_int", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of float / int"); }
JOB2(div_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int e = CALL(s, "div_float_long", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of float / long"); }
JOB2(div_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "div_float_float", 2); vp_observe(e); OK(e); c_float r = get_float(); vp_assert(same_float(r, (c_float)((c_float)x / (c_float)y)), "result of float / float"); }
JOB2(div_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int e = CALL(s, "div_float_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of float / double"); }
JOB2(div_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int e = CALL(s, "div_double_byte", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of double / byte"); }
JOB2(div_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int e = CALL(s, "div_double_short", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of double / short"); }
JOB2(div_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int e = CALL(s, "div_double_int", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of double / int"); }
JOB2(div_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int e = CALL(s, "div_double_long", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of double / long"); }
JOB2(div_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int e = CALL(s, "div_double_float", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of double / float"); }
JOB2(div_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "div_double_double", 2); vp_observe(e); OK(e); c_double r = get_double(); vp_assert(same_double(r, (c_double)((c_double)x / (c_double)y)), "result of double / double"); }
JOB2(mod_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "mod_byte_byte", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of byte % byte"); obs_int(r); }
JOB2(mod_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "mod_byte_short", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of byte % short"); obs_int(r); }
JOB2(mod_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "mod_byte_int", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of byte % int"); obs_int(r); }
JOB2(mod_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "mod_byte_long", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_mod_long(x, y)), "result of byte % long"); obs_long(r); }
JOB2(mod_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "mod_short_byte", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of short % byte"); obs_int(r); }
JOB2(mod_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "mod_short_short", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of short % short"); obs_int(r); }
JOB2(mod_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "mod_short_int", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of short % int"); obs_int(r); }
JOB2(mod_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "mod_short_long", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_mod_long(x, y)), "result of short % long"); obs_long(r); }
JOB2(mod_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "mod_int_byte", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of int % byte"); obs_int(r); }
JOB2(mod_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "mod_int_short", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of int % short"); obs_int(r); }
JOB2(mod_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "mod_int_int", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, spec_mod_int(x, y)), "result of int % int"); obs_int(r); }
JOB2(mod_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "mod_int_long", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_mod_long(x, y)), "result of int % long"); obs_long(r); }
JOB2(mod_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "mod_long_byte", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_mod_long(x, y)), "result of long % byte"); obs_long(r); }
JOB2(mod_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "mod_long_short", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_mod_long(x, y)), "result of long % short"); obs_long(r); }
JOB2(mod_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "mod_long_int", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_mod_long(x, y)), "result of long % int"); obs_long(r); }
JOB2(mod_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "mod_long_long", 2); vp_observe(e); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, spec_mod_long(x, y)), "result of long % long"); obs_long(r); }
JOB2(div_uint) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "div_uint", 2); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)x / (uint32_t)y)), "result of div_uint"); obs_int(r); }
JOB2(mod_uint) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "mod_uint", 2); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)x % (uint32_t)y)), "result of mod_uint"); obs_int(r); }
JOB2(div_ulong) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "div_ulong", 2); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)x / (uint64_t)y)), "result of div_ulong"); obs_long(r); }
JOB2(mod_ulong) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "mod_ulong", 2); vp_must("zero divisor"); if (y == 0) { zero_div(s, e); return; } OK(e); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)x % (uint64_t)y)), "result of mod_ulong"); obs_long(r); }
JOB2(neg_byte) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "neg_byte", 1)); vp_assert(same_int(get_int(), (c_int)(0 - (uint32_t)(c_int)x)), "negation"); set_byte(0, x); OK(CALL(s, "plus_byte", 1)); vp_assert(same_int(get_int(), (c_int)x), "unary plus"); }
JOB2(neg_short) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "neg_short", 1)); vp_assert(same_int(get_int(), (c_int)(0 - (uint32_t)(c_int)x)), "negation"); set_short(0, x); OK(CALL(s, "plus_short", 1)); vp_assert(same_int(get_int(), (c_int)x), "unary plus"); }
JOB2(neg_int) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "neg_int", 1)); vp_assert(same_int(get_int(), (c_int)(0 - (uint32_t)(c_int)x)), "negation"); set_int(0, x); OK(CALL(s, "plus_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "unary plus"); }
JOB2(neg_long) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "neg_long", 1)); vp_assert(same_long(get_long(), (c_long)(0 - (uint64_t)(c_long)x)), "negation"); set_long(0, x); OK(CALL(s, "plus_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "unary plus"); }
JOB2(neg_float) { c_float x = sym_float("x"); set_float(0, x); OK(CALL(s, "neg_float", 1)); vp_assert(same_float(get_float(), -(c_float)x), "negation"); set_float(0, x); OK(CALL(s, "plus_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "unary plus"); }
JOB2(neg_double) { c_double x = sym_double("x"); set_double(0, x); OK(CALL(s, "neg_double", 1)); vp_assert(same_double(get_double(), -(c_double)x), "negation"); set_double(0, x); OK(CALL(s, "plus_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "unary plus"); }
JOB2(incdec_local_byte) { c_byte x = sym_byte("x"); void* out = ENV->new_byte_array(ENV, ST, 1); set_byte(0, x); ST[1].oval = out; OK(CALL(s, "preinc_local_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of preinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of preinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "predec_local_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of predec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of predec"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postinc_local_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of postinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postdec_local_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of postdec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_field_byte) { c_byte x = sym_byte("x"); void* out = ENV->new_byte_array(ENV, ST, 1); set_byte(0, x); ST[1].oval = out; OK(CALL(s, "preinc_field_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of preinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of preinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "predec_field_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of predec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of predec"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postinc_field_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of postinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postdec_field_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of postdec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_elem_byte) { c_byte x = sym_byte("x"); void* out = ENV->new_byte_array(ENV, ST, 1); set_byte(0, x); ST[1].oval = out; OK(CALL(s, "preinc_elem_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of preinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of preinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "predec_elem_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of predec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of predec"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postinc_elem_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of postinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postdec_elem_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of postdec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_cvar_byte) { c_byte x = sym_byte("x"); void* out = ENV->new_byte_array(ENV, ST, 1); set_byte(0, x); ST[1].oval = out; OK(CALL(s, "preinc_cvar_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of preinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of preinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "predec_cvar_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of predec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of predec"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postinc_cvar_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of postinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postdec_cvar_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of postdec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_ref_byte) { c_byte x = sym_byte("x"); void* out = ENV->new_byte_array(ENV, ST, 1); set_byte(0, x); ST[1].oval = out; OK(CALL(s, "preinc_ref_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of preinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of preinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "predec_ref_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of predec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], w), "value of predec"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postinc_ref_byte", 2)); { c_byte w = (c_byte)((c_int)x + 1); vp_assert(same_byte(get_byte(), w), "stored value of postinc"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postinc"); } set_byte(0, x); ST[1].oval = out; OK(CALL(s, "postdec_ref_byte", 2)); { c_byte w = (c_byte)((c_int)x - 1); vp_assert(same_byte(get_byte(), w), "stored value of postdec"); vp_assert(same_byte(ENV->get_elems_byte(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_local_short) { c_short x = sym_short("x"); void* out = ENV->new_short_array(ENV, ST, 1); set_short(0, x); ST[1].oval = out; OK(CALL(s, "preinc_local_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of preinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of preinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "predec_local_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of predec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of predec"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postinc_local_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of postinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postdec_local_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of postdec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_field_short) { c_short x = sym_short("x"); void* out = ENV->new_short_array(ENV, ST, 1); set_short(0, x); ST[1].oval = out; OK(CALL(s, "preinc_field_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of preinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of preinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "predec_field_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of predec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of predec"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postinc_field_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of postinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postdec_field_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of postdec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_elem_short) { c_short x = sym_short("x"); void* out = ENV->new_short_array(ENV, ST, 1); set_short(0, x); ST[1].oval = out; OK(CALL(s, "preinc_elem_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of preinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of preinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "predec_elem_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of predec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of predec"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postinc_elem_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of postinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postdec_elem_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of postdec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_cvar_short) { c_short x = sym_short("x"); void* out = ENV->new_short_array(ENV, ST, 1); set_short(0, x); ST[1].oval = out; OK(CALL(s, "preinc_cvar_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of preinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of preinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "predec_cvar_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of predec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of predec"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postinc_cvar_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of postinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postdec_cvar_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of postdec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_ref_short) { c_short x = sym_short("x"); void* out = ENV->new_short_array(ENV, ST, 1); set_short(0, x); ST[1].oval = out; OK(CALL(s, "preinc_ref_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of preinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of preinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "predec_ref_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of predec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], w), "value of predec"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postinc_ref_short", 2)); { c_short w = (c_short)((c_int)x + 1); vp_assert(same_short(get_short(), w), "stored value of postinc"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postinc"); } set_short(0, x); ST[1].oval = out; OK(CALL(s, "postdec_ref_short", 2)); { c_short w = (c_short)((c_int)x - 1); vp_assert(same_short(get_short(), w), "stored value of postdec"); vp_assert(same_short(ENV->get_elems_short(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_local_int) { c_int x = sym_int("x"); void* out = ENV->new_int_array(ENV, ST, 1); set_int(0, x); ST[1].oval = out; OK(CALL(s, "preinc_local_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of preinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of preinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "predec_local_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of predec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of predec"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postinc_local_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of postinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postdec_local_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of postdec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_field_int) { c_int x = sym_int("x"); void* out = ENV->new_int_array(ENV, ST, 1); set_int(0, x); ST[1].oval = out; OK(CALL(s, "preinc_field_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of preinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of preinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "predec_field_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of predec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of predec"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postinc_field_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of postinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postdec_field_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of postdec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_elem_int) { c_int x = sym_int("x"); void* out = ENV->new_int_array(ENV, ST, 1); set_int(0, x); ST[1].oval = out; OK(CALL(s, "preinc_elem_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of preinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of preinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "predec_elem_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of predec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of predec"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postinc_elem_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of postinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postdec_elem_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of postdec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_cvar_int) { c_int x = sym_int("x"); void* out = ENV->new_int_array(ENV, ST, 1); set_int(0, x); ST[1].oval = out; OK(CALL(s, "preinc_cvar_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of preinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of preinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "predec_cvar_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of predec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of predec"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postinc_cvar_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of postinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postdec_cvar_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of postdec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_ref_int) { c_int x = sym_int("x"); void* out = ENV->new_int_array(ENV, ST, 1); set_int(0, x); ST[1].oval = out; OK(CALL(s, "preinc_ref_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of preinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of preinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "predec_ref_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of predec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], w), "value of predec"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postinc_ref_int", 2)); { c_int w = (c_int)((c_int)x + 1); vp_assert(same_int(get_int(), w), "stored value of postinc"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postinc"); } set_int(0, x); ST[1].oval = out; OK(CALL(s, "postdec_ref_int", 2)); { c_int w = (c_int)((c_int)x - 1); vp_assert(same_int(get_int(), w), "stored value of postdec"); vp_assert(same_int(ENV->get_elems_int(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_local_long) { c_long x = sym_long("x"); void* out = ENV->new_long_array(ENV, ST, 1); set_long(0, x); ST[1].oval = out; OK(CALL(s, "preinc_local_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of preinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of preinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "predec_local_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of predec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of predec"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postinc_local_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of postinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postdec_local_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of postdec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_field_long) { c_long x = sym_long("x"); void* out = ENV->new_long_array(ENV, ST, 1); set_long(0, x); ST[1].oval = out; OK(CALL(s, "preinc_field_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of preinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of preinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "predec_field_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of predec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of predec"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postinc_field_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of postinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postdec_field_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of postdec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_elem_long) { c_long x = sym_long("x"); void* out = ENV->new_long_array(ENV, ST, 1); set_long(0, x); ST[1].oval = out; OK(CALL(s, "preinc_elem_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of preinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of preinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "predec_elem_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of predec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of predec"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postinc_elem_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of postinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postdec_elem_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of postdec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_cvar_long) { c_long x = sym_long("x"); void* out = ENV->new_long_array(ENV, ST, 1); set_long(0, x); ST[1].oval = out; OK(CALL(s, "preinc_cvar_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of preinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of preinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "predec_cvar_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of predec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of predec"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postinc_cvar_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of postinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postdec_cvar_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of postdec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_ref_long) { c_long x = sym_long("x"); void* out = ENV->new_long_array(ENV, ST, 1); set_long(0, x); ST[1].oval = out; OK(CALL(s, "preinc_ref_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of preinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of preinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "predec_ref_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of predec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], w), "value of predec"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postinc_ref_long", 2)); { c_long w = (c_long)((c_long)x + 1); vp_assert(same_long(get_long(), w), "stored value of postinc"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postinc"); } set_long(0, x); ST[1].oval = out; OK(CALL(s, "postdec_ref_long", 2)); { c_long w = (c_long)((c_long)x - 1); vp_assert(same_long(get_long(), w), "stored value of postdec"); vp_assert(same_long(ENV->get_elems_long(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_local_float) { c_float x = sym_float("x"); void* out = ENV->new_float_array(ENV, ST, 1); set_float(0, x); ST[1].oval = out; OK(CALL(s, "preinc_local_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of preinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of preinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "predec_local_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of predec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of predec"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postinc_local_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of postinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postdec_local_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of postdec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_field_float) { c_float x = sym_float("x"); void* out = ENV->new_float_array(ENV, ST, 1); set_float(0, x); ST[1].oval = out; OK(CALL(s, "preinc_field_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of preinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of preinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "predec_field_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of predec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of predec"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postinc_field_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of postinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postdec_field_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of postdec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_elem_float) { c_float x = sym_float("x"); void* out = ENV->new_float_array(ENV, ST, 1); set_float(0, x); ST[1].oval = out; OK(CALL(s, "preinc_elem_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of preinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of preinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "predec_elem_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of predec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of predec"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postinc_elem_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of postinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postdec_elem_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of postdec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_cvar_float) { c_float x = sym_float("x"); void* out = ENV->new_float_array(ENV, ST, 1); set_float(0, x); ST[1].oval = out; OK(CALL(s, "preinc_cvar_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of preinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of preinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "predec_cvar_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of predec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of predec"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postinc_cvar_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of postinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postdec_cvar_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of postdec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_ref_float) { c_float x = sym_float("x"); void* out = ENV->new_float_array(ENV, ST, 1); set_float(0, x); ST[1].oval = out; OK(CALL(s, "preinc_ref_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of preinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of preinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "predec_ref_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of predec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], w), "value of predec"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postinc_ref_float", 2)); { c_float w = (c_float)((float)x + 1); vp_assert(same_float(get_float(), w), "stored value of postinc"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postinc"); } set_float(0, x); ST[1].oval = out; OK(CALL(s, "postdec_ref_float", 2)); { c_float w = (c_float)((float)x - 1); vp_assert(same_float(get_float(), w), "stored value of postdec"); vp_assert(same_float(ENV->get_elems_float(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_local_double) { c_double x = sym_double("x"); void* out = ENV->new_double_array(ENV, ST, 1); set_double(0, x); ST[1].oval = out; OK(CALL(s, "preinc_local_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of preinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of preinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "predec_local_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of predec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of predec"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postinc_local_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of postinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postdec_local_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of postdec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_field_double) { c_double x = sym_double("x"); void* out = ENV->new_double_array(ENV, ST, 1); set_double(0, x); ST[1].oval = out; OK(CALL(s, "preinc_field_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of preinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of preinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "predec_field_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of predec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of predec"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postinc_field_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of postinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postdec_field_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of postdec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_elem_double) { c_double x = sym_double("x"); void* out = ENV->new_double_array(ENV, ST, 1); set_double(0, x); ST[1].oval = out; OK(CALL(s, "preinc_elem_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of preinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of preinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "predec_elem_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of predec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of predec"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postinc_elem_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of postinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postdec_elem_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of postdec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_cvar_double) { c_double x = sym_double("x"); void* out = ENV->new_double_array(ENV, ST, 1); set_double(0, x); ST[1].oval = out; OK(CALL(s, "preinc_cvar_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of preinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of preinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "predec_cvar_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of predec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of predec"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postinc_cvar_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of postinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postdec_cvar_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of postdec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(incdec_ref_double) { c_double x = sym_double("x"); void* out = ENV->new_double_array(ENV, ST, 1); set_double(0, x); ST[1].oval = out; OK(CALL(s, "preinc_ref_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of preinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of preinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "predec_ref_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of predec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], w), "value of predec"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postinc_ref_double", 2)); { c_double w = (c_double)((double)x + 1); vp_assert(same_double(get_double(), w), "stored value of postinc"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postinc"); } set_double(0, x); ST[1].oval = out; OK(CALL(s, "postdec_ref_double", 2)); { c_double w = (c_double)((double)x - 1); vp_assert(same_double(get_double(), w), "stored value of postdec"); vp_assert(same_double(ENV->get_elems_double(ENV, ST, out)[0], x), "value of postdec"); } }
JOB2(as_add_local_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_add_local_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "byte += byte"); }
JOB2(as_add_elem_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_add_elem_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "byte += byte"); }
JOB2(as_add_field_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_add_field_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "byte += byte"); }
JOB2(as_add_cvar_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_add_cvar_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "byte += byte"); }
JOB2(as_add_ref_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_add_ref_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "byte += byte"); }
JOB2(as_add_local_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "as_add_local_byte_short", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "byte += short"); }
JOB2(as_add_local_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "as_add_local_byte_int", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "byte += int"); }
JOB2(as_add_local_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "as_add_local_byte_long", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "byte += long"); }
JOB2(as_add_local_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int e = CALL(s, "as_add_local_byte_float", 2); OK(e); vp_assert(same_byte(get_byte(), conv_float_byte((c_float)((c_float)x + (c_float)y))), "byte += float"); }
JOB2(as_add_local_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int e = CALL(s, "as_add_local_byte_double", 2); OK(e); vp_assert(same_byte(get_byte(), conv_double_byte((c_double)((c_double)x + (c_double)y))), "byte += double"); }
JOB2(as_add_local_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "as_add_local_short_byte", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "short += byte"); }
JOB2(as_add_local_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_add_local_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "short += short"); }
JOB2(as_add_elem_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_add_elem_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "short += short"); }
JOB2(as_add_field_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_add_field_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "short += short"); }
JOB2(as_add_cvar_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_add_cvar_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "short += short"); }
JOB2(as_add_ref_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_add_ref_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "short += short"); }
JOB2(as_add_local_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "as_add_local_short_int", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "short += int"); }
JOB2(as_add_local_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "as_add_local_short_long", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "short += long"); }
JOB2(as_add_local_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int e = CALL(s, "as_add_local_short_float", 2); OK(e); vp_assert(same_short(get_short(), conv_float_short((c_float)((c_float)x + (c_float)y))), "short += float"); }
JOB2(as_add_local_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int e = CALL(s, "as_add_local_short_double", 2); OK(e); vp_assert(same_short(get_short(), conv_double_short((c_double)((c_double)x + (c_double)y))), "short += double"); }
JOB2(as_add_local_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "as_add_local_int_byte", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "int += byte"); }
JOB2(as_add_local_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "as_add_local_int_short", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "int += short"); }
JOB2(as_add_local_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_add_local_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "int += int"); }
JOB2(as_add_elem_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_add_elem_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "int += int"); }
JOB2(as_add_field_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_add_field_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "int += int"); }
JOB2(as_add_cvar_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_add_cvar_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "int += int"); }
JOB2(as_add_ref_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_add_ref_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x + (uint32_t)(c_int)y))), "int += int"); }
JOB2(as_add_local_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "as_add_local_int_long", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "int += long"); }
JOB2(as_add_local_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int e = CALL(s, "as_add_local_int_float", 2); OK(e); vp_assert(same_int(get_int(), conv_float_int((c_float)((c_float)x + (c_float)y))), "int += float"); }
JOB2(as_add_local_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int e = CALL(s, "as_add_local_int_double", 2); OK(e); vp_assert(same_int(get_int(), conv_double_int((c_double)((c_double)x + (c_double)y))), "int += double"); }
JOB2(as_add_local_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "as_add_local_long_byte", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "long += byte"); }
JOB2(as_add_local_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "as_add_local_long_short", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "long += short"); }
JOB2(as_add_local_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "as_add_local_long_int", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "long += int"); }
JOB2(as_add_local_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_add_local_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "long += long"); }
JOB2(as_add_elem_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_add_elem_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "long += long"); }
JOB2(as_add_field_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_add_field_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "long += long"); }
JOB2(as_add_cvar_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_add_cvar_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "long += long"); }
JOB2(as_add_ref_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_add_ref_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x + (uint64_t)(c_long)y))), "long += long"); }
JOB2(as_add_local_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int e = CALL(s, "as_add_local_long_float", 2); OK(e); vp_assert(same_long(get_long(), conv_float_long((c_float)((c_float)x + (c_float)y))), "long += float"); }
JOB2(as_add_local_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int e = CALL(s, "as_add_local_long_double", 2); OK(e); vp_assert(same_long(get_long(), conv_double_long((c_double)((c_double)x + (c_double)y))), "long += double"); }
JOB2(as_add_local_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int e = CALL(s, "as_add_local_float_byte", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += byte"); }
JOB2(as_add_local_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int e = CALL(s, "as_add_local_float_short", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += short"); }
JOB2(as_add_local_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int e = CALL(s, "as_add_local_float_int", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += int"); }
JOB2(as_add_local_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int e = CALL(s, "as_add_local_float_long", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += long"); }
JOB2(as_add_local_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_add_local_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += float"); }
JOB2(as_add_elem_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_add_elem_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += float"); }
JOB2(as_add_field_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_add_field_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += float"); }
JOB2(as_add_cvar_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_add_cvar_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += float"); }
JOB2(as_add_ref_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_add_ref_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x + (c_float)y))), "float += float"); }
JOB2(as_add_local_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int e = CALL(s, "as_add_local_float_double", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_double)((c_double)x + (c_double)y))), "float += double"); }
JOB2(as_add_local_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int e = CALL(s, "as_add_local_double_byte", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += byte"); }
JOB2(as_add_local_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int e = CALL(s, "as_add_local_double_short", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += short"); }
JOB2(as_add_local_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int e = CALL(s, "as_add_local_double_int", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += int"); }
JOB2(as_add_local_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int e = CALL(s, "as_add_local_double_long", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += long"); }
JOB2(as_add_local_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int e = CALL(s, "as_add_local_double_float", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += float"); }
JOB2(as_add_local_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_add_local_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += double"); }
JOB2(as_add_elem_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_add_elem_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += double"); }
JOB2(as_add_field_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_add_field_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += double"); }
JOB2(as_add_cvar_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_add_cvar_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += double"); }
JOB2(as_add_ref_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_add_ref_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x + (c_double)y))), "double += double"); }
JOB2(as_sub_local_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_sub_local_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "byte -= byte"); }
JOB2(as_sub_elem_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_sub_elem_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "byte -= byte"); }
JOB2(as_sub_field_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_sub_field_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "byte -= byte"); }
JOB2(as_sub_cvar_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_sub_cvar_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "byte -= byte"); }
JOB2(as_sub_ref_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_sub_ref_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "byte -= byte"); }
JOB2(as_sub_local_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "as_sub_local_byte_short", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "byte -= short"); }
JOB2(as_sub_local_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "as_sub_local_byte_int", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "byte -= int"); }
JOB2(as_sub_local_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "as_sub_local_byte_long", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "byte -= long"); }
JOB2(as_sub_local_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int e = CALL(s, "as_sub_local_byte_float", 2); OK(e); vp_assert(same_byte(get_byte(), conv_float_byte((c_float)((c_float)x - (c_float)y))), "byte -= float"); }
JOB2(as_sub_local_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int e = CALL(s, "as_sub_local_byte_double", 2); OK(e); vp_assert(same_byte(get_byte(), conv_double_byte((c_double)((c_double)x - (c_double)y))), "byte -= double"); }
JOB2(as_sub_local_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "as_sub_local_short_byte", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "short -= byte"); }
JOB2(as_sub_local_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_sub_local_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "short -= short"); }
JOB2(as_sub_elem_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_sub_elem_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "short -= short"); }
JOB2(as_sub_field_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_sub_field_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "short -= short"); }
JOB2(as_sub_cvar_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_sub_cvar_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "short -= short"); }
JOB2(as_sub_ref_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_sub_ref_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "short -= short"); }
JOB2(as_sub_local_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "as_sub_local_short_int", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "short -= int"); }
JOB2(as_sub_local_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "as_sub_local_short_long", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "short -= long"); }
JOB2(as_sub_local_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int e = CALL(s, "as_sub_local_short_float", 2); OK(e); vp_assert(same_short(get_short(), conv_float_short((c_float)((c_float)x - (c_float)y))), "short -= float"); }
JOB2(as_sub_local_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int e = CALL(s, "as_sub_local_short_double", 2); OK(e); vp_assert(same_short(get_short(), conv_double_short((c_double)((c_double)x - (c_double)y))), "short -= double"); }
JOB2(as_sub_local_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "as_sub_local_int_byte", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "int -= byte"); }
JOB2(as_sub_local_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "as_sub_local_int_short", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "int -= short"); }
JOB2(as_sub_local_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_sub_local_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "int -= int"); }
JOB2(as_sub_elem_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_sub_elem_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "int -= int"); }
JOB2(as_sub_field_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_sub_field_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "int -= int"); }
JOB2(as_sub_cvar_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_sub_cvar_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "int -= int"); }
JOB2(as_sub_ref_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_sub_ref_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x - (uint32_t)(c_int)y))), "int -= int"); }
JOB2(as_sub_local_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "as_sub_local_int_long", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "int -= long"); }
JOB2(as_sub_local_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int e = CALL(s, "as_sub_local_int_float", 2); OK(e); vp_assert(same_int(get_int(), conv_float_int((c_float)((c_float)x - (c_float)y))), "int -= float"); }
JOB2(as_sub_local_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int e = CALL(s, "as_sub_local_int_double", 2); OK(e); vp_assert(same_int(get_int(), conv_double_int((c_double)((c_double)x - (c_double)y))), "int -= double"); }
JOB2(as_sub_local_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "as_sub_local_long_byte", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "long -= byte"); }
JOB2(as_sub_local_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "as_sub_local_long_short", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "long -= short"); }
JOB2(as_sub_local_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "as_sub_local_long_int", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "long -= int"); }
JOB2(as_sub_local_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_sub_local_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "long -= long"); }
JOB2(as_sub_elem_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_sub_elem_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "long -= long"); }
JOB2(as_sub_field_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_sub_field_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "long -= long"); }
JOB2(as_sub_cvar_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_sub_cvar_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "long -= long"); }
JOB2(as_sub_ref_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_sub_ref_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x - (uint64_t)(c_long)y))), "long -= long"); }
JOB2(as_sub_local_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int e = CALL(s, "as_sub_local_long_float", 2); OK(e); vp_assert(same_long(get_long(), conv_float_long((c_float)((c_float)x - (c_float)y))), "long -= float"); }
JOB2(as_sub_local_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int e = CALL(s, "as_sub_local_long_double", 2); OK(e); vp_assert(same_long(get_long(), conv_double_long((c_double)((c_double)x - (c_double)y))), "long -= double"); }
JOB2(as_sub_local_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int e = CALL(s, "as_sub_local_float_byte", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= byte"); }
JOB2(as_sub_local_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int e = CALL(s, "as_sub_local_float_short", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= short"); }
JOB2(as_sub_local_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int e = CALL(s, "as_sub_local_float_int", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= int"); }
JOB2(as_sub_local_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int e = CALL(s, "as_sub_local_float_long", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= long"); }
JOB2(as_sub_local_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_sub_local_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= float"); }
JOB2(as_sub_elem_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_sub_elem_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= float"); }
JOB2(as_sub_field_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_sub_field_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= float"); }
JOB2(as_sub_cvar_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_sub_cvar_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= float"); }
JOB2(as_sub_ref_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_sub_ref_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x - (c_float)y))), "float -= float"); }
JOB2(as_sub_local_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int e = CALL(s, "as_sub_local_float_double", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_double)((c_double)x - (c_double)y))), "float -= double"); }
JOB2(as_sub_local_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int e = CALL(s, "as_sub_local_double_byte", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= byte"); }
JOB2(as_sub_local_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int e = CALL(s, "as_sub_local_double_short", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= short"); }
JOB2(as_sub_local_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int e = CALL(s, "as_sub_local_double_int", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= int"); }
JOB2(as_sub_local_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int e = CALL(s, "as_sub_local_double_long", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= long"); }
JOB2(as_sub_local_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int e = CALL(s, "as_sub_local_double_float", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= float"); }
JOB2(as_sub_local_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_sub_local_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= double"); }
JOB2(as_sub_elem_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_sub_elem_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= double"); }
JOB2(as_sub_field_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_sub_field_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= double"); }
JOB2(as_sub_cvar_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_sub_cvar_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= double"); }
JOB2(as_sub_ref_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_sub_ref_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x - (c_double)y))), "double -= double"); }
JOB2(as_mul_local_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mul_local_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "byte *= byte"); }
JOB2(as_mul_elem_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mul_elem_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "byte *= byte"); }
JOB2(as_mul_field_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mul_field_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "byte *= byte"); }
JOB2(as_mul_cvar_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mul_cvar_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "byte *= byte"); }
JOB2(as_mul_ref_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mul_ref_byte_byte", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "byte *= byte"); }
JOB2(as_mul_local_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "as_mul_local_byte_short", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "byte *= short"); }
JOB2(as_mul_local_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "as_mul_local_byte_int", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "byte *= int"); }
JOB2(as_mul_local_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "as_mul_local_byte_long", 2); OK(e); vp_assert(same_byte(get_byte(), (c_byte)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "byte *= long"); }
JOB2(as_mul_local_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int e = CALL(s, "as_mul_local_byte_float", 2); OK(e); vp_assert(same_byte(get_byte(), conv_float_byte((c_float)((c_float)x * (c_float)y))), "byte *= float"); }
JOB2(as_mul_local_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int e = CALL(s, "as_mul_local_byte_double", 2); OK(e); vp_assert(same_byte(get_byte(), conv_double_byte((c_double)((c_double)x * (c_double)y))), "byte *= double"); }
JOB2(as_mul_local_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "as_mul_local_short_byte", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "short *= byte"); }
JOB2(as_mul_local_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mul_local_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "short *= short"); }
JOB2(as_mul_elem_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mul_elem_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "short *= short"); }
JOB2(as_mul_field_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mul_field_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "short *= short"); }
JOB2(as_mul_cvar_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mul_cvar_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "short *= short"); }
JOB2(as_mul_ref_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mul_ref_short_short", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "short *= short"); }
JOB2(as_mul_local_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "as_mul_local_short_int", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "short *= int"); }
JOB2(as_mul_local_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "as_mul_local_short_long", 2); OK(e); vp_assert(same_short(get_short(), (c_short)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "short *= long"); }
JOB2(as_mul_local_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int e = CALL(s, "as_mul_local_short_float", 2); OK(e); vp_assert(same_short(get_short(), conv_float_short((c_float)((c_float)x * (c_float)y))), "short *= float"); }
JOB2(as_mul_local_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int e = CALL(s, "as_mul_local_short_double", 2); OK(e); vp_assert(same_short(get_short(), conv_double_short((c_double)((c_double)x * (c_double)y))), "short *= double"); }
JOB2(as_mul_local_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "as_mul_local_int_byte", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "int *= byte"); }
JOB2(as_mul_local_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "as_mul_local_int_short", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "int *= short"); }
JOB2(as_mul_local_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mul_local_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "int *= int"); }
JOB2(as_mul_elem_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mul_elem_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "int *= int"); }
JOB2(as_mul_field_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mul_field_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "int *= int"); }
JOB2(as_mul_cvar_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mul_cvar_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "int *= int"); }
JOB2(as_mul_ref_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mul_ref_int_int", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x * (uint32_t)(c_int)y))), "int *= int"); }
JOB2(as_mul_local_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "as_mul_local_int_long", 2); OK(e); vp_assert(same_int(get_int(), (c_int)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "int *= long"); }
JOB2(as_mul_local_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int e = CALL(s, "as_mul_local_int_float", 2); OK(e); vp_assert(same_int(get_int(), conv_float_int((c_float)((c_float)x * (c_float)y))), "int *= float"); }
JOB2(as_mul_local_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int e = CALL(s, "as_mul_local_int_double", 2); OK(e); vp_assert(same_int(get_int(), conv_double_int((c_double)((c_double)x * (c_double)y))), "int *= double"); }
JOB2(as_mul_local_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "as_mul_local_long_byte", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "long *= byte"); }
JOB2(as_mul_local_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "as_mul_local_long_short", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "long *= short"); }
JOB2(as_mul_local_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "as_mul_local_long_int", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "long *= int"); }
JOB2(as_mul_local_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mul_local_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "long *= long"); }
JOB2(as_mul_elem_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mul_elem_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "long *= long"); }
JOB2(as_mul_field_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mul_field_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "long *= long"); }
JOB2(as_mul_cvar_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mul_cvar_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "long *= long"); }
JOB2(as_mul_ref_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mul_ref_long_long", 2); OK(e); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x * (uint64_t)(c_long)y))), "long *= long"); }
JOB2(as_mul_local_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int e = CALL(s, "as_mul_local_long_float", 2); OK(e); vp_assert(same_long(get_long(), conv_float_long((c_float)((c_float)x * (c_float)y))), "long *= float"); }
JOB2(as_mul_local_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int e = CALL(s, "as_mul_local_long_double", 2); OK(e); vp_assert(same_long(get_long(), conv_double_long((c_double)((c_double)x * (c_double)y))), "long *= double"); }
JOB2(as_mul_local_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int e = CALL(s, "as_mul_local_float_byte", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= byte"); }
JOB2(as_mul_local_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int e = CALL(s, "as_mul_local_float_short", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= short"); }
JOB2(as_mul_local_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int e = CALL(s, "as_mul_local_float_int", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= int"); }
JOB2(as_mul_local_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int e = CALL(s, "as_mul_local_float_long", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= long"); }
JOB2(as_mul_local_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_mul_local_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= float"); }
JOB2(as_mul_elem_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_mul_elem_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= float"); }
JOB2(as_mul_field_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_mul_field_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= float"); }
JOB2(as_mul_cvar_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_mul_cvar_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= float"); }
JOB2(as_mul_ref_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_mul_ref_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x * (c_float)y))), "float *= float"); }
JOB2(as_mul_local_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int e = CALL(s, "as_mul_local_float_double", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_double)((c_double)x * (c_double)y))), "float *= double"); }
JOB2(as_mul_local_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int e = CALL(s, "as_mul_local_double_byte", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= byte"); }
JOB2(as_mul_local_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int e = CALL(s, "as_mul_local_double_short", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= short"); }
JOB2(as_mul_local_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int e = CALL(s, "as_mul_local_double_int", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= int"); }
JOB2(as_mul_local_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int e = CALL(s, "as_mul_local_double_long", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= long"); }
JOB2(as_mul_local_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int e = CALL(s, "as_mul_local_double_float", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= float"); }
JOB2(as_mul_local_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_mul_local_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= double"); }
JOB2(as_mul_elem_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_mul_elem_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= double"); }
JOB2(as_mul_field_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_mul_field_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= double"); }
JOB2(as_mul_cvar_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_mul_cvar_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= double"); }
JOB2(as_mul_ref_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_mul_ref_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x * (c_double)y))), "double *= double"); }
JOB2(as_div_local_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_div_local_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_div_int(x, y))), "byte /= byte"); }
JOB2(as_div_elem_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_div_elem_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_div_int(x, y))), "byte /= byte"); }
JOB2(as_div_field_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_div_field_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_div_int(x, y))), "byte /= byte"); }
JOB2(as_div_cvar_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_div_cvar_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_div_int(x, y))), "byte /= byte"); }
JOB2(as_div_ref_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_div_ref_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_div_int(x, y))), "byte /= byte"); }
JOB2(as_div_local_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "as_div_local_byte_short", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_div_int(x, y))), "byte /= short"); }
JOB2(as_div_local_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "as_div_local_byte_int", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_div_int(x, y))), "byte /= int"); }
JOB2(as_div_local_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "as_div_local_byte_long", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_div_long(x, y))), "byte /= long"); }
JOB2(as_div_local_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int e = CALL(s, "as_div_local_byte_float", 2); OK(e); vp_assert(same_byte(get_byte(), conv_float_byte((c_float)((c_float)x / (c_float)y))), "byte /= float"); }
JOB2(as_div_local_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int e = CALL(s, "as_div_local_byte_double", 2); OK(e); vp_assert(same_byte(get_byte(), conv_double_byte((c_double)((c_double)x / (c_double)y))), "byte /= double"); }
JOB2(as_div_local_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "as_div_local_short_byte", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_div_int(x, y))), "short /= byte"); }
JOB2(as_div_local_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_div_local_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_div_int(x, y))), "short /= short"); }
JOB2(as_div_elem_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_div_elem_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_div_int(x, y))), "short /= short"); }
JOB2(as_div_field_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_div_field_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_div_int(x, y))), "short /= short"); }
JOB2(as_div_cvar_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_div_cvar_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_div_int(x, y))), "short /= short"); }
JOB2(as_div_ref_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_div_ref_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_div_int(x, y))), "short /= short"); }
JOB2(as_div_local_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "as_div_local_short_int", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_div_int(x, y))), "short /= int"); }
JOB2(as_div_local_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "as_div_local_short_long", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_div_long(x, y))), "short /= long"); }
JOB2(as_div_local_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int e = CALL(s, "as_div_local_short_float", 2); OK(e); vp_assert(same_short(get_short(), conv_float_short((c_float)((c_float)x / (c_float)y))), "short /= float"); }
JOB2(as_div_local_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int e = CALL(s, "as_div_local_short_double", 2); OK(e); vp_assert(same_short(get_short(), conv_double_short((c_double)((c_double)x / (c_double)y))), "short /= double"); }
JOB2(as_div_local_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "as_div_local_int_byte", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_div_int(x, y))), "int /= byte"); }
JOB2(as_div_local_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "as_div_local_int_short", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_div_int(x, y))), "int /= short"); }
JOB2(as_div_local_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_div_local_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_div_int(x, y))), "int /= int"); }
JOB2(as_div_elem_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_div_elem_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_div_int(x, y))), "int /= int"); }
JOB2(as_div_field_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_div_field_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_div_int(x, y))), "int /= int"); }
JOB2(as_div_cvar_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_div_cvar_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_div_int(x, y))), "int /= int"); }
JOB2(as_div_ref_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_div_ref_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_div_int(x, y))), "int /= int"); }
JOB2(as_div_local_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "as_div_local_int_long", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_div_long(x, y))), "int /= long"); }
JOB2(as_div_local_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int e = CALL(s, "as_div_local_int_float", 2); OK(e); vp_assert(same_int(get_int(), conv_float_int((c_float)((c_float)x / (c_float)y))), "int /= float"); }
JOB2(as_div_local_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int e = CALL(s, "as_div_local_int_double", 2); OK(e); vp_assert(same_int(get_int(), conv_double_int((c_double)((c_double)x / (c_double)y))), "int /= double"); }
JOB2(as_div_local_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "as_div_local_long_byte", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_div_long(x, y))), "long /= byte"); }
JOB2(as_div_local_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "as_div_local_long_short", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_div_long(x, y))), "long /= short"); }
JOB2(as_div_local_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "as_div_local_long_int", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_div_long(x, y))), "long /= int"); }
JOB2(as_div_local_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_div_local_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_div_long(x, y))), "long /= long"); }
JOB2(as_div_elem_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_div_elem_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_div_long(x, y))), "long /= long"); }
JOB2(as_div_field_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_div_field_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_div_long(x, y))), "long /= long"); }
JOB2(as_div_cvar_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_div_cvar_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_div_long(x, y))), "long /= long"); }
JOB2(as_div_ref_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_div_ref_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_div_long(x, y))), "long /= long"); }
JOB2(as_div_local_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int e = CALL(s, "as_div_local_long_float", 2); OK(e); vp_assert(same_long(get_long(), conv_float_long((c_float)((c_float)x / (c_float)y))), "long /= float"); }
JOB2(as_div_local_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int e = CALL(s, "as_div_local_long_double", 2); OK(e); vp_assert(same_long(get_long(), conv_double_long((c_double)((c_double)x / (c_double)y))), "long /= double"); }
JOB2(as_div_local_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int e = CALL(s, "as_div_local_float_byte", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= byte"); }
JOB2(as_div_local_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int e = CALL(s, "as_div_local_float_short", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= short"); }
JOB2(as_div_local_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int e = CALL(s, "as_div_local_float_int", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= int"); }
JOB2(as_div_local_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int e = CALL(s, "as_div_local_float_long", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= long"); }
JOB2(as_div_local_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_div_local_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= float"); }
JOB2(as_div_elem_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_div_elem_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= float"); }
JOB2(as_div_field_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_div_field_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= float"); }
JOB2(as_div_cvar_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_div_cvar_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= float"); }
JOB2(as_div_ref_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int e = CALL(s, "as_div_ref_float_float", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_float)((c_float)x / (c_float)y))), "float /= float"); }
JOB2(as_div_local_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int e = CALL(s, "as_div_local_float_double", 2); OK(e); vp_assert(same_float(get_float(), (c_float)((c_double)((c_double)x / (c_double)y))), "float /= double"); }
JOB2(as_div_local_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int e = CALL(s, "as_div_local_double_byte", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= byte"); }
JOB2(as_div_local_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int e = CALL(s, "as_div_local_double_short", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= short"); }
JOB2(as_div_local_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int e = CALL(s, "as_div_local_double_int", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= int"); }
JOB2(as_div_local_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int e = CALL(s, "as_div_local_double_long", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= long"); }
JOB2(as_div_local_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int e = CALL(s, "as_div_local_double_float", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= float"); }
JOB2(as_div_local_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_div_local_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= double"); }
JOB2(as_div_elem_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_div_elem_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= double"); }
JOB2(as_div_field_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_div_field_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= double"); }
JOB2(as_div_cvar_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_div_cvar_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= double"); }
JOB2(as_div_ref_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int e = CALL(s, "as_div_ref_double_double", 2); OK(e); vp_assert(same_double(get_double(), (c_double)((c_double)((c_double)x / (c_double)y))), "double /= double"); }
JOB2(as_mod_local_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mod_local_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_mod_int(x, y))), "byte %= byte"); }
JOB2(as_mod_elem_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mod_elem_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_mod_int(x, y))), "byte %= byte"); }
JOB2(as_mod_field_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mod_field_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_mod_int(x, y))), "byte %= byte"); }
JOB2(as_mod_cvar_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mod_cvar_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_mod_int(x, y))), "byte %= byte"); }
JOB2(as_mod_ref_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int e = CALL(s, "as_mod_ref_byte_byte", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_mod_int(x, y))), "byte %= byte"); }
JOB2(as_mod_local_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int e = CALL(s, "as_mod_local_byte_short", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_mod_int(x, y))), "byte %= short"); }
JOB2(as_mod_local_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int e = CALL(s, "as_mod_local_byte_int", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_mod_int(x, y))), "byte %= int"); }
JOB2(as_mod_local_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int e = CALL(s, "as_mod_local_byte_long", 2); OK(e); if (y == 0) { vp_assert(same_byte(get_byte(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_byte(get_byte(), (c_byte)(spec_mod_long(x, y))), "byte %= long"); }
JOB2(as_mod_local_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int e = CALL(s, "as_mod_local_short_byte", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_mod_int(x, y))), "short %= byte"); }
JOB2(as_mod_local_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mod_local_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_mod_int(x, y))), "short %= short"); }
JOB2(as_mod_elem_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mod_elem_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_mod_int(x, y))), "short %= short"); }
JOB2(as_mod_field_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mod_field_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_mod_int(x, y))), "short %= short"); }
JOB2(as_mod_cvar_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mod_cvar_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_mod_int(x, y))), "short %= short"); }
JOB2(as_mod_ref_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int e = CALL(s, "as_mod_ref_short_short", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_mod_int(x, y))), "short %= short"); }
JOB2(as_mod_local_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int e = CALL(s, "as_mod_local_short_int", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_mod_int(x, y))), "short %= int"); }
JOB2(as_mod_local_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int e = CALL(s, "as_mod_local_short_long", 2); OK(e); if (y == 0) { vp_assert(same_short(get_short(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_short(get_short(), (c_short)(spec_mod_long(x, y))), "short %= long"); }
JOB2(as_mod_local_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int e = CALL(s, "as_mod_local_int_byte", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_mod_int(x, y))), "int %= byte"); }
JOB2(as_mod_local_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int e = CALL(s, "as_mod_local_int_short", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_mod_int(x, y))), "int %= short"); }
JOB2(as_mod_local_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mod_local_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_mod_int(x, y))), "int %= int"); }
JOB2(as_mod_elem_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mod_elem_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_mod_int(x, y))), "int %= int"); }
JOB2(as_mod_field_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mod_field_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_mod_int(x, y))), "int %= int"); }
JOB2(as_mod_cvar_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mod_cvar_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_mod_int(x, y))), "int %= int"); }
JOB2(as_mod_ref_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int e = CALL(s, "as_mod_ref_int_int", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_mod_int(x, y))), "int %= int"); }
JOB2(as_mod_local_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int e = CALL(s, "as_mod_local_int_long", 2); OK(e); if (y == 0) { vp_assert(same_int(get_int(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_int(get_int(), (c_int)(spec_mod_long(x, y))), "int %= long"); }
JOB2(as_mod_local_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int e = CALL(s, "as_mod_local_long_byte", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_mod_long(x, y))), "long %= byte"); }
JOB2(as_mod_local_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int e = CALL(s, "as_mod_local_long_short", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_mod_long(x, y))), "long %= short"); }
JOB2(as_mod_local_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int e = CALL(s, "as_mod_local_long_int", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_mod_long(x, y))), "long %= int"); }
JOB2(as_mod_local_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mod_local_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_mod_long(x, y))), "long %= long"); }
JOB2(as_mod_elem_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mod_elem_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_mod_long(x, y))), "long %= long"); }
JOB2(as_mod_field_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mod_field_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_mod_long(x, y))), "long %= long"); }
JOB2(as_mod_cvar_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mod_cvar_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_mod_long(x, y))), "long %= long"); }
JOB2(as_mod_ref_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int e = CALL(s, "as_mod_ref_long_long", 2); OK(e); if (y == 0) { vp_assert(same_long(get_long(), x), "a failed division leaves the destination unchanged"); return; } vp_assert(same_long(get_long(), (c_long)(spec_mod_long(x, y))), "long %= long"); }
JOB2(nest_int) { uint32_t a = sym_int("a"), b = sym_int("b"), c = sym_int("c"), d = sym_int("d"); set_int(0, a); set_int(1, b); set_int(2, c); set_int(3, d); OK(CALL(s, "nest_int", 4)); uint32_t w = (a + b) * (c - d) - (a * d + (0 - b)) * (c + 3); vp_assert(same_int(get_int(), w), "nested expression"); obs_int(get_int()); }
JOB2(nest_long) { uint64_t a = sym_long("a"), b = sym_long("b"), c = sym_long("c"), d = sym_long("d"); set_long(0, a); set_long(1, b); set_long(2, c); set_long(3, d); OK(CALL(s, "nest_long", 4)); uint64_t w = (a + b) * (c - d) - (a * d + (0 - b)) * (c + 3); vp_assert(same_long(get_long(), w), "nested expression"); obs_long(get_long()); }
