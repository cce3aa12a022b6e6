/*vp {"pc":"VP","time":120,"bounds":["every pair of numeric operand types and every operand value including NaN, infinities and signed zeros","object, string, undef, Bool and reference conditions"]} */
// generated by tools/gen_*.py
#include "lang.h"

JOB2(cmp_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); set_byte(0, x); set_byte(1, y); OK(CALL(s, "eq_byte_byte", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of byte == byte"); { int w = ((c_int)x) == ((c_int)y); set_byte(0, x); set_byte(1, y); OK(CALL(s, "if_eq_byte_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte == byte"); } set_byte(0, x); set_byte(1, y); OK(CALL(s, "ne_byte_byte", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of byte != byte"); { int w = ((c_int)x) != ((c_int)y); set_byte(0, x); set_byte(1, y); OK(CALL(s, "if_ne_byte_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte != byte"); } set_byte(0, x); set_byte(1, y); OK(CALL(s, "lt_byte_byte", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of byte < byte"); { int w = ((c_int)x) < ((c_int)y); set_byte(0, x); set_byte(1, y); OK(CALL(s, "if_lt_byte_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte < byte"); } set_byte(0, x); set_byte(1, y); OK(CALL(s, "le_byte_byte", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of byte <= byte"); { int w = ((c_int)x) <= ((c_int)y); set_byte(0, x); set_byte(1, y); OK(CALL(s, "if_le_byte_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte <= byte"); } set_byte(0, x); set_byte(1, y); OK(CALL(s, "gt_byte_byte", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of byte > byte"); { int w = ((c_int)x) > ((c_int)y); set_byte(0, x); set_byte(1, y); OK(CALL(s, "if_gt_byte_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte > byte"); } set_byte(0, x); set_byte(1, y); OK(CALL(s, "ge_byte_byte", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of byte >= byte"); { int w = ((c_int)x) >= ((c_int)y); set_byte(0, x); set_byte(1, y); OK(CALL(s, "if_ge_byte_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte >= byte"); } set_byte(0, x); set_byte(1, y); OK(CALL(s, "cmp_byte_byte", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "byte <=> byte"); vp_observe(get_int()); }
JOB2(cmp_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); set_byte(0, x); set_short(1, y); OK(CALL(s, "eq_byte_short", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of byte == short"); { int w = ((c_int)x) == ((c_int)y); set_byte(0, x); set_short(1, y); OK(CALL(s, "if_eq_byte_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte == short"); } set_byte(0, x); set_short(1, y); OK(CALL(s, "ne_byte_short", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of byte != short"); { int w = ((c_int)x) != ((c_int)y); set_byte(0, x); set_short(1, y); OK(CALL(s, "if_ne_byte_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte != short"); } set_byte(0, x); set_short(1, y); OK(CALL(s, "lt_byte_short", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of byte < short"); { int w = ((c_int)x) < ((c_int)y); set_byte(0, x); set_short(1, y); OK(CALL(s, "if_lt_byte_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte < short"); } set_byte(0, x); set_short(1, y); OK(CALL(s, "le_byte_short", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of byte <= short"); { int w = ((c_int)x) <= ((c_int)y); set_byte(0, x); set_short(1, y); OK(CALL(s, "if_le_byte_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte <= short"); } set_byte(0, x); set_short(1, y); OK(CALL(s, "gt_byte_short", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of byte > short"); { int w = ((c_int)x) > ((c_int)y); set_byte(0, x); set_short(1, y); OK(CALL(s, "if_gt_byte_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte > short"); } set_byte(0, x); set_short(1, y); OK(CALL(s, "ge_byte_short", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of byte >= short"); { int w = ((c_int)x) >= ((c_int)y); set_byte(0, x); set_short(1, y); OK(CALL(s, "if_ge_byte_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte >= short"); } set_byte(0, x); set_short(1, y); OK(CALL(s, "cmp_byte_short", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "byte <=> short"); vp_observe(get_int()); }
JOB2(cmp_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); set_byte(0, x); set_int(1, y); OK(CALL(s, "eq_byte_int", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of byte == int"); { int w = ((c_int)x) == ((c_int)y); set_byte(0, x); set_int(1, y); OK(CALL(s, "if_eq_byte_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte == int"); } set_byte(0, x); set_int(1, y); OK(CALL(s, "ne_byte_int", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of byte != int"); { int w = ((c_int)x) != ((c_int)y); set_byte(0, x); set_int(1, y); OK(CALL(s, "if_ne_byte_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte != int"); } set_byte(0, x); set_int(1, y); OK(CALL(s, "lt_byte_int", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of byte < int"); { int w = ((c_int)x) < ((c_int)y); set_byte(0, x); set_int(1, y); OK(CALL(s, "if_lt_byte_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte < int"); } set_byte(0, x); set_int(1, y); OK(CALL(s, "le_byte_int", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of byte <= int"); { int w = ((c_int)x) <= ((c_int)y); set_byte(0, x); set_int(1, y); OK(CALL(s, "if_le_byte_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte <= int"); } set_byte(0, x); set_int(1, y); OK(CALL(s, "gt_byte_int", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of byte > int"); { int w = ((c_int)x) > ((c_int)y); set_byte(0, x); set_int(1, y); OK(CALL(s, "if_gt_byte_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte > int"); } set_byte(0, x); set_int(1, y); OK(CALL(s, "ge_byte_int", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of byte >= int"); { int w = ((c_int)x) >= ((c_int)y); set_byte(0, x); set_int(1, y); OK(CALL(s, "if_ge_byte_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte >= int"); } set_byte(0, x); set_int(1, y); OK(CALL(s, "cmp_byte_int", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "byte <=> int"); vp_observe(get_int()); }
JOB2(cmp_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); set_byte(0, x); set_long(1, y); OK(CALL(s, "eq_byte_long", 2)); vp_assert(get_int() == (((c_long)x) == ((c_long)y)), "value of byte == long"); { int w = ((c_long)x) == ((c_long)y); set_byte(0, x); set_long(1, y); OK(CALL(s, "if_eq_byte_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte == long"); } set_byte(0, x); set_long(1, y); OK(CALL(s, "ne_byte_long", 2)); vp_assert(get_int() == (((c_long)x) != ((c_long)y)), "value of byte != long"); { int w = ((c_long)x) != ((c_long)y); set_byte(0, x); set_long(1, y); OK(CALL(s, "if_ne_byte_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte != long"); } set_byte(0, x); set_long(1, y); OK(CALL(s, "lt_byte_long", 2)); vp_assert(get_int() == (((c_long)x) < ((c_long)y)), "value of byte < long"); { int w = ((c_long)x) < ((c_long)y); set_byte(0, x); set_long(1, y); OK(CALL(s, "if_lt_byte_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte < long"); } set_byte(0, x); set_long(1, y); OK(CALL(s, "le_byte_long", 2)); vp_assert(get_int() == (((c_long)x) <= ((c_long)y)), "value of byte <= long"); { int w = ((c_long)x) <= ((c_long)y); set_byte(0, x); set_long(1, y); OK(CALL(s, "if_le_byte_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte <= long"); } set_byte(0, x); set_long(1, y); OK(CALL(s, "gt_byte_long", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y)), "value of byte > long"); { int w = ((c_long)x) > ((c_long)y); set_byte(0, x); set_long(1, y); OK(CALL(s, "if_gt_byte_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte > long"); } set_byte(0, x); set_long(1, y); OK(CALL(s, "ge_byte_long", 2)); vp_assert(get_int() == (((c_long)x) >= ((c_long)y)), "value of byte >= long"); { int w = ((c_long)x) >= ((c_long)y); set_byte(0, x); set_long(1, y); OK(CALL(s, "if_ge_byte_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte >= long"); } set_byte(0, x); set_long(1, y); OK(CALL(s, "cmp_byte_long", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y) ? 1 : ((c_long)x) < ((c_long)y) ? -1 : 0), "byte <=> long"); vp_observe(get_int()); }
JOB2(cmp_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); set_byte(0, x); set_float(1, y); OK(CALL(s, "eq_byte_float", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of byte == float"); { int w = ((c_float)x) == ((c_float)y); set_byte(0, x); set_float(1, y); OK(CALL(s, "if_eq_byte_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte == float"); } set_byte(0, x); set_float(1, y); OK(CALL(s, "ne_byte_float", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of byte != float"); { int w = ((c_float)x) != ((c_float)y); set_byte(0, x); set_float(1, y); OK(CALL(s, "if_ne_byte_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte != float"); } set_byte(0, x); set_float(1, y); OK(CALL(s, "lt_byte_float", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of byte < float"); { int w = ((c_float)x) < ((c_float)y); set_byte(0, x); set_float(1, y); OK(CALL(s, "if_lt_byte_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte < float"); } set_byte(0, x); set_float(1, y); OK(CALL(s, "le_byte_float", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of byte <= float"); { int w = ((c_float)x) <= ((c_float)y); set_byte(0, x); set_float(1, y); OK(CALL(s, "if_le_byte_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte <= float"); } set_byte(0, x); set_float(1, y); OK(CALL(s, "gt_byte_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of byte > float"); { int w = ((c_float)x) > ((c_float)y); set_byte(0, x); set_float(1, y); OK(CALL(s, "if_gt_byte_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte > float"); } set_byte(0, x); set_float(1, y); OK(CALL(s, "ge_byte_float", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of byte >= float"); { int w = ((c_float)x) >= ((c_float)y); set_byte(0, x); set_float(1, y); OK(CALL(s, "if_ge_byte_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte >= float"); } set_byte(0, x); set_float(1, y); OK(CALL(s, "cmp_byte_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "byte <=> float"); vp_observe(get_int()); }
JOB2(cmp_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); set_byte(0, x); set_double(1, y); OK(CALL(s, "eq_byte_double", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of byte == double"); { int w = ((c_double)x) == ((c_double)y); set_byte(0, x); set_double(1, y); OK(CALL(s, "if_eq_byte_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte == double"); } set_byte(0, x); set_double(1, y); OK(CALL(s, "ne_byte_double", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of byte != double"); { int w = ((c_double)x) != ((c_double)y); set_byte(0, x); set_double(1, y); OK(CALL(s, "if_ne_byte_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte != double"); } set_byte(0, x); set_double(1, y); OK(CALL(s, "lt_byte_double", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of byte < double"); { int w = ((c_double)x) < ((c_double)y); set_byte(0, x); set_double(1, y); OK(CALL(s, "if_lt_byte_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte < double"); } set_byte(0, x); set_double(1, y); OK(CALL(s, "le_byte_double", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of byte <= double"); { int w = ((c_double)x) <= ((c_double)y); set_byte(0, x); set_double(1, y); OK(CALL(s, "if_le_byte_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte <= double"); } set_byte(0, x); set_double(1, y); OK(CALL(s, "gt_byte_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of byte > double"); { int w = ((c_double)x) > ((c_double)y); set_byte(0, x); set_double(1, y); OK(CALL(s, "if_gt_byte_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte > double"); } set_byte(0, x); set_double(1, y); OK(CALL(s, "ge_byte_double", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of byte >= double"); { int w = ((c_double)x) >= ((c_double)y); set_byte(0, x); set_double(1, y); OK(CALL(s, "if_ge_byte_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on byte >= double"); } set_byte(0, x); set_double(1, y); OK(CALL(s, "cmp_byte_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "byte <=> double"); vp_observe(get_int()); }
JOB2(cmp_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); set_short(0, x); set_byte(1, y); OK(CALL(s, "eq_short_byte", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of short == byte"); { int w = ((c_int)x) == ((c_int)y); set_short(0, x); set_byte(1, y); OK(CALL(s, "if_eq_short_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short == byte"); } set_short(0, x); set_byte(1, y); OK(CALL(s, "ne_short_byte", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of short != byte"); { int w = ((c_int)x) != ((c_int)y); set_short(0, x); set_byte(1, y); OK(CALL(s, "if_ne_short_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short != byte"); } set_short(0, x); set_byte(1, y); OK(CALL(s, "lt_short_byte", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of short < byte"); { int w = ((c_int)x) < ((c_int)y); set_short(0, x); set_byte(1, y); OK(CALL(s, "if_lt_short_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short < byte"); } set_short(0, x); set_byte(1, y); OK(CALL(s, "le_short_byte", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of short <= byte"); { int w = ((c_int)x) <= ((c_int)y); set_short(0, x); set_byte(1, y); OK(CALL(s, "if_le_short_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short <= byte"); } set_short(0, x); set_byte(1, y); OK(CALL(s, "gt_short_byte", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of short > byte"); { int w = ((c_int)x) > ((c_int)y); set_short(0, x); set_byte(1, y); OK(CALL(s, "if_gt_short_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short > byte"); } set_short(0, x); set_byte(1, y); OK(CALL(s, "ge_short_byte", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of short >= byte"); { int w = ((c_int)x) >= ((c_int)y); set_short(0, x); set_byte(1, y); OK(CALL(s, "if_ge_short_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short >= byte"); } set_short(0, x); set_byte(1, y); OK(CALL(s, "cmp_short_byte", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "short <=> byte"); vp_observe(get_int()); }
JOB2(cmp_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); set_short(0, x); set_short(1, y); OK(CALL(s, "eq_short_short", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of short == short"); { int w = ((c_int)x) == ((c_int)y); set_short(0, x); set_short(1, y); OK(CALL(s, "if_eq_short_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short == short"); } set_short(0, x); set_short(1, y); OK(CALL(s, "ne_short_short", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of short != short"); { int w = ((c_int)x) != ((c_int)y); set_short(0, x); set_short(1, y); OK(CALL(s, "if_ne_short_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short != short"); } set_short(0, x); set_short(1, y); OK(CALL(s, "lt_short_short", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of short < short"); { int w = ((c_int)x) < ((c_int)y); set_short(0, x); set_short(1, y); OK(CALL(s, "if_lt_short_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short < short"); } set_short(0, x); set_short(1, y); OK(CALL(s, "le_short_short", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of short <= short"); { int w = ((c_int)x) <= ((c_int)y); set_short(0, x); set_short(1, y); OK(CALL(s, "if_le_short_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short <= short"); } set_short(0, x); set_short(1, y); OK(CALL(s, "gt_short_short", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of short > short"); { int w = ((c_int)x) > ((c_int)y); set_short(0, x); set_short(1, y); OK(CALL(s, "if_gt_short_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short > short"); } set_short(0, x); set_short(1, y); OK(CALL(s, "ge_short_short", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of short >= short"); { int w = ((c_int)x) >= ((c_int)y); set_short(0, x); set_short(1, y); OK(CALL(s, "if_ge_short_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short >= short"); } set_short(0, x); set_short(1, y); OK(CALL(s, "cmp_short_short", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "short <=> short"); vp_observe(get_int()); }
JOB2(cmp_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); set_short(0, x); set_int(1, y); OK(CALL(s, "eq_short_int", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of short == int"); { int w = ((c_int)x) == ((c_int)y); set_short(0, x); set_int(1, y); OK(CALL(s, "if_eq_short_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short == int"); } set_short(0, x); set_int(1, y); OK(CALL(s, "ne_short_int", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of short != int"); { int w = ((c_int)x) != ((c_int)y); set_short(0, x); set_int(1, y); OK(CALL(s, "if_ne_short_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short != int"); } set_short(0, x); set_int(1, y); OK(CALL(s, "lt_short_int", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of short < int"); { int w = ((c_int)x) < ((c_int)y); set_short(0, x); set_int(1, y); OK(CALL(s, "if_lt_short_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short < int"); } set_short(0, x); set_int(1, y); OK(CALL(s, "le_short_int", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of short <= int"); { int w = ((c_int)x) <= ((c_int)y); set_short(0, x); set_int(1, y); OK(CALL(s, "if_le_short_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short <= int"); } set_short(0, x); set_int(1, y); OK(CALL(s, "gt_short_int", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of short > int"); { int w = ((c_int)x) > ((c_int)y); set_short(0, x); set_int(1, y); OK(CALL(s, "if_gt_short_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short > int"); } set_short(0, x); set_int(1, y); OK(CALL(s, "ge_short_int", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of short >= int"); { int w = ((c_int)x) >= ((c_int)y); set_short(0, x); set_int(1, y); OK(CALL(s, "if_ge_short_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short >= int"); } set_short(0, x); set_int(1, y); OK(CALL(s, "cmp_short_int", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "short <=> int"); vp_observe(get_int()); }
JOB2(cmp_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); set_short(0, x); set_long(1, y); OK(CALL(s, "eq_short_long", 2)); vp_assert(get_int() == (((c_long)x) == ((c_long)y)), "value of short == long"); { int w = ((c_long)x) == ((c_long)y); set_short(0, x); set_long(1, y); OK(CALL(s, "if_eq_short_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short == long"); } set_short(0, x); set_long(1, y); OK(CALL(s, "ne_short_long", 2)); vp_assert(get_int() == (((c_long)x) != ((c_long)y)), "value of short != long"); { int w = ((c_long)x) != ((c_long)y); set_short(0, x); set_long(1, y); OK(CALL(s, "if_ne_short_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short != long"); } set_short(0, x); set_long(1, y); OK(CALL(s, "lt_short_long", 2)); vp_assert(get_int() == (((c_long)x) < ((c_long)y)), "value of short < long"); { int w = ((c_long)x) < ((c_long)y); set_short(0, x); set_long(1, y); OK(CALL(s, "if_lt_short_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short < long"); } set_short(0, x); set_long(1, y); OK(CALL(s, "le_short_long", 2)); vp_assert(get_int() == (((c_long)x) <= ((c_long)y)), "value of short <= long"); { int w = ((c_long)x) <= ((c_long)y); set_short(0, x); set_long(1, y); OK(CALL(s, "if_le_short_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short <= long"); } set_short(0, x); set_long(1, y); OK(CALL(s, "gt_short_long", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y)), "value of short > long"); { int w = ((c_long)x) > ((c_long)y); set_short(0, x); set_long(1, y); OK(CALL(s, "if_gt_short_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short > long"); } set_short(0, x); set_long(1, y); OK(CALL(s, "ge_short_long", 2)); vp_assert(get_int() == (((c_long)x) >= ((c_long)y)), "value of short >= long"); { int w = ((c_long)x) >= ((c_long)y); set_short(0, x); set_long(1, y); OK(CALL(s, "if_ge_short_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short >= long"); } set_short(0, x); set_long(1, y); OK(CALL(s, "cmp_short_long", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y) ? 1 : ((c_long)x) < ((c_long)y) ? -1 : 0), "short <=> long"); vp_observe(get_int()); }
JOB2(cmp_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); set_short(0, x); set_float(1, y); OK(CALL(s, "eq_short_float", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of short == float"); { int w = ((c_float)x) == ((c_float)y); set_short(0, x); set_float(1, y); OK(CALL(s, "if_eq_short_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short == float"); } set_short(0, x); set_float(1, y); OK(CALL(s, "ne_short_float", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of short != float"); { int w = ((c_float)x) != ((c_float)y); set_short(0, x); set_float(1, y); OK(CALL(s, "if_ne_short_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short != float"); } set_short(0, x); set_float(1, y); OK(CALL(s, "lt_short_float", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of short < float"); { int w = ((c_float)x) < ((c_float)y); set_short(0, x); set_float(1, y); OK(CALL(s, "if_lt_short_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short < float"); } set_short(0, x); set_float(1, y); OK(CALL(s, "le_short_float", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of short <= float"); { int w = ((c_float)x) <= ((c_float)y); set_short(0, x); set_float(1, y); OK(CALL(s, "if_le_short_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short <= float"); } set_short(0, x); set_float(1, y); OK(CALL(s, "gt_short_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of short > float"); { int w = ((c_float)x) > ((c_float)y); set_short(0, x); set_float(1, y); OK(CALL(s, "if_gt_short_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short > float"); } set_short(0, x); set_float(1, y); OK(CALL(s, "ge_short_float", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of short >= float"); { int w = ((c_float)x) >= ((c_float)y); set_short(0, x); set_float(1, y); OK(CALL(s, "if_ge_short_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short >= float"); } set_short(0, x); set_float(1, y); OK(CALL(s, "cmp_short_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "short <=> float"); vp_observe(get_int()); }
JOB2(cmp_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); set_short(0, x); set_double(1, y); OK(CALL(s, "eq_short_double", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of short == double"); { int w = ((c_double)x) == ((c_double)y); set_short(0, x); set_double(1, y); OK(CALL(s, "if_eq_short_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short == double"); } set_short(0, x); set_double(1, y); OK(CALL(s, "ne_short_double", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of short != double"); { int w = ((c_double)x) != ((c_double)y); set_short(0, x); set_double(1, y); OK(CALL(s, "if_ne_short_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short != double"); } set_short(0, x); set_double(1, y); OK(CALL(s, "lt_short_double", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of short < double"); { int w = ((c_double)x) < ((c_double)y); set_short(0, x); set_double(1, y); OK(CALL(s, "if_lt_short_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short < double"); } set_short(0, x); set_double(1, y); OK(CALL(s, "le_short_double", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of short <= double"); { int w = ((c_double)x) <= ((c_double)y); set_short(0, x); set_double(1, y); OK(CALL(s, "if_le_short_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short <= double"); } set_short(0, x); set_double(1, y); OK(CALL(s, "gt_short_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of short > double"); { int w = ((c_double)x) > ((c_double)y); set_short(0, x); set_double(1, y); OK(CALL(s, "if_gt_short_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short > double"); } set_short(0, x); set_double(1, y); OK(CALL(s, "ge_short_double", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of short >= double"); { int w = ((c_double)x) >= ((c_double)y); set_short(0, x); set_double(1, y); OK(CALL(s, "if_ge_short_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on short >= double"); } set_short(0, x); set_double(1, y); OK(CALL(s, "cmp_short_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "short <=> double"); vp_observe(get_int()); }
JOB2(cmp_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); set_int(0, x); set_byte(1, y); OK(CALL(s, "eq_int_byte", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of int == byte"); { int w = ((c_int)x) == ((c_int)y); set_int(0, x); set_byte(1, y); OK(CALL(s, "if_eq_int_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int == byte"); } set_int(0, x); set_byte(1, y); OK(CALL(s, "ne_int_byte", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of int != byte"); { int w = ((c_int)x) != ((c_int)y); set_int(0, x); set_byte(1, y); OK(CALL(s, "if_ne_int_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int != byte"); } set_int(0, x); set_byte(1, y); OK(CALL(s, "lt_int_byte", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of int < byte"); { int w = ((c_int)x) < ((c_int)y); set_int(0, x); set_byte(1, y); OK(CALL(s, "if_lt_int_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int < byte"); } set_int(0, x); set_byte(1, y); OK(CALL(s, "le_int_byte", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of int <= byte"); { int w = ((c_int)x) <= ((c_int)y); set_int(0, x); set_byte(1, y); OK(CALL(s, "if_le_int_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int <= byte"); } set_int(0, x); set_byte(1, y); OK(CALL(s, "gt_int_byte", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of int > byte"); { int w = ((c_int)x) > ((c_int)y); set_int(0, x); set_byte(1, y); OK(CALL(s, "if_gt_int_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int > byte"); } set_int(0, x); set_byte(1, y); OK(CALL(s, "ge_int_byte", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of int >= byte"); { int w = ((c_int)x) >= ((c_int)y); set_int(0, x); set_byte(1, y); OK(CALL(s, "if_ge_int_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int >= byte"); } set_int(0, x); set_byte(1, y); OK(CALL(s, "cmp_int_byte", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "int <=> byte"); vp_observe(get_int()); }
JOB2(cmp_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); set_int(0, x); set_short(1, y); OK(CALL(s, "eq_int_short", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of int == short"); { int w = ((c_int)x) == ((c_int)y); set_int(0, x); set_short(1, y); OK(CALL(s, "if_eq_int_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int == short"); } set_int(0, x); set_short(1, y); OK(CALL(s, "ne_int_short", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of int != short"); { int w = ((c_int)x) != ((c_int)y); set_int(0, x); set_short(1, y); OK(CALL(s, "if_ne_int_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int != short"); } set_int(0, x); set_short(1, y); OK(CALL(s, "lt_int_short", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of int < short"); { int w = ((c_int)x) < ((c_int)y); set_int(0, x); set_short(1, y); OK(CALL(s, "if_lt_int_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int < short"); } set_int(0, x); set_short(1, y); OK(CALL(s, "le_int_short", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of int <= short"); { int w = ((c_int)x) <= ((c_int)y); set_int(0, x); set_short(1, y); OK(CALL(s, "if_le_int_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int <= short"); } set_int(0, x); set_short(1, y); OK(CALL(s, "gt_int_short", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of int > short"); { int w = ((c_int)x) > ((c_int)y); set_int(0, x); set_short(1, y); OK(CALL(s, "if_gt_int_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int > short"); } set_int(0, x); set_short(1, y); OK(CALL(s, "ge_int_short", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of int >= short"); { int w = ((c_int)x) >= ((c_int)y); set_int(0, x); set_short(1, y); OK(CALL(s, "if_ge_int_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int >= short"); } set_int(0, x); set_short(1, y); OK(CALL(s, "cmp_int_short", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "int <=> short"); vp_observe(get_int()); }
JOB2(cmp_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); set_int(0, x); set_int(1, y); OK(CALL(s, "eq_int_int", 2)); vp_assert(get_int() == (((c_int)x) == ((c_int)y)), "value of int == int"); { int w = ((c_int)x) == ((c_int)y); set_int(0, x); set_int(1, y); OK(CALL(s, "if_eq_int_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int == int"); } set_int(0, x); set_int(1, y); OK(CALL(s, "ne_int_int", 2)); vp_assert(get_int() == (((c_int)x) != ((c_int)y)), "value of int != int"); { int w = ((c_int)x) != ((c_int)y); set_int(0, x); set_int(1, y); OK(CALL(s, "if_ne_int_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int != int"); } set_int(0, x); set_int(1, y); OK(CALL(s, "lt_int_int", 2)); vp_assert(get_int() == (((c_int)x) < ((c_int)y)), "value of int < int"); { int w = ((c_int)x) < ((c_int)y); set_int(0, x); set_int(1, y); OK(CALL(s, "if_lt_int_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int < int"); } set_int(0, x); set_int(1, y); OK(CALL(s, "le_int_int", 2)); vp_assert(get_int() == (((c_int)x) <= ((c_int)y)), "value of int <= int"); { int w = ((c_int)x) <= ((c_int)y); set_int(0, x); set_int(1, y); OK(CALL(s, "if_le_int_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int <= int"); } set_int(0, x); set_int(1, y); OK(CALL(s, "gt_int_int", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y)), "value of int > int"); { int w = ((c_int)x) > ((c_int)y); set_int(0, x); set_int(1, y); OK(CALL(s, "if_gt_int_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int > int"); } set_int(0, x); set_int(1, y); OK(CALL(s, "ge_int_int", 2)); vp_assert(get_int() == (((c_int)x) >= ((c_int)y)), "value of int >= int"); { int w = ((c_int)x) >= ((c_int)y); set_int(0, x); set_int(1, y); OK(CALL(s, "if_ge_int_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int >= int"); } set_int(0, x); set_int(1, y); OK(CALL(s, "cmp_int_int", 2)); vp_assert(get_int() == (((c_int)x) > ((c_int)y) ? 1 : ((c_int)x) < ((c_int)y) ? -1 : 0), "int <=> int"); vp_observe(get_int()); }
JOB2(cmp_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); set_int(0, x); set_long(1, y); OK(CALL(s, "eq_int_long", 2)); vp_assert(get_int() == (((c_long)x) == ((c_long)y)), "value of int == long"); { int w = ((c_long)x) == ((c_long)y); set_int(0, x); set_long(1, y); OK(CALL(s, "if_eq_int_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int == long"); } set_int(0, x); set_long(1, y); OK(CALL(s, "ne_int_long", 2)); vp_assert(get_int() == (((c_long)x) != ((c_long)y)), "value of int != long"); { int w = ((c_long)x) != ((c_long)y); set_int(0, x); set_long(1, y); OK(CALL(s, "if_ne_int_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int != long"); } set_int(0, x); set_long(1, y); OK(CALL(s, "lt_int_long", 2)); vp_assert(get_int() == (((c_long)x) < ((c_long)y)), "value of int < long"); { int w = ((c_long)x) < ((c_long)y); set_int(0, x); set_long(1, y); OK(CALL(s, "if_lt_int_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int < long"); } set_int(0, x); set_long(1, y); OK(CALL(s, "le_int_long", 2)); vp_assert(get_int() == (((c_long)x) <= ((c_long)y)), "value of int <= long"); { int w = ((c_long)x) <= ((c_long)y); set_int(0, x); set_long(1, y); OK(CALL(s, "if_le_int_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int <= long"); } set_int(0, x); set_long(1, y); OK(CALL(s, "gt_int_long", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y)), "value of int > long"); { int w = ((c_long)x) > ((c_long)y); set_int(0, x); set_long(1, y); OK(CALL(s, "if_gt_int_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int > long"); } set_int(0, x); set_long(1, y); OK(CALL(s, "ge_int_long", 2)); vp_assert(get_int() == (((c_long)x) >= ((c_long)y)), "value of int >= long"); { int w = ((c_long)x) >= ((c_long)y); set_int(0, x); set_long(1, y); OK(CALL(s, "if_ge_int_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int >= long"); } set_int(0, x); set_long(1, y); OK(CALL(s, "cmp_int_long", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y) ? 1 : ((c_long)x) < ((c_long)y) ? -1 : 0), "int <=> long"); vp_observe(get_int()); }
JOB2(cmp_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); set_int(0, x); set_float(1, y); OK(CALL(s, "eq_int_float", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of int == float"); { int w = ((c_float)x) == ((c_float)y); set_int(0, x); set_float(1, y); OK(CALL(s, "if_eq_int_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int == float"); } set_int(0, x); set_float(1, y); OK(CALL(s, "ne_int_float", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of int != float"); { int w = ((c_float)x) != ((c_float)y); set_int(0, x); set_float(1, y); OK(CALL(s, "if_ne_int_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int != float"); } set_int(0, x); set_float(1, y); OK(CALL(s, "lt_int_float", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of int < float"); { int w = ((c_float)x) < ((c_float)y); set_int(0, x); set_float(1, y); OK(CALL(s, "if_lt_int_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int < float"); } set_int(0, x); set_float(1, y); OK(CALL(s, "le_int_float", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of int <= float"); { int w = ((c_float)x) <= ((c_float)y); set_int(0, x); set_float(1, y); OK(CALL(s, "if_le_int_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int <= float"); } set_int(0, x); set_float(1, y); OK(CALL(s, "gt_int_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of int > float"); { int w = ((c_float)x) > ((c_float)y); set_int(0, x); set_float(1, y); OK(CALL(s, "if_gt_int_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int > float"); } set_int(0, x); set_float(1, y); OK(CALL(s, "ge_int_float", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of int >= float"); { int w = ((c_float)x) >= ((c_float)y); set_int(0, x); set_float(1, y); OK(CALL(s, "if_ge_int_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int >= float"); } set_int(0, x); set_float(1, y); OK(CALL(s, "cmp_int_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "int <=> float"); vp_observe(get_int()); }
JOB2(cmp_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); set_int(0, x); set_double(1, y); OK(CALL(s, "eq_int_double", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of int == double"); { int w = ((c_double)x) == ((c_double)y); set_int(0, x); set_double(1, y); OK(CALL(s, "if_eq_int_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int == double"); } set_int(0, x); set_double(1, y); OK(CALL(s, "ne_int_double", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of int != double"); { int w = ((c_double)x) != ((c_double)y); set_int(0, x); set_double(1, y); OK(CALL(s, "if_ne_int_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int != double"); } set_int(0, x); set_double(1, y); OK(CALL(s, "lt_int_double", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of int < double"); { int w = ((c_double)x) < ((c_double)y); set_int(0, x); set_double(1, y); OK(CALL(s, "if_lt_int_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int < double"); } set_int(0, x); set_double(1, y); OK(CALL(s, "le_int_double", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of int <= double"); { int w = ((c_double)x) <= ((c_double)y); set_int(0, x); set_double(1, y); OK(CALL(s, "if_le_int_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int <= double"); } set_int(0, x); set_double(1, y); OK(CALL(s, "gt_int_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of int > double"); { int w = ((c_double)x) > ((c_double)y); set_int(0, x); set_double(1, y); OK(CALL(s, "if_gt_int_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int > double"); } set_int(0, x); set_double(1, y); OK(CALL(s, "ge_int_double", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of int >= double"); { int w = ((c_double)x) >= ((c_double)y); set_int(0, x); set_double(1, y); OK(CALL(s, "if_ge_int_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on int >= double"); } set_int(0, x); set_double(1, y); OK(CALL(s, "cmp_int_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "int <=> double"); vp_observe(get_int()); }
JOB2(cmp_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); set_long(0, x); set_byte(1, y); OK(CALL(s, "eq_long_byte", 2)); vp_assert(get_int() == (((c_long)x) == ((c_long)y)), "value of long == byte"); { int w = ((c_long)x) == ((c_long)y); set_long(0, x); set_byte(1, y); OK(CALL(s, "if_eq_long_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long == byte"); } set_long(0, x); set_byte(1, y); OK(CALL(s, "ne_long_byte", 2)); vp_assert(get_int() == (((c_long)x) != ((c_long)y)), "value of long != byte"); { int w = ((c_long)x) != ((c_long)y); set_long(0, x); set_byte(1, y); OK(CALL(s, "if_ne_long_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long != byte"); } set_long(0, x); set_byte(1, y); OK(CALL(s, "lt_long_byte", 2)); vp_assert(get_int() == (((c_long)x) < ((c_long)y)), "value of long < byte"); { int w = ((c_long)x) < ((c_long)y); set_long(0, x); set_byte(1, y); OK(CALL(s, "if_lt_long_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long < byte"); } set_long(0, x); set_byte(1, y); OK(CALL(s, "le_long_byte", 2)); vp_assert(get_int() == (((c_long)x) <= ((c_long)y)), "value of long <= byte"); { int w = ((c_long)x) <= ((c_long)y); set_long(0, x); set_byte(1, y); OK(CALL(s, "if_le_long_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long <= byte"); } set_long(0, x); set_byte(1, y); OK(CALL(s, "gt_long_byte", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y)), "value of long > byte"); { int w = ((c_long)x) > ((c_long)y); set_long(0, x); set_byte(1, y); OK(CALL(s, "if_gt_long_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long > byte"); } set_long(0, x); set_byte(1, y); OK(CALL(s, "ge_long_byte", 2)); vp_assert(get_int() == (((c_long)x) >= ((c_long)y)), "value of long >= byte"); { int w = ((c_long)x) >= ((c_long)y); set_long(0, x); set_byte(1, y); OK(CALL(s, "if_ge_long_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long >= byte"); } set_long(0, x); set_byte(1, y); OK(CALL(s, "cmp_long_byte", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y) ? 1 : ((c_long)x) < ((c_long)y) ? -1 : 0), "long <=> byte"); vp_observe(get_int()); }
JOB2(cmp_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); set_long(0, x); set_short(1, y); OK(CALL(s, "eq_long_short", 2)); vp_assert(get_int() == (((c_long)x) == ((c_long)y)), "value of long == short"); { int w = ((c_long)x) == ((c_long)y); set_long(0, x); set_short(1, y); OK(CALL(s, "if_eq_long_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long == short"); } set_long(0, x); set_short(1, y); OK(CALL(s, "ne_long_short", 2)); vp_assert(get_int() == (((c_long)x) != ((c_long)y)), "value of long != short"); { int w = ((c_long)x) != ((c_long)y); set_long(0, x); set_short(1, y); OK(CALL(s, "if_ne_long_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long != short"); } set_long(0, x); set_short(1, y); OK(CALL(s, "lt_long_short", 2)); vp_assert(get_int() == (((c_long)x) < ((c_long)y)), "value of long < short"); { int w = ((c_long)x) < ((c_long)y); set_long(0, x); set_short(1, y); OK(CALL(s, "if_lt_long_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long < short"); } set_long(0, x); set_short(1, y); OK(CALL(s, "le_long_short", 2)); vp_assert(get_int() == (((c_long)x) <= ((c_long)y)), "value of long <= short"); { int w = ((c_long)x) <= ((c_long)y); set_long(0, x); set_short(1, y); OK(CALL(s, "if_le_long_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long <= short"); } set_long(0, x); set_short(1, y); OK(CALL(s, "gt_long_short", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y)), "value of long > short"); { int w = ((c_long)x) > ((c_long)y); set_long(0, x); set_short(1, y); OK(CALL(s, "if_gt_long_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long > short"); } set_long(0, x); set_short(1, y); OK(CALL(s, "ge_long_short", 2)); vp_assert(get_int() == (((c_long)x) >= ((c_long)y)), "value of long >= short"); { int w = ((c_long)x) >= ((c_long)y); set_long(0, x); set_short(1, y); OK(CALL(s, "if_ge_long_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long >= short"); } set_long(0, x); set_short(1, y); OK(CALL(s, "cmp_long_short", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y) ? 1 : ((c_long)x) < ((c_long)y) ? -1 : 0), "long <=> short"); vp_observe(get_int()); }
JOB2(cmp_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); set_long(0, x); set_int(1, y); OK(CALL(s, "eq_long_int", 2)); vp_assert(get_int() == (((c_long)x) == ((c_long)y)), "value of long == int"); { int w = ((c_long)x) == ((c_long)y); set_long(0, x); set_int(1, y); OK(CALL(s, "if_eq_long_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long == int"); } set_long(0, x); set_int(1, y); OK(CALL(s, "ne_long_int", 2)); vp_assert(get_int() == (((c_long)x) != ((c_long)y)), "value of long != int"); { int w = ((c_long)x) != ((c_long)y); set_long(0, x); set_int(1, y); OK(CALL(s, "if_ne_long_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long != int"); } set_long(0, x); set_int(1, y); OK(CALL(s, "lt_long_int", 2)); vp_assert(get_int() == (((c_long)x) < ((c_long)y)), "value of long < int"); { int w = ((c_long)x) < ((c_long)y); set_long(0, x); set_int(1, y); OK(CALL(s, "if_lt_long_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long < int"); } set_long(0, x); set_int(1, y); OK(CALL(s, "le_long_int", 2)); vp_assert(get_int() == (((c_long)x) <= ((c_long)y)), "value of long <= int"); { int w = ((c_long)x) <= ((c_long)y); set_long(0, x); set_int(1, y); OK(CALL(s, "if_le_long_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long <= int"); } set_long(0, x); set_int(1, y); OK(CALL(s, "gt_long_int", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y)), "value of long > int"); { int w = ((c_long)x) > ((c_long)y); set_long(0, x); set_int(1, y); OK(CALL(s, "if_gt_long_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long > int"); } set_long(0, x); set_int(1, y); OK(CALL(s, "ge_long_int", 2)); vp_assert(get_int() == (((c_long)x) >= ((c_long)y)), "value of long >= int"); { int w = ((c_long)x) >= ((c_long)y); set_long(0, x); set_int(1, y); OK(CALL(s, "if_ge_long_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long >= int"); } set_long(0, x); set_int(1, y); OK(CALL(s, "cmp_long_int", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y) ? 1 : ((c_long)x) < ((c_long)y) ? -1 : 0), "long <=> int"); vp_observe(get_int()); }
JOB2(cmp_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); set_long(0, x); set_long(1, y); OK(CALL(s, "eq_long_long", 2)); vp_assert(get_int() == (((c_long)x) == ((c_long)y)), "value of long == long"); { int w = ((c_long)x) == ((c_long)y); set_long(0, x); set_long(1, y); OK(CALL(s, "if_eq_long_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long == long"); } set_long(0, x); set_long(1, y); OK(CALL(s, "ne_long_long", 2)); vp_assert(get_int() == (((c_long)x) != ((c_long)y)), "value of long != long"); { int w = ((c_long)x) != ((c_long)y); set_long(0, x); set_long(1, y); OK(CALL(s, "if_ne_long_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long != long"); } set_long(0, x); set_long(1, y); OK(CALL(s, "lt_long_long", 2)); vp_assert(get_int() == (((c_long)x) < ((c_long)y)), "value of long < long"); { int w = ((c_long)x) < ((c_long)y); set_long(0, x); set_long(1, y); OK(CALL(s, "if_lt_long_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long < long"); } set_long(0, x); set_long(1, y); OK(CALL(s, "le_long_long", 2)); vp_assert(get_int() == (((c_long)x) <= ((c_long)y)), "value of long <= long"); { int w = ((c_long)x) <= ((c_long)y); set_long(0, x); set_long(1, y); OK(CALL(s, "if_le_long_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long <= long"); } set_long(0, x); set_long(1, y); OK(CALL(s, "gt_long_long", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y)), "value of long > long"); { int w = ((c_long)x) > ((c_long)y); set_long(0, x); set_long(1, y); OK(CALL(s, "if_gt_long_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long > long"); } set_long(0, x); set_long(1, y); OK(CALL(s, "ge_long_long", 2)); vp_assert(get_int() == (((c_long)x) >= ((c_long)y)), "value of long >= long"); { int w = ((c_long)x) >= ((c_long)y); set_long(0, x); set_long(1, y); OK(CALL(s, "if_ge_long_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long >= long"); } set_long(0, x); set_long(1, y); OK(CALL(s, "cmp_long_long", 2)); vp_assert(get_int() == (((c_long)x) > ((c_long)y) ? 1 : ((c_long)x) < ((c_long)y) ? -1 : 0), "long <=> long"); vp_observe(get_int()); }
JOB2(cmp_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); set_long(0, x); set_float(1, y); OK(CALL(s, "eq_long_float", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of long == float"); { int w = ((c_float)x) == ((c_float)y); set_long(0, x); set_float(1, y); OK(CALL(s, "if_eq_long_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long == float"); } set_long(0, x); set_float(1, y); OK(CALL(s, "ne_long_float", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of long != float"); { int w = ((c_float)x) != ((c_float)y); set_long(0, x); set_float(1, y); OK(CALL(s, "if_ne_long_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long != float"); } set_long(0, x); set_float(1, y); OK(CALL(s, "lt_long_float", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of long < float"); { int w = ((c_float)x) < ((c_float)y); set_long(0, x); set_float(1, y); OK(CALL(s, "if_lt_long_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long < float"); } set_long(0, x); set_float(1, y); OK(CALL(s, "le_long_float", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of long <= float"); { int w = ((c_float)x) <= ((c_float)y); set_long(0, x); set_float(1, y); OK(CALL(s, "if_le_long_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long <= float"); } set_long(0, x); set_float(1, y); OK(CALL(s, "gt_long_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of long > float"); { int w = ((c_float)x) > ((c_float)y); set_long(0, x); set_float(1, y); OK(CALL(s, "if_gt_long_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long > float"); } set_long(0, x); set_float(1, y); OK(CALL(s, "ge_long_float", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of long >= float"); { int w = ((c_float)x) >= ((c_float)y); set_long(0, x); set_float(1, y); OK(CALL(s, "if_ge_long_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long >= float"); } set_long(0, x); set_float(1, y); OK(CALL(s, "cmp_long_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "long <=> float"); vp_observe(get_int()); }
JOB2(cmp_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); set_long(0, x); set_double(1, y); OK(CALL(s, "eq_long_double", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of long == double"); { int w = ((c_double)x) == ((c_double)y); set_long(0, x); set_double(1, y); OK(CALL(s, "if_eq_long_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long == double"); } set_long(0, x); set_double(1, y); OK(CALL(s, "ne_long_double", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of long != double"); { int w = ((c_double)x) != ((c_double)y); set_long(0, x); set_double(1, y); OK(CALL(s, "if_ne_long_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long != double"); } set_long(0, x); set_double(1, y); OK(CALL(s, "lt_long_double", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of long < double"); { int w = ((c_double)x) < ((c_double)y); set_long(0, x); set_double(1, y); OK(CALL(s, "if_lt_long_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long < double"); } set_long(0, x); set_double(1, y); OK(CALL(s, "le_long_double", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of long <= double"); { int w = ((c_double)x) <= ((c_double)y); set_long(0, x); set_double(1, y); OK(CALL(s, "if_le_long_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long <= double"); } set_long(0, x); set_double(1, y); OK(CALL(s, "gt_long_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of long > double"); { int w = ((c_double)x) > ((c_double)y); set_long(0, x); set_double(1, y); OK(CALL(s, "if_gt_long_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long > double"); } set_long(0, x); set_double(1, y); OK(CALL(s, "ge_long_double", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of long >= double"); { int w = ((c_double)x) >= ((c_double)y); set_long(0, x); set_double(1, y); OK(CALL(s, "if_ge_long_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on long >= double"); } set_long(0, x); set_double(1, y); OK(CALL(s, "cmp_long_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "long <=> double"); vp_observe(get_int()); }
JOB2(cmp_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); set_float(0, x); set_byte(1, y); OK(CALL(s, "eq_float_byte", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of float == byte"); { int w = ((c_float)x) == ((c_float)y); set_float(0, x); set_byte(1, y); OK(CALL(s, "if_eq_float_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float == byte"); } set_float(0, x); set_byte(1, y); OK(CALL(s, "ne_float_byte", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of float != byte"); { int w = ((c_float)x) != ((c_float)y); set_float(0, x); set_byte(1, y); OK(CALL(s, "if_ne_float_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float != byte"); } set_float(0, x); set_byte(1, y); OK(CALL(s, "lt_float_byte", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of float < byte"); { int w = ((c_float)x) < ((c_float)y); set_float(0, x); set_byte(1, y); OK(CALL(s, "if_lt_float_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float < byte"); } set_float(0, x); set_byte(1, y); OK(CALL(s, "le_float_byte", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of float <= byte"); { int w = ((c_float)x) <= ((c_float)y); set_float(0, x); set_byte(1, y); OK(CALL(s, "if_le_float_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float <= byte"); } set_float(0, x); set_byte(1, y); OK(CALL(s, "gt_float_byte", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of float > byte"); { int w = ((c_float)x) > ((c_float)y); set_float(0, x); set_byte(1, y); OK(CALL(s, "if_gt_float_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float > byte"); } set_float(0, x); set_byte(1, y); OK(CALL(s, "ge_float_byte", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of float >= byte"); { int w = ((c_float)x) >= ((c_float)y); set_float(0, x); set_byte(1, y); OK(CALL(s, "if_ge_float_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float >= byte"); } set_float(0, x); set_byte(1, y); OK(CALL(s, "cmp_float_byte", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "float <=> byte"); vp_observe(get_int()); }
JOB2(cmp_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); set_float(0, x); set_short(1, y); OK(CALL(s, "eq_float_short", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of float == short"); { int w = ((c_float)x) == ((c_float)y); set_float(0, x); set_short(1, y); OK(CALL(s, "if_eq_float_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float == short"); } set_float(0, x); set_short(1, y); OK(CALL(s, "ne_float_short", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of float != short"); { int w = ((c_float)x) != ((c_float)y); set_float(0, x); set_short(1, y); OK(CALL(s, "if_ne_float_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float != short"); } set_float(0, x); set_short(1, y); OK(CALL(s, "lt_float_short", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of float < short"); { int w = ((c_float)x) < ((c_float)y); set_float(0, x); set_short(1, y); OK(CALL(s, "if_lt_float_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float < short"); } set_float(0, x); set_short(1, y); OK(CALL(s, "le_float_short", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of float <= short"); { int w = ((c_float)x) <= ((c_float)y); set_float(0, x); set_short(1, y); OK(CALL(s, "if_le_float_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float <= short"); } set_float(0, x); set_short(1, y); OK(CALL(s, "gt_float_short", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of float > short"); { int w = ((c_float)x) > ((c_float)y); set_float(0, x); set_short(1, y); OK(CALL(s, "if_gt_float_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float > short"); } set_float(0, x); set_short(1, y); OK(CALL(s, "ge_float_short", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of float >= short"); { int w = ((c_float)x) >= ((c_float)y); set_float(0, x); set_short(1, y); OK(CALL(s, "if_ge_float_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float >= short"); } set_float(0, x); set_short(1, y); OK(CALL(s, "cmp_float_short", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "float <=> short"); vp_observe(get_int()); }
JOB2(cmp_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); set_float(0, x); set_int(1, y); OK(CALL(s, "eq_float_int", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of float == int"); { int w = ((c_float)x) == ((c_float)y); set_float(0, x); set_int(1, y); OK(CALL(s, "if_eq_float_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float == int"); } set_float(0, x); set_int(1, y); OK(CALL(s, "ne_float_int", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of float != int"); { int w = ((c_float)x) != ((c_float)y); set_float(0, x); set_int(1, y); OK(CALL(s, "if_ne_float_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float != int"); } set_float(0, x); set_int(1, y); OK(CALL(s, "lt_float_int", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of float < int"); { int w = ((c_float)x) < ((c_float)y); set_float(0, x); set_int(1, y); OK(CALL(s, "if_lt_float_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float < int"); } set_float(0, x); set_int(1, y); OK(CALL(s, "le_float_int", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of float <= int"); { int w = ((c_float)x) <= ((c_float)y); set_float(0, x); set_int(1, y); OK(CALL(s, "if_le_float_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float <= int"); } set_float(0, x); set_int(1, y); OK(CALL(s, "gt_float_int", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of float > int"); { int w = ((c_float)x) > ((c_float)y); set_float(0, x); set_int(1, y); OK(CALL(s, "if_gt_float_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float > int"); } set_float(0, x); set_int(1, y); OK(CALL(s, "ge_float_int", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of float >= int"); { int w = ((c_float)x) >= ((c_float)y); set_float(0, x); set_int(1, y); OK(CALL(s, "if_ge_float_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float >= int"); } set_float(0, x); set_int(1, y); OK(CALL(s, "cmp_float_int", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "float <=> int"); vp_observe(get_int()); }
JOB2(cmp_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); set_float(0, x); set_long(1, y); OK(CALL(s, "eq_float_long", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of float == long"); { int w = ((c_float)x) == ((c_float)y); set_float(0, x); set_long(1, y); OK(CALL(s, "if_eq_float_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float == long"); } set_float(0, x); set_long(1, y); OK(CALL(s, "ne_float_long", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of float != long"); { int w = ((c_float)x) != ((c_float)y); set_float(0, x); set_long(1, y); OK(CALL(s, "if_ne_float_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float != long"); } set_float(0, x); set_long(1, y); OK(CALL(s, "lt_float_long", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of float < long"); { int w = ((c_float)x) < ((c_float)y); set_float(0, x); set_long(1, y); OK(CALL(s, "if_lt_float_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float < long"); } set_float(0, x); set_long(1, y); OK(CALL(s, "le_float_long", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of float <= long"); { int w = ((c_float)x) <= ((c_float)y); set_float(0, x); set_long(1, y); OK(CALL(s, "if_le_float_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float <= long"); } set_float(0, x); set_long(1, y); OK(CALL(s, "gt_float_long", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of float > long"); { int w = ((c_float)x) > ((c_float)y); set_float(0, x); set_long(1, y); OK(CALL(s, "if_gt_float_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float > long"); } set_float(0, x); set_long(1, y); OK(CALL(s, "ge_float_long", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of float >= long"); { int w = ((c_float)x) >= ((c_float)y); set_float(0, x); set_long(1, y); OK(CALL(s, "if_ge_float_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float >= long"); } set_float(0, x); set_long(1, y); OK(CALL(s, "cmp_float_long", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "float <=> long"); vp_observe(get_int()); }
JOB2(cmp_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); set_float(0, x); set_float(1, y); OK(CALL(s, "eq_float_float", 2)); vp_assert(get_int() == (((c_float)x) == ((c_float)y)), "value of float == float"); { int w = ((c_float)x) == ((c_float)y); set_float(0, x); set_float(1, y); OK(CALL(s, "if_eq_float_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float == float"); } set_float(0, x); set_float(1, y); OK(CALL(s, "ne_float_float", 2)); vp_assert(get_int() == (((c_float)x) != ((c_float)y)), "value of float != float"); { int w = ((c_float)x) != ((c_float)y); set_float(0, x); set_float(1, y); OK(CALL(s, "if_ne_float_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float != float"); } set_float(0, x); set_float(1, y); OK(CALL(s, "lt_float_float", 2)); vp_assert(get_int() == (((c_float)x) < ((c_float)y)), "value of float < float"); { int w = ((c_float)x) < ((c_float)y); set_float(0, x); set_float(1, y); OK(CALL(s, "if_lt_float_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float < float"); } set_float(0, x); set_float(1, y); OK(CALL(s, "le_float_float", 2)); vp_assert(get_int() == (((c_float)x) <= ((c_float)y)), "value of float <= float"); { int w = ((c_float)x) <= ((c_float)y); set_float(0, x); set_float(1, y); OK(CALL(s, "if_le_float_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float <= float"); } set_float(0, x); set_float(1, y); OK(CALL(s, "gt_float_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y)), "value of float > float"); { int w = ((c_float)x) > ((c_float)y); set_float(0, x); set_float(1, y); OK(CALL(s, "if_gt_float_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float > float"); } set_float(0, x); set_float(1, y); OK(CALL(s, "ge_float_float", 2)); vp_assert(get_int() == (((c_float)x) >= ((c_float)y)), "value of float >= float"); { int w = ((c_float)x) >= ((c_float)y); set_float(0, x); set_float(1, y); OK(CALL(s, "if_ge_float_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float >= float"); } set_float(0, x); set_float(1, y); OK(CALL(s, "cmp_float_float", 2)); vp_assert(get_int() == (((c_float)x) > ((c_float)y) ? 1 : ((c_float)x) < ((c_float)y) ? -1 : 0), "float <=> float"); vp_observe(get_int()); }
JOB2(cmp_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); set_float(0, x); set_double(1, y); OK(CALL(s, "eq_float_double", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of float == double"); { int w = ((c_double)x) == ((c_double)y); set_float(0, x); set_double(1, y); OK(CALL(s, "if_eq_float_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float == double"); } set_float(0, x); set_double(1, y); OK(CALL(s, "ne_float_double", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of float != double"); { int w = ((c_double)x) != ((c_double)y); set_float(0, x); set_double(1, y); OK(CALL(s, "if_ne_float_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float != double"); } set_float(0, x); set_double(1, y); OK(CALL(s, "lt_float_double", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of float < double"); { int w = ((c_double)x) < ((c_double)y); set_float(0, x); set_double(1, y); OK(CALL(s, "if_lt_float_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float < double"); } set_float(0, x); set_double(1, y); OK(CALL(s, "le_float_double", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of float <= double"); { int w = ((c_double)x) <= ((c_double)y); set_float(0, x); set_double(1, y); OK(CALL(s, "if_le_float_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float <= double"); } set_float(0, x); set_double(1, y); OK(CALL(s, "gt_float_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of float > double"); { int w = ((c_double)x) > ((c_double)y); set_float(0, x); set_double(1, y); OK(CALL(s, "if_gt_float_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float > double"); } set_float(0, x); set_double(1, y); OK(CALL(s, "ge_float_double", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of float >= double"); { int w = ((c_double)x) >= ((c_double)y); set_float(0, x); set_double(1, y); OK(CALL(s, "if_ge_float_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on float >= double"); } set_float(0, x); set_double(1, y); OK(CALL(s, "cmp_float_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "float <=> double"); vp_observe(get_int()); }
JOB2(cmp_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); set_double(0, x); set_byte(1, y); OK(CALL(s, "eq_double_byte", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of double == byte"); { int w = ((c_double)x) == ((c_double)y); set_double(0, x); set_byte(1, y); OK(CALL(s, "if_eq_double_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double == byte"); } set_double(0, x); set_byte(1, y); OK(CALL(s, "ne_double_byte", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of double != byte"); { int w = ((c_double)x) != ((c_double)y); set_double(0, x); set_byte(1, y); OK(CALL(s, "if_ne_double_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double != byte"); } set_double(0, x); set_byte(1, y); OK(CALL(s, "lt_double_byte", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of double < byte"); { int w = ((c_double)x) < ((c_double)y); set_double(0, x); set_byte(1, y); OK(CALL(s, "if_lt_double_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double < byte"); } set_double(0, x); set_byte(1, y); OK(CALL(s, "le_double_byte", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of double <= byte"); { int w = ((c_double)x) <= ((c_double)y); set_double(0, x); set_byte(1, y); OK(CALL(s, "if_le_double_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double <= byte"); } set_double(0, x); set_byte(1, y); OK(CALL(s, "gt_double_byte", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of double > byte"); { int w = ((c_double)x) > ((c_double)y); set_double(0, x); set_byte(1, y); OK(CALL(s, "if_gt_double_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double > byte"); } set_double(0, x); set_byte(1, y); OK(CALL(s, "ge_double_byte", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of double >= byte"); { int w = ((c_double)x) >= ((c_double)y); set_double(0, x); set_byte(1, y); OK(CALL(s, "if_ge_double_byte", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double >= byte"); } set_double(0, x); set_byte(1, y); OK(CALL(s, "cmp_double_byte", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "double <=> byte"); vp_observe(get_int()); }
JOB2(cmp_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); set_double(0, x); set_short(1, y); OK(CALL(s, "eq_double_short", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of double == short"); { int w = ((c_double)x) == ((c_double)y); set_double(0, x); set_short(1, y); OK(CALL(s, "if_eq_double_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double == short"); } set_double(0, x); set_short(1, y); OK(CALL(s, "ne_double_short", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of double != short"); { int w = ((c_double)x) != ((c_double)y); set_double(0, x); set_short(1, y); OK(CALL(s, "if_ne_double_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double != short"); } set_double(0, x); set_short(1, y); OK(CALL(s, "lt_double_short", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of double < short"); { int w = ((c_double)x) < ((c_double)y); set_double(0, x); set_short(1, y); OK(CALL(s, "if_lt_double_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double < short"); } set_double(0, x); set_short(1, y); OK(CALL(s, "le_double_short", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of double <= short"); { int w = ((c_double)x) <= ((c_double)y); set_double(0, x); set_short(1, y); OK(CALL(s, "if_le_double_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double <= short"); } set_double(0, x); set_short(1, y); OK(CALL(s, "gt_double_short", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of double > short"); { int w = ((c_double)x) > ((c_double)y); set_double(0, x); set_short(1, y); OK(CALL(s, "if_gt_double_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double > short"); } set_double(0, x); set_short(1, y); OK(CALL(s, "ge_double_short", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of double >= short"); { int w = ((c_double)x) >= ((c_double)y); set_double(0, x); set_short(1, y); OK(CALL(s, "if_ge_double_short", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double >= short"); } set_double(0, x); set_short(1, y); OK(CALL(s, "cmp_double_short", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "double <=> short"); vp_observe(get_int()); }
JOB2(cmp_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); set_double(0, x); set_int(1, y); OK(CALL(s, "eq_double_int", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of double == int"); { int w = ((c_double)x) == ((c_double)y); set_double(0, x); set_int(1, y); OK(CALL(s, "if_eq_double_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double == int"); } set_double(0, x); set_int(1, y); OK(CALL(s, "ne_double_int", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of double != int"); { int w = ((c_double)x) != ((c_double)y); set_double(0, x); set_int(1, y); OK(CALL(s, "if_ne_double_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double != int"); } set_double(0, x); set_int(1, y); OK(CALL(s, "lt_double_int", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of double < int"); { int w = ((c_double)x) < ((c_double)y); set_double(0, x); set_int(1, y); OK(CALL(s, "if_lt_double_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double < int"); } set_double(0, x); set_int(1, y); OK(CALL(s, "le_double_int", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of double <= int"); { int w = ((c_double)x) <= ((c_double)y); set_double(0, x); set_int(1, y); OK(CALL(s, "if_le_double_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double <= int"); } set_double(0, x); set_int(1, y); OK(CALL(s, "gt_double_int", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of double > int"); { int w = ((c_double)x) > ((c_double)y); set_double(0, x); set_int(1, y); OK(CALL(s, "if_gt_double_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double > int"); } set_double(0, x); set_int(1, y); OK(CALL(s, "ge_double_int", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of double >= int"); { int w = ((c_double)x) >= ((c_double)y); set_double(0, x); set_int(1, y); OK(CALL(s, "if_ge_double_int", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double >= int"); } set_double(0, x); set_int(1, y); OK(CALL(s, "cmp_double_int", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "double <=> int"); vp_observe(get_int()); }
JOB2(cmp_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); set_double(0, x); set_long(1, y); OK(CALL(s, "eq_double_long", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of double == long"); { int w = ((c_double)x) == ((c_double)y); set_double(0, x); set_long(1, y); OK(CALL(s, "if_eq_double_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double == long"); } set_double(0, x); set_long(1, y); OK(CALL(s, "ne_double_long", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of double != long"); { int w = ((c_double)x) != ((c_double)y); set_double(0, x); set_long(1, y); OK(CALL(s, "if_ne_double_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double != long"); } set_double(0, x); set_long(1, y); OK(CALL(s, "lt_double_long", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of double < long"); { int w = ((c_double)x) < ((c_double)y); set_double(0, x); set_long(1, y); OK(CALL(s, "if_lt_double_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double < long"); } set_double(0, x); set_long(1, y); OK(CALL(s, "le_double_long", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of double <= long"); { int w = ((c_double)x) <= ((c_double)y); set_double(0, x); set_long(1, y); OK(CALL(s, "if_le_double_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double <= long"); } set_double(0, x); set_long(1, y); OK(CALL(s, "gt_double_long", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of double > long"); { int w = ((c_double)x) > ((c_double)y); set_double(0, x); set_long(1, y); OK(CALL(s, "if_gt_double_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double > long"); } set_double(0, x); set_long(1, y); OK(CALL(s, "ge_double_long", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of double >= long"); { int w = ((c_double)x) >= ((c_double)y); set_double(0, x); set_long(1, y); OK(CALL(s, "if_ge_double_long", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double >= long"); } set_double(0, x); set_long(1, y); OK(CALL(s, "cmp_double_long", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "double <=> long"); vp_observe(get_int()); }
JOB2(cmp_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); set_double(0, x); set_float(1, y); OK(CALL(s, "eq_double_float", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of double == float"); { int w = ((c_double)x) == ((c_double)y); set_double(0, x); set_float(1, y); OK(CALL(s, "if_eq_double_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double == float"); } set_double(0, x); set_float(1, y); OK(CALL(s, "ne_double_float", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of double != float"); { int w = ((c_double)x) != ((c_double)y); set_double(0, x); set_float(1, y); OK(CALL(s, "if_ne_double_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double != float"); } set_double(0, x); set_float(1, y); OK(CALL(s, "lt_double_float", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of double < float"); { int w = ((c_double)x) < ((c_double)y); set_double(0, x); set_float(1, y); OK(CALL(s, "if_lt_double_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double < float"); } set_double(0, x); set_float(1, y); OK(CALL(s, "le_double_float", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of double <= float"); { int w = ((c_double)x) <= ((c_double)y); set_double(0, x); set_float(1, y); OK(CALL(s, "if_le_double_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double <= float"); } set_double(0, x); set_float(1, y); OK(CALL(s, "gt_double_float", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of double > float"); { int w = ((c_double)x) > ((c_double)y); set_double(0, x); set_float(1, y); OK(CALL(s, "if_gt_double_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double > float"); } set_double(0, x); set_float(1, y); OK(CALL(s, "ge_double_float", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of double >= float"); { int w = ((c_double)x) >= ((c_double)y); set_double(0, x); set_float(1, y); OK(CALL(s, "if_ge_double_float", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double >= float"); } set_double(0, x); set_float(1, y); OK(CALL(s, "cmp_double_float", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "double <=> float"); vp_observe(get_int()); }
JOB2(cmp_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); set_double(0, x); set_double(1, y); OK(CALL(s, "eq_double_double", 2)); vp_assert(get_int() == (((c_double)x) == ((c_double)y)), "value of double == double"); { int w = ((c_double)x) == ((c_double)y); set_double(0, x); set_double(1, y); OK(CALL(s, "if_eq_double_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double == double"); } set_double(0, x); set_double(1, y); OK(CALL(s, "ne_double_double", 2)); vp_assert(get_int() == (((c_double)x) != ((c_double)y)), "value of double != double"); { int w = ((c_double)x) != ((c_double)y); set_double(0, x); set_double(1, y); OK(CALL(s, "if_ne_double_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double != double"); } set_double(0, x); set_double(1, y); OK(CALL(s, "lt_double_double", 2)); vp_assert(get_int() == (((c_double)x) < ((c_double)y)), "value of double < double"); { int w = ((c_double)x) < ((c_double)y); set_double(0, x); set_double(1, y); OK(CALL(s, "if_lt_double_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double < double"); } set_double(0, x); set_double(1, y); OK(CALL(s, "le_double_double", 2)); vp_assert(get_int() == (((c_double)x) <= ((c_double)y)), "value of double <= double"); { int w = ((c_double)x) <= ((c_double)y); set_double(0, x); set_double(1, y); OK(CALL(s, "if_le_double_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double <= double"); } set_double(0, x); set_double(1, y); OK(CALL(s, "gt_double_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y)), "value of double > double"); { int w = ((c_double)x) > ((c_double)y); set_double(0, x); set_double(1, y); OK(CALL(s, "if_gt_double_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double > double"); } set_double(0, x); set_double(1, y); OK(CALL(s, "ge_double_double", 2)); vp_assert(get_int() == (((c_double)x) >= ((c_double)y)), "value of double >= double"); { int w = ((c_double)x) >= ((c_double)y); set_double(0, x); set_double(1, y); OK(CALL(s, "if_ge_double_double", 2)); vp_assert(get_int() == (w ? 1 : 14), "branch on double >= double"); } set_double(0, x); set_double(1, y); OK(CALL(s, "cmp_double_double", 2)); vp_assert(get_int() == (((c_double)x) > ((c_double)y) ? 1 : ((c_double)x) < ((c_double)y) ? -1 : 0), "double <=> double"); vp_observe(get_int()); }
JOB2(cond_byte) { c_byte x = sym_byte("x"); int z = !(x != 0); set_byte(0, x); OK(CALL(s, "cond_byte", 1)); vp_assert(get_int() == (z ? 60 : 12), "condition of type byte"); set_byte(0, x); OK(CALL(s, "not_byte", 1)); vp_assert(get_int() == z, "logical not"); set_byte(0, x); OK(CALL(s, "nn_byte", 1)); vp_assert(get_int() == !z, "double logical not"); }
JOB2(logic_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_byte_byte", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "or_byte_byte", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "ifl_byte_byte", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_byte_short", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_byte(0, x); set_short(1, y); OK(CALL(s, "or_byte_short", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_byte(0, x); set_short(1, y); OK(CALL(s, "ifl_byte_short", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_byte_int", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_byte(0, x); set_int(1, y); OK(CALL(s, "or_byte_int", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_byte(0, x); set_int(1, y); OK(CALL(s, "ifl_byte_int", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_byte_long", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_byte(0, x); set_long(1, y); OK(CALL(s, "or_byte_long", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_byte(0, x); set_long(1, y); OK(CALL(s, "ifl_byte_long", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_byte_float) { c_byte x = sym_byte("x"); c_float y = sym_float("y"); set_byte(0, x); set_float(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_byte_float", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_byte(0, x); set_float(1, y); OK(CALL(s, "or_byte_float", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_byte(0, x); set_float(1, y); OK(CALL(s, "ifl_byte_float", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_byte_double) { c_byte x = sym_byte("x"); c_double y = sym_double("y"); set_byte(0, x); set_double(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_byte_double", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_byte(0, x); set_double(1, y); OK(CALL(s, "or_byte_double", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_byte(0, x); set_double(1, y); OK(CALL(s, "ifl_byte_double", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(cond_short) { c_short x = sym_short("x"); int z = !(x != 0); set_short(0, x); OK(CALL(s, "cond_short", 1)); vp_assert(get_int() == (z ? 60 : 12), "condition of type short"); set_short(0, x); OK(CALL(s, "not_short", 1)); vp_assert(get_int() == z, "logical not"); set_short(0, x); OK(CALL(s, "nn_short", 1)); vp_assert(get_int() == !z, "double logical not"); }
JOB2(logic_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_short_byte", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_short(0, x); set_byte(1, y); OK(CALL(s, "or_short_byte", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_short(0, x); set_byte(1, y); OK(CALL(s, "ifl_short_byte", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_short_short", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_short(0, x); set_short(1, y); OK(CALL(s, "or_short_short", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_short(0, x); set_short(1, y); OK(CALL(s, "ifl_short_short", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_short_int", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_short(0, x); set_int(1, y); OK(CALL(s, "or_short_int", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_short(0, x); set_int(1, y); OK(CALL(s, "ifl_short_int", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_short_long", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_short(0, x); set_long(1, y); OK(CALL(s, "or_short_long", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_short(0, x); set_long(1, y); OK(CALL(s, "ifl_short_long", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_short_float) { c_short x = sym_short("x"); c_float y = sym_float("y"); set_short(0, x); set_float(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_short_float", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_short(0, x); set_float(1, y); OK(CALL(s, "or_short_float", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_short(0, x); set_float(1, y); OK(CALL(s, "ifl_short_float", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_short_double) { c_short x = sym_short("x"); c_double y = sym_double("y"); set_short(0, x); set_double(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_short_double", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_short(0, x); set_double(1, y); OK(CALL(s, "or_short_double", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_short(0, x); set_double(1, y); OK(CALL(s, "ifl_short_double", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(cond_int) { c_int x = sym_int("x"); int z = !(x != 0); set_int(0, x); OK(CALL(s, "cond_int", 1)); vp_assert(get_int() == (z ? 60 : 12), "condition of type int"); set_int(0, x); OK(CALL(s, "not_int", 1)); vp_assert(get_int() == z, "logical not"); set_int(0, x); OK(CALL(s, "nn_int", 1)); vp_assert(get_int() == !z, "double logical not"); }
JOB2(logic_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_int_byte", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_int(0, x); set_byte(1, y); OK(CALL(s, "or_int_byte", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_int(0, x); set_byte(1, y); OK(CALL(s, "ifl_int_byte", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_int_short", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_int(0, x); set_short(1, y); OK(CALL(s, "or_int_short", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_int(0, x); set_short(1, y); OK(CALL(s, "ifl_int_short", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); int a = (c_int)x, b = (c_int)y; OK(CALL(s, "and_int_int", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_int(0, x); set_int(1, y); OK(CALL(s, "or_int_int", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_int(0, x); set_int(1, y); OK(CALL(s, "ifl_int_int", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_int_long", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_int(0, x); set_long(1, y); OK(CALL(s, "or_int_long", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_int(0, x); set_long(1, y); OK(CALL(s, "ifl_int_long", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_int_float) { c_int x = sym_int("x"); c_float y = sym_float("y"); set_int(0, x); set_float(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_int_float", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_int(0, x); set_float(1, y); OK(CALL(s, "or_int_float", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_int(0, x); set_float(1, y); OK(CALL(s, "ifl_int_float", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_int_double) { c_int x = sym_int("x"); c_double y = sym_double("y"); set_int(0, x); set_double(1, y); int a = (c_int)x, b = (y != 0); OK(CALL(s, "and_int_double", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_int(0, x); set_double(1, y); OK(CALL(s, "or_int_double", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_int(0, x); set_double(1, y); OK(CALL(s, "ifl_int_double", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(cond_long) { c_long x = sym_long("x"); int z = !(x != 0); set_long(0, x); OK(CALL(s, "cond_long", 1)); vp_assert(get_int() == (z ? 60 : 12), "condition of type long"); set_long(0, x); OK(CALL(s, "not_long", 1)); vp_assert(get_int() == z, "logical not"); set_long(0, x); OK(CALL(s, "nn_long", 1)); vp_assert(get_int() == !z, "double logical not"); }
JOB2(logic_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_long_byte", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_long(0, x); set_byte(1, y); OK(CALL(s, "or_long_byte", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_long(0, x); set_byte(1, y); OK(CALL(s, "ifl_long_byte", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_long_short", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_long(0, x); set_short(1, y); OK(CALL(s, "or_long_short", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_long(0, x); set_short(1, y); OK(CALL(s, "ifl_long_short", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_long_int", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_long(0, x); set_int(1, y); OK(CALL(s, "or_long_int", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_long(0, x); set_int(1, y); OK(CALL(s, "ifl_long_int", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_long_long", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_long(0, x); set_long(1, y); OK(CALL(s, "or_long_long", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_long(0, x); set_long(1, y); OK(CALL(s, "ifl_long_long", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_long_float) { c_long x = sym_long("x"); c_float y = sym_float("y"); set_long(0, x); set_float(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_long_float", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_long(0, x); set_float(1, y); OK(CALL(s, "or_long_float", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_long(0, x); set_float(1, y); OK(CALL(s, "ifl_long_float", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_long_double) { c_long x = sym_long("x"); c_double y = sym_double("y"); set_long(0, x); set_double(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_long_double", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_long(0, x); set_double(1, y); OK(CALL(s, "or_long_double", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_long(0, x); set_double(1, y); OK(CALL(s, "ifl_long_double", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(cond_float) { c_float x = sym_float("x"); int z = !(x != 0); set_float(0, x); OK(CALL(s, "cond_float", 1)); vp_assert(get_int() == (z ? 60 : 12), "condition of type float"); set_float(0, x); OK(CALL(s, "not_float", 1)); vp_assert(get_int() == z, "logical not"); set_float(0, x); OK(CALL(s, "nn_float", 1)); vp_assert(get_int() == !z, "double logical not"); }
JOB2(logic_float_byte) { c_float x = sym_float("x"); c_byte y = sym_byte("y"); set_float(0, x); set_byte(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_float_byte", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_float(0, x); set_byte(1, y); OK(CALL(s, "or_float_byte", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_float(0, x); set_byte(1, y); OK(CALL(s, "ifl_float_byte", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_float_short) { c_float x = sym_float("x"); c_short y = sym_short("y"); set_float(0, x); set_short(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_float_short", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_float(0, x); set_short(1, y); OK(CALL(s, "or_float_short", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_float(0, x); set_short(1, y); OK(CALL(s, "ifl_float_short", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_float_int) { c_float x = sym_float("x"); c_int y = sym_int("y"); set_float(0, x); set_int(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_float_int", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_float(0, x); set_int(1, y); OK(CALL(s, "or_float_int", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_float(0, x); set_int(1, y); OK(CALL(s, "ifl_float_int", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_float_long) { c_float x = sym_float("x"); c_long y = sym_long("y"); set_float(0, x); set_long(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_float_long", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_float(0, x); set_long(1, y); OK(CALL(s, "or_float_long", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_float(0, x); set_long(1, y); OK(CALL(s, "ifl_float_long", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_float_float) { c_float x = sym_float("x"); c_float y = sym_float("y"); set_float(0, x); set_float(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_float_float", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_float(0, x); set_float(1, y); OK(CALL(s, "or_float_float", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_float(0, x); set_float(1, y); OK(CALL(s, "ifl_float_float", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_float_double) { c_float x = sym_float("x"); c_double y = sym_double("y"); set_float(0, x); set_double(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_float_double", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_float(0, x); set_double(1, y); OK(CALL(s, "or_float_double", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_float(0, x); set_double(1, y); OK(CALL(s, "ifl_float_double", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(cond_double) { c_double x = sym_double("x"); int z = !(x != 0); set_double(0, x); OK(CALL(s, "cond_double", 1)); vp_assert(get_int() == (z ? 60 : 12), "condition of type double"); set_double(0, x); OK(CALL(s, "not_double", 1)); vp_assert(get_int() == z, "logical not"); set_double(0, x); OK(CALL(s, "nn_double", 1)); vp_assert(get_int() == !z, "double logical not"); }
JOB2(logic_double_byte) { c_double x = sym_double("x"); c_byte y = sym_byte("y"); set_double(0, x); set_byte(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_double_byte", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_double(0, x); set_byte(1, y); OK(CALL(s, "or_double_byte", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_double(0, x); set_byte(1, y); OK(CALL(s, "ifl_double_byte", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_double_short) { c_double x = sym_double("x"); c_short y = sym_short("y"); set_double(0, x); set_short(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_double_short", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_double(0, x); set_short(1, y); OK(CALL(s, "or_double_short", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_double(0, x); set_short(1, y); OK(CALL(s, "ifl_double_short", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_double_int) { c_double x = sym_double("x"); c_int y = sym_int("y"); set_double(0, x); set_int(1, y); int a = (x != 0), b = (c_int)y; OK(CALL(s, "and_double_int", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_double(0, x); set_int(1, y); OK(CALL(s, "or_double_int", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_double(0, x); set_int(1, y); OK(CALL(s, "ifl_double_int", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_double_long) { c_double x = sym_double("x"); c_long y = sym_long("y"); set_double(0, x); set_long(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_double_long", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_double(0, x); set_long(1, y); OK(CALL(s, "or_double_long", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_double(0, x); set_long(1, y); OK(CALL(s, "ifl_double_long", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_double_float) { c_double x = sym_double("x"); c_float y = sym_float("y"); set_double(0, x); set_float(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_double_float", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_double(0, x); set_float(1, y); OK(CALL(s, "or_double_float", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_double(0, x); set_float(1, y); OK(CALL(s, "ifl_double_float", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(logic_double_double) { c_double x = sym_double("x"); c_double y = sym_double("y"); set_double(0, x); set_double(1, y); int a = (x != 0), b = (y != 0); OK(CALL(s, "and_double_double", 2)); vp_assert(get_int() == (a == 0 ? 0 : b), "&&"); set_double(0, x); set_double(1, y); OK(CALL(s, "or_double_double", 2)); vp_assert(get_int() == (a != 0 ? a : b), "||"); set_double(0, x); set_double(1, y); OK(CALL(s, "ifl_double_double", 2)); vp_assert(get_int() == ((a && b ? 1 : 0) + (a || b ? 2 : 0) + (!(a && !b) ? 4 : 0) + (!(!a || b) ? 8 : 0)), "branches on logical operators"); }
JOB2(short_circuit) { c_int a = sym_int("a"), b = sym_int("b"), c = sym_int("c"); set_int(0, a); set_int(1, b); set_int(2, c); OK(CALL(s, "short_circuit", 3)); int w = a ? (b ? 12 : 123) : 13; vp_assert(get_int() == w, "operands evaluated in order and only when needed"); vp_observe(get_int()); }
JOB2(objects) { void* o[3] = { 0, spv_str(s, "a", 1), spv_str(s, "a", 1) }; int i = vp_choice(3, "i"), j = vp_choice(3, "j"); ST[0].oval = o[i]; ST[1].oval = o[j]; OK(CALL(s, "objs", 2)); int x = i != 0, y = j != 0, e = i == j;
  vp_assert(get_int() == (x ? 1 : 0) + (e ? 2 : 4) + (x ? 0 : 8) + (y ? 16 : 0) + (y ? 0 : 32) + (x && y ? 64 : 0) + (x || y ? 128 : 0), "object conditions compare identity"); vp_observe(get_int()); }
JOB2(bools) { c_int x = sym_int("x"), y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "boolop", 2)); vp_assert(get_int() == (x ? 1 : 0) + (y ? 0 : 2) + (x && y ? 4 : 0) + (x || y ? 8 : 0) + 80, "Bool objects in conditions"); }
JOB2(refs) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "refs", 1)); vp_assert(get_int() == 7, "references compare identity, not value"); }
JOB2(chain_byte) { c_byte x = sym_byte("x"), l = sym_byte("lo"), h = sym_byte("hi"); set_byte(0, x); set_byte(1, l); set_byte(2, h); OK(CALL(s, "chain_byte", 3)); int k = x < l ? 1 : x >= h ? 2 : 3; if (l <= x) if (x < h) k += 10; vp_assert(get_int() == k, "range decision"); vp_observe(get_int()); }
JOB2(chain_short) { c_short x = sym_short("x"), l = sym_short("lo"), h = sym_short("hi"); set_short(0, x); set_short(1, l); set_short(2, h); OK(CALL(s, "chain_short", 3)); int k = x < l ? 1 : x >= h ? 2 : 3; if (l <= x) if (x < h) k += 10; vp_assert(get_int() == k, "range decision"); vp_observe(get_int()); }
JOB2(chain_int) { c_int x = sym_int("x"), l = sym_int("lo"), h = sym_int("hi"); set_int(0, x); set_int(1, l); set_int(2, h); OK(CALL(s, "chain_int", 3)); int k = x < l ? 1 : x >= h ? 2 : 3; if (l <= x) if (x < h) k += 10; vp_assert(get_int() == k, "range decision"); vp_observe(get_int()); }
JOB2(chain_long) { c_long x = sym_long("x"), l = sym_long("lo"), h = sym_long("hi"); set_long(0, x); set_long(1, l); set_long(2, h); OK(CALL(s, "chain_long", 3)); int k = x < l ? 1 : x >= h ? 2 : 3; if (l <= x) if (x < h) k += 10; vp_assert(get_int() == k, "range decision"); vp_observe(get_int()); }
JOB2(chain_float) { c_float x = sym_float("x"), l = sym_float("lo"), h = sym_float("hi"); set_float(0, x); set_float(1, l); set_float(2, h); OK(CALL(s, "chain_float", 3)); int k = x < l ? 1 : x >= h ? 2 : 3; if (l <= x) if (x < h) k += 10; vp_assert(get_int() == k, "range decision"); vp_observe(get_int()); }
JOB2(chain_double) { c_double x = sym_double("x"), l = sym_double("lo"), h = sym_double("hi"); set_double(0, x); set_double(1, l); set_double(2, h); OK(CALL(s, "chain_double", 3)); int k = x < l ? 1 : x >= h ? 2 : 3; if (l <= x) if (x < h) k += 10; vp_assert(get_int() == k, "range decision"); vp_observe(get_int()); }
