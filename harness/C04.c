/*vp {"pc":"VP","time":150,"bounds":["every numeric source and target type and every value; out-of-range floating to integer conversions (undefined in C) only for absence of memory errors","number to string: every byte and short, int within +-20000 and long within +-2000 (thorough: +-1000000) and windows of 10 values at the limits; floating values to string: a table of 24 values (sprintf itself is not encoded)","string to integer: every string of length 0..3 (thorough: 4) and every digit string of 17..20 bytes with symbolic digits; string to floating: the text handed to strtod/strtof"]} */
// generated by tools/gen_*.py
#include "lang.h"

JOB2(cast_byte_byte) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "cast_byte_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)x), "(byte) of byte"); set_byte(0, x); OK(CALL(s, "pcast_byte_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)x), "postfix cast"); }
JOB2(cast_byte_short) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "cast_byte_short", 1)); vp_assert(same_short(get_short(), (c_short)x), "(short) of byte"); set_byte(0, x); OK(CALL(s, "pcast_byte_short", 1)); vp_assert(same_short(get_short(), (c_short)x), "postfix cast"); set_byte(0, x); OK(CALL(s, "wid_byte_short", 1)); vp_assert(same_short(get_short(), (c_short)x), "implicit widening byte to short"); }
JOB2(cast_byte_int) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "cast_byte_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "(int) of byte"); set_byte(0, x); OK(CALL(s, "pcast_byte_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "postfix cast"); set_byte(0, x); OK(CALL(s, "wid_byte_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "implicit widening byte to int"); }
JOB2(cast_byte_long) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "cast_byte_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "(long) of byte"); set_byte(0, x); OK(CALL(s, "pcast_byte_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "postfix cast"); set_byte(0, x); OK(CALL(s, "wid_byte_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "implicit widening byte to long"); }
JOB2(cast_byte_float) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "cast_byte_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "(float) of byte"); set_byte(0, x); OK(CALL(s, "pcast_byte_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "postfix cast"); set_byte(0, x); OK(CALL(s, "wid_byte_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "implicit widening byte to float"); }
JOB2(cast_byte_double) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "cast_byte_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "(double) of byte"); set_byte(0, x); OK(CALL(s, "pcast_byte_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "postfix cast"); set_byte(0, x); OK(CALL(s, "wid_byte_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "implicit widening byte to double"); }
JOB2(box_byte) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "box_byte", 1)); vp_assert(same_byte(get_byte(), x), "boxing and unboxing byte"); }
JOB2(unbox_byte) { c_byte x = sym_byte("x"); set_byte(0, x); vp_assert(CALL(s, "unbox_byte_short", 1) != 0, "unboxing Byte as short throws"); set_byte(0, x); vp_assert(CALL(s, "unbox_byte_int", 1) != 0, "unboxing Byte as int throws"); set_byte(0, x); vp_assert(CALL(s, "unbox_byte_long", 1) != 0, "unboxing Byte as long throws"); set_byte(0, x); vp_assert(CALL(s, "unbox_byte_float", 1) != 0, "unboxing Byte as float throws"); set_byte(0, x); vp_assert(CALL(s, "unbox_byte_double", 1) != 0, "unboxing Byte as double throws"); ST[0].oval = 0; vp_assert(CALL(s, "unboxu_byte", 1) != 0, "unboxing undef throws"); ST[0].oval = spv_str(s, "1", 1);  vp_assert(CALL(s, "unboxu_byte", 1) != 0, "unboxing a string object as a number throws"); }
JOB2(cast_short_byte) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "cast_short_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)((((uint64_t)(c_long)x & 0xffULL) ^ 0x80ULL) - 0x80ULL)), "(byte) of short"); set_short(0, x); OK(CALL(s, "pcast_short_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)((((uint64_t)(c_long)x & 0xffULL) ^ 0x80ULL) - 0x80ULL)), "postfix cast"); }
JOB2(cast_short_short) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "cast_short_short", 1)); vp_assert(same_short(get_short(), (c_short)x), "(short) of short"); set_short(0, x); OK(CALL(s, "pcast_short_short", 1)); vp_assert(same_short(get_short(), (c_short)x), "postfix cast"); }
JOB2(cast_short_int) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "cast_short_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "(int) of short"); set_short(0, x); OK(CALL(s, "pcast_short_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "postfix cast"); set_short(0, x); OK(CALL(s, "wid_short_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "implicit widening short to int"); }
JOB2(cast_short_long) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "cast_short_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "(long) of short"); set_short(0, x); OK(CALL(s, "pcast_short_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "postfix cast"); set_short(0, x); OK(CALL(s, "wid_short_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "implicit widening short to long"); }
JOB2(cast_short_float) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "cast_short_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "(float) of short"); set_short(0, x); OK(CALL(s, "pcast_short_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "postfix cast"); set_short(0, x); OK(CALL(s, "wid_short_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "implicit widening short to float"); }
JOB2(cast_short_double) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "cast_short_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "(double) of short"); set_short(0, x); OK(CALL(s, "pcast_short_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "postfix cast"); set_short(0, x); OK(CALL(s, "wid_short_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "implicit widening short to double"); }
JOB2(box_short) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "box_short", 1)); vp_assert(same_short(get_short(), x), "boxing and unboxing short"); }
JOB2(unbox_short) { c_short x = sym_short("x"); set_short(0, x); vp_assert(CALL(s, "unbox_short_byte", 1) != 0, "unboxing Short as byte throws"); set_short(0, x); vp_assert(CALL(s, "unbox_short_int", 1) != 0, "unboxing Short as int throws"); set_short(0, x); vp_assert(CALL(s, "unbox_short_long", 1) != 0, "unboxing Short as long throws"); set_short(0, x); vp_assert(CALL(s, "unbox_short_float", 1) != 0, "unboxing Short as float throws"); set_short(0, x); vp_assert(CALL(s, "unbox_short_double", 1) != 0, "unboxing Short as double throws"); ST[0].oval = 0; vp_assert(CALL(s, "unboxu_short", 1) != 0, "unboxing undef throws"); ST[0].oval = spv_str(s, "1", 1);  vp_assert(CALL(s, "unboxu_short", 1) != 0, "unboxing a string object as a number throws"); }
JOB2(cast_int_byte) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "cast_int_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)((((uint64_t)(c_long)x & 0xffULL) ^ 0x80ULL) - 0x80ULL)), "(byte) of int"); set_int(0, x); OK(CALL(s, "pcast_int_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)((((uint64_t)(c_long)x & 0xffULL) ^ 0x80ULL) - 0x80ULL)), "postfix cast"); }
JOB2(cast_int_short) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "cast_int_short", 1)); vp_assert(same_short(get_short(), (c_short)((((uint64_t)(c_long)x & 0xffffULL) ^ 0x8000ULL) - 0x8000ULL)), "(short) of int"); set_int(0, x); OK(CALL(s, "pcast_int_short", 1)); vp_assert(same_short(get_short(), (c_short)((((uint64_t)(c_long)x & 0xffffULL) ^ 0x8000ULL) - 0x8000ULL)), "postfix cast"); }
JOB2(cast_int_int) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "cast_int_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "(int) of int"); set_int(0, x); OK(CALL(s, "pcast_int_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "postfix cast"); }
JOB2(cast_int_long) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "cast_int_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "(long) of int"); set_int(0, x); OK(CALL(s, "pcast_int_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "postfix cast"); set_int(0, x); OK(CALL(s, "wid_int_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "implicit widening int to long"); }
JOB2(cast_int_float) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "cast_int_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "(float) of int"); set_int(0, x); OK(CALL(s, "pcast_int_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "postfix cast"); set_int(0, x); OK(CALL(s, "wid_int_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "implicit widening int to float"); }
JOB2(cast_int_double) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "cast_int_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "(double) of int"); set_int(0, x); OK(CALL(s, "pcast_int_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "postfix cast"); set_int(0, x); OK(CALL(s, "wid_int_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "implicit widening int to double"); }
JOB2(box_int) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "box_int", 1)); vp_assert(same_int(get_int(), x), "boxing and unboxing int"); }
JOB2(unbox_int) { c_int x = sym_int("x"); set_int(0, x); vp_assert(CALL(s, "unbox_int_byte", 1) != 0, "unboxing Int as byte throws"); set_int(0, x); vp_assert(CALL(s, "unbox_int_short", 1) != 0, "unboxing Int as short throws"); set_int(0, x); vp_assert(CALL(s, "unbox_int_long", 1) != 0, "unboxing Int as long throws"); set_int(0, x); vp_assert(CALL(s, "unbox_int_float", 1) != 0, "unboxing Int as float throws"); set_int(0, x); vp_assert(CALL(s, "unbox_int_double", 1) != 0, "unboxing Int as double throws"); ST[0].oval = 0; vp_assert(CALL(s, "unboxu_int", 1) != 0, "unboxing undef throws"); ST[0].oval = spv_str(s, "1", 1);  vp_assert(CALL(s, "unboxu_int", 1) != 0, "unboxing a string object as a number throws"); }
JOB2(cast_long_byte) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "cast_long_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)((((uint64_t)(c_long)x & 0xffULL) ^ 0x80ULL) - 0x80ULL)), "(byte) of long"); set_long(0, x); OK(CALL(s, "pcast_long_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)((((uint64_t)(c_long)x & 0xffULL) ^ 0x80ULL) - 0x80ULL)), "postfix cast"); }
JOB2(cast_long_short) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "cast_long_short", 1)); vp_assert(same_short(get_short(), (c_short)((((uint64_t)(c_long)x & 0xffffULL) ^ 0x8000ULL) - 0x8000ULL)), "(short) of long"); set_long(0, x); OK(CALL(s, "pcast_long_short", 1)); vp_assert(same_short(get_short(), (c_short)((((uint64_t)(c_long)x & 0xffffULL) ^ 0x8000ULL) - 0x8000ULL)), "postfix cast"); }
JOB2(cast_long_int) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "cast_long_int", 1)); vp_assert(same_int(get_int(), (c_int)((((uint64_t)(c_long)x & 0xffffffffULL) ^ 0x80000000ULL) - 0x80000000ULL)), "(int) of long"); set_long(0, x); OK(CALL(s, "pcast_long_int", 1)); vp_assert(same_int(get_int(), (c_int)((((uint64_t)(c_long)x & 0xffffffffULL) ^ 0x80000000ULL) - 0x80000000ULL)), "postfix cast"); }
JOB2(cast_long_long) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "cast_long_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "(long) of long"); set_long(0, x); OK(CALL(s, "pcast_long_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "postfix cast"); }
JOB2(cast_long_float) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "cast_long_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "(float) of long"); set_long(0, x); OK(CALL(s, "pcast_long_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "postfix cast"); set_long(0, x); OK(CALL(s, "wid_long_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "implicit widening long to float"); }
JOB2(cast_long_double) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "cast_long_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "(double) of long"); set_long(0, x); OK(CALL(s, "pcast_long_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "postfix cast"); set_long(0, x); OK(CALL(s, "wid_long_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "implicit widening long to double"); }
JOB2(box_long) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "box_long", 1)); vp_assert(same_long(get_long(), x), "boxing and unboxing long"); }
JOB2(unbox_long) { c_long x = sym_long("x"); set_long(0, x); vp_assert(CALL(s, "unbox_long_byte", 1) != 0, "unboxing Long as byte throws"); set_long(0, x); vp_assert(CALL(s, "unbox_long_short", 1) != 0, "unboxing Long as short throws"); set_long(0, x); vp_assert(CALL(s, "unbox_long_int", 1) != 0, "unboxing Long as int throws"); set_long(0, x); vp_assert(CALL(s, "unbox_long_float", 1) != 0, "unboxing Long as float throws"); set_long(0, x); vp_assert(CALL(s, "unbox_long_double", 1) != 0, "unboxing Long as double throws"); ST[0].oval = 0; vp_assert(CALL(s, "unboxu_long", 1) != 0, "unboxing undef throws"); ST[0].oval = spv_str(s, "1", 1);  vp_assert(CALL(s, "unboxu_long", 1) != 0, "unboxing a string object as a number throws"); }
JOB2(cast_float_byte) { c_float x = sym_float("x"); int in = (((double)x > -129.0) & ((double)x < 128.0)); set_float(0, x); OK(CALL(s, "cast_float_byte", 1)); if (!in) return; vp_assert(same_byte(get_byte(), (c_byte)x), "(byte) of float"); set_float(0, x); OK(CALL(s, "pcast_float_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)x), "postfix cast"); }
JOB2(cast_float_short) { c_float x = sym_float("x"); int in = (((double)x > -32769.0) & ((double)x < 32768.0)); set_float(0, x); OK(CALL(s, "cast_float_short", 1)); if (!in) return; vp_assert(same_short(get_short(), (c_short)x), "(short) of float"); set_float(0, x); OK(CALL(s, "pcast_float_short", 1)); vp_assert(same_short(get_short(), (c_short)x), "postfix cast"); }
JOB2(cast_float_int) { c_float x = sym_float("x"); int in = ((x >= -2147483648.0f) & (x < 2147483648.0f)); set_float(0, x); OK(CALL(s, "cast_float_int", 1)); if (!in) return; vp_assert(same_int(get_int(), (c_int)x), "(int) of float"); set_float(0, x); OK(CALL(s, "pcast_float_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "postfix cast"); }
JOB2(cast_float_long) { c_float x = sym_float("x"); int in = ((x >= -9223372036854775808.0) & (x < 9223372036854775808.0)); set_float(0, x); OK(CALL(s, "cast_float_long", 1)); if (!in) return; vp_assert(same_long(get_long(), (c_long)x), "(long) of float"); set_float(0, x); OK(CALL(s, "pcast_float_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "postfix cast"); }
JOB2(cast_float_float) { c_float x = sym_float("x"); set_float(0, x); OK(CALL(s, "cast_float_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "(float) of float"); set_float(0, x); OK(CALL(s, "pcast_float_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "postfix cast"); }
JOB2(cast_float_double) { c_float x = sym_float("x"); set_float(0, x); OK(CALL(s, "cast_float_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "(double) of float"); set_float(0, x); OK(CALL(s, "pcast_float_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "postfix cast"); set_float(0, x); OK(CALL(s, "wid_float_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "implicit widening float to double"); }
JOB2(box_float) { c_float x = sym_float("x"); set_float(0, x); OK(CALL(s, "box_float", 1)); vp_assert(same_float(get_float(), x), "boxing and unboxing float"); }
JOB2(unbox_float) { c_float x = sym_float("x"); set_float(0, x); vp_assert(CALL(s, "unbox_float_byte", 1) != 0, "unboxing Float as byte throws"); set_float(0, x); vp_assert(CALL(s, "unbox_float_short", 1) != 0, "unboxing Float as short throws"); set_float(0, x); vp_assert(CALL(s, "unbox_float_int", 1) != 0, "unboxing Float as int throws"); set_float(0, x); vp_assert(CALL(s, "unbox_float_long", 1) != 0, "unboxing Float as long throws"); set_float(0, x); vp_assert(CALL(s, "unbox_float_double", 1) != 0, "unboxing Float as double throws"); ST[0].oval = 0; vp_assert(CALL(s, "unboxu_float", 1) != 0, "unboxing undef throws"); ST[0].oval = spv_str(s, "1", 1);  vp_assert(CALL(s, "unboxu_float", 1) != 0, "unboxing a string object as a number throws"); }
JOB2(cast_double_byte) { c_double x = sym_double("x"); int in = (((double)x > -129.0) & ((double)x < 128.0)); set_double(0, x); OK(CALL(s, "cast_double_byte", 1)); if (!in) return; vp_assert(same_byte(get_byte(), (c_byte)x), "(byte) of double"); set_double(0, x); OK(CALL(s, "pcast_double_byte", 1)); vp_assert(same_byte(get_byte(), (c_byte)x), "postfix cast"); }
JOB2(cast_double_short) { c_double x = sym_double("x"); int in = (((double)x > -32769.0) & ((double)x < 32768.0)); set_double(0, x); OK(CALL(s, "cast_double_short", 1)); if (!in) return; vp_assert(same_short(get_short(), (c_short)x), "(short) of double"); set_double(0, x); OK(CALL(s, "pcast_double_short", 1)); vp_assert(same_short(get_short(), (c_short)x), "postfix cast"); }
JOB2(cast_double_int) { c_double x = sym_double("x"); int in = (((double)x > -2147483649.0) & ((double)x < 2147483648.0)); set_double(0, x); OK(CALL(s, "cast_double_int", 1)); if (!in) return; vp_assert(same_int(get_int(), (c_int)x), "(int) of double"); set_double(0, x); OK(CALL(s, "pcast_double_int", 1)); vp_assert(same_int(get_int(), (c_int)x), "postfix cast"); }
JOB2(cast_double_long) { c_double x = sym_double("x"); int in = ((x >= -9223372036854775808.0) & (x < 9223372036854775808.0)); set_double(0, x); OK(CALL(s, "cast_double_long", 1)); if (!in) return; vp_assert(same_long(get_long(), (c_long)x), "(long) of double"); set_double(0, x); OK(CALL(s, "pcast_double_long", 1)); vp_assert(same_long(get_long(), (c_long)x), "postfix cast"); }
JOB2(cast_double_float) { c_double x = sym_double("x"); set_double(0, x); OK(CALL(s, "cast_double_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "(float) of double"); set_double(0, x); OK(CALL(s, "pcast_double_float", 1)); vp_assert(same_float(get_float(), (c_float)x), "postfix cast"); }
JOB2(cast_double_double) { c_double x = sym_double("x"); set_double(0, x); OK(CALL(s, "cast_double_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "(double) of double"); set_double(0, x); OK(CALL(s, "pcast_double_double", 1)); vp_assert(same_double(get_double(), (c_double)x), "postfix cast"); }
JOB2(box_double) { c_double x = sym_double("x"); set_double(0, x); OK(CALL(s, "box_double", 1)); vp_assert(same_double(get_double(), x), "boxing and unboxing double"); }
JOB2(unbox_double) { c_double x = sym_double("x"); set_double(0, x); vp_assert(CALL(s, "unbox_double_byte", 1) != 0, "unboxing Double as byte throws"); set_double(0, x); vp_assert(CALL(s, "unbox_double_short", 1) != 0, "unboxing Double as short throws"); set_double(0, x); vp_assert(CALL(s, "unbox_double_int", 1) != 0, "unboxing Double as int throws"); set_double(0, x); vp_assert(CALL(s, "unbox_double_long", 1) != 0, "unboxing Double as long throws"); set_double(0, x); vp_assert(CALL(s, "unbox_double_float", 1) != 0, "unboxing Double as float throws"); ST[0].oval = 0; vp_assert(CALL(s, "unboxu_double", 1) != 0, "unboxing undef throws"); ST[0].oval = spv_str(s, "1", 1);  vp_assert(CALL(s, "unboxu_double", 1) != 0, "unboxing a string object as a number throws"); }

static int utoa10(uint64_t v, char* o) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) o[i] = t[n - 1 - i]; return n; }
static void check_dec(SPV* s, int64_t x) { vp_assert(ST[0].oval != 0, "a string is returned"); const char* p = ENV->get_chars(ENV, ST, ST[0].oval); int n = ENV->length(ENV, ST, ST[0].oval);
  int neg = x < 0; vp_assert(n >= 1 + neg, "not empty"); if (neg) vp_assert(p[0] == '-', "sign"); uint64_t v = 0; int ok = 1; for (int i = neg; i < n; i++) { ok &= (p[i] >= '0') & (p[i] <= '9'); v = v * 10 + (uint64_t)(p[i] - '0'); }
  vp_assert(ok, "digits only"); vp_assert(n - neg <= 19, "no more digits than needed"); vp_assert(v == (neg ? 0 - (uint64_t)x : (uint64_t)x), "the digits denote the value"); vp_assert((p[neg] != '0') | (n == 1), "no leading zero"); vp_assert(p[n] == 0, "terminated"); }

JOB2(str_byte) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "str_byte", 1)); check_dec(s, x); set_byte(0, x); OK(CALL(s, "strc_byte", 1)); check_dec(s, x); }
JOB2(str_short) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "str_short", 1)); check_dec(s, x); set_short(0, x); OK(CALL(s, "strc_short", 1)); check_dec(s, x); }
JOB2(str_int) { c_int x = sym_int("x"); c_int lim = vp_thorough() ? 1000000 : 20000; vp_assume((x > -lim) & (x < lim)); set_int(0, x); OK(CALL(s, "str_int", 1)); check_dec(s, x); set_int(0, x); OK(CALL(s, "strc_int", 1)); check_dec(s, x); }
JOB2(str_long) { c_long x = sym_long("x"); c_long lim = vp_thorough() ? 1000000 : 2000; vp_assume((x > -lim) & (x < lim)); set_long(0, x); OK(CALL(s, "str_long", 1)); check_dec(s, x); set_long(0, x); OK(CALL(s, "strc_long", 1)); check_dec(s, x); }
JOB2(strx_int) { static const c_int base[] = { INT32_MIN, INT32_MIN + 9, -1000000001, -999999995, 999999995, INT32_MAX - 9 }; c_int x = base[vp_choice(vp_thorough() ? 6 : 3, "base")]; c_int d = sym_int("d"); vp_assume((d >= 0) & (d < 10)); x += d; set_int(0, x); OK(CALL(s, "str_int", 1)); check_dec(s, x); }
JOB2(strx_long) { static const c_long base[] = { INT64_MIN, INT64_MIN + 9, -1000000000000000001LL, 999999999999999995LL, INT64_MAX - 9, 4294967290LL, -4294967300LL }; c_long x = base[vp_choice(vp_thorough() ? 7 : 3, "base")]; c_long d = sym_long("d"); vp_assume((d >= 0) & (d < 10)); x += d; set_long(0, x); OK(CALL(s, "str_long", 1)); check_dec(s, x); }
static const c_float tab_float[24] = { 0, -0.0, 1, -1, 0.1, 0.5, 1.5, 100000, 123456, 1234567, 1e5, 1e6, 1e-4, 1e-5, 3.14159265358979, 2.5e10, 1e30, -1e-30, 16777216, 1.0/3, 123456.5, 999999.5, 1e38, 1e-38 };
JOB2(str_float) { int i = vp_choice(24, "i"); c_float x = tab_float[i]; char b[64]; snprintf(b, 64, "%g", x); set_float(0, x); OK(CALL(s, "str_float", 1)); vp_assert(ENV->length(ENV, ST, ST[0].oval) == (int)strlen(b), "length of the text"); vp_assert(memcmp(ENV->get_chars(ENV, ST, ST[0].oval), b, strlen(b) + 1) == 0, "text of the number"); }
static const c_double tab_double[24] = { 0, -0.0, 1, -1, 0.1, 0.5, 1.5, 100000, 123456, 1234567, 1e5, 1e6, 1e-4, 1e-5, 3.14159265358979, 2.5e10, 1e30, -1e-30, 16777216, 1.0/3, 123456.5, 999999.5, 1e38, 1e-38 };
JOB2(str_double) { int i = vp_choice(24, "i"); c_double x = tab_double[i]; char b[64]; snprintf(b, 64, "%g", x); set_double(0, x); OK(CALL(s, "str_double", 1)); vp_assert(ENV->length(ENV, ST, ST[0].oval) == (int)strlen(b), "length of the text"); vp_assert(memcmp(ENV->get_chars(ENV, ST, ST[0].oval), b, strlen(b) + 1) == 0, "text of the number"); }

static int64_t spec_strtoll(const char* p, int n, int* big) { int i = 0; *big = 0; while (i < n && (p[i] == ' ' || (p[i] >= 9 && p[i] <= 13))) i++; int neg = 0; if (i < n && (p[i] == '-' || p[i] == '+')) { neg = p[i] == '-'; i++; }
  uint64_t v = 0; for (; i < n && p[i] >= '0' && p[i] <= '9'; i++) { if (!*big) { uint64_t d = p[i] - '0'; if (v > (uint64_t)INT64_MAX / 10 || v * 10 > (uint64_t)INT64_MAX + neg - d) *big = 1; else v = v * 10 + d; } } if (*big) return neg ? INT64_MIN : INT64_MAX; return neg ? (int64_t)(0 - v) : (int64_t)v; }
static int64_t clampv(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }

JOB2(num_byte) { int n = vp_choice(vp_thorough() ? 5 : 4, "len"); char b[8]; vp_symbolic(b, n, "text"); b[n] = 0; void* st = spv_str(s, b, n); ST[0].oval = st; OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte"); ST[0].oval = 0; OK(CALL(s, "num_byte", 1)); vp_assert(get_byte() == 0, "undef converts to 0"); }
JOB2(num_byte_big) { char b[32] = "-9223372036854775"; int m = 17, n = m + 3; vp_symbolic(b + m, 3, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte near the limits"); vp_observe(get_byte()); }
JOB2(num_byte_bigp) { char b[32] = "9223372036854775"; int m = 16, n = m + 4; vp_symbolic(b + m, 4, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte near the limits"); vp_observe(get_byte()); }
JOB2(num_byte_i32) { char b[32] = "-21474836"; int m = 9, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte near the limits"); vp_observe(get_byte()); }
JOB2(num_byte_i32p) { char b[32] = "21474836"; int m = 8, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte near the limits"); vp_observe(get_byte()); }
JOB2(num_byte_i16) { char b[32] = "-327"; int m = 4, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte near the limits"); vp_observe(get_byte()); }
JOB2(num_byte_i16p) { char b[32] = "327"; int m = 3, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte near the limits"); vp_observe(get_byte()); }
JOB2(num_byte_i8p) { char b[32] = "1"; int m = 1, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte near the limits"); vp_observe(get_byte()); }
JOB2(num_byte_i8) { char b[32] = "-1"; int m = 2, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_byte", 1)); int big; vp_assert(same_byte(get_byte(), clampv(spec_strtoll(b, n, &big), INT8_MIN, INT8_MAX)), "string to byte near the limits"); vp_observe(get_byte()); }
JOB2(num_short) { int n = vp_choice(vp_thorough() ? 5 : 4, "len"); char b[8]; vp_symbolic(b, n, "text"); b[n] = 0; void* st = spv_str(s, b, n); ST[0].oval = st; OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short"); ST[0].oval = 0; OK(CALL(s, "num_short", 1)); vp_assert(get_short() == 0, "undef converts to 0"); }
JOB2(num_short_big) { char b[32] = "-9223372036854775"; int m = 17, n = m + 3; vp_symbolic(b + m, 3, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short near the limits"); vp_observe(get_short()); }
JOB2(num_short_bigp) { char b[32] = "9223372036854775"; int m = 16, n = m + 4; vp_symbolic(b + m, 4, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short near the limits"); vp_observe(get_short()); }
JOB2(num_short_i32) { char b[32] = "-21474836"; int m = 9, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short near the limits"); vp_observe(get_short()); }
JOB2(num_short_i32p) { char b[32] = "21474836"; int m = 8, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short near the limits"); vp_observe(get_short()); }
JOB2(num_short_i16) { char b[32] = "-327"; int m = 4, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short near the limits"); vp_observe(get_short()); }
JOB2(num_short_i16p) { char b[32] = "327"; int m = 3, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short near the limits"); vp_observe(get_short()); }
JOB2(num_short_i8p) { char b[32] = "1"; int m = 1, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short near the limits"); vp_observe(get_short()); }
JOB2(num_short_i8) { char b[32] = "-1"; int m = 2, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_short", 1)); int big; vp_assert(same_short(get_short(), clampv(spec_strtoll(b, n, &big), INT16_MIN, INT16_MAX)), "string to short near the limits"); vp_observe(get_short()); }
JOB2(num_int) { int n = vp_choice(vp_thorough() ? 5 : 4, "len"); char b[8]; vp_symbolic(b, n, "text"); b[n] = 0; void* st = spv_str(s, b, n); ST[0].oval = st; OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int"); ST[0].oval = 0; OK(CALL(s, "num_int", 1)); vp_assert(get_int() == 0, "undef converts to 0"); }
JOB2(num_int_big) { char b[32] = "-9223372036854775"; int m = 17, n = m + 3; vp_symbolic(b + m, 3, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int near the limits"); vp_observe(get_int()); }
JOB2(num_int_bigp) { char b[32] = "9223372036854775"; int m = 16, n = m + 4; vp_symbolic(b + m, 4, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int near the limits"); vp_observe(get_int()); }
JOB2(num_int_i32) { char b[32] = "-21474836"; int m = 9, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int near the limits"); vp_observe(get_int()); }
JOB2(num_int_i32p) { char b[32] = "21474836"; int m = 8, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int near the limits"); vp_observe(get_int()); }
JOB2(num_int_i16) { char b[32] = "-327"; int m = 4, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int near the limits"); vp_observe(get_int()); }
JOB2(num_int_i16p) { char b[32] = "327"; int m = 3, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int near the limits"); vp_observe(get_int()); }
JOB2(num_int_i8p) { char b[32] = "1"; int m = 1, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int near the limits"); vp_observe(get_int()); }
JOB2(num_int_i8) { char b[32] = "-1"; int m = 2, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_int", 1)); int big; vp_assert(same_int(get_int(), clampv(spec_strtoll(b, n, &big), INT32_MIN, INT32_MAX)), "string to int near the limits"); vp_observe(get_int()); }
JOB2(num_long) { int n = vp_choice(vp_thorough() ? 5 : 4, "len"); char b[8]; vp_symbolic(b, n, "text"); b[n] = 0; void* st = spv_str(s, b, n); ST[0].oval = st; OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long"); ST[0].oval = 0; OK(CALL(s, "num_long", 1)); vp_assert(get_long() == 0, "undef converts to 0"); }
JOB2(num_long_big) { char b[32] = "-9223372036854775"; int m = 17, n = m + 3; vp_symbolic(b + m, 3, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long near the limits"); vp_observe(get_long()); }
JOB2(num_long_bigp) { char b[32] = "9223372036854775"; int m = 16, n = m + 4; vp_symbolic(b + m, 4, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long near the limits"); vp_observe(get_long()); }
JOB2(num_long_i32) { char b[32] = "-21474836"; int m = 9, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long near the limits"); vp_observe(get_long()); }
JOB2(num_long_i32p) { char b[32] = "21474836"; int m = 8, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long near the limits"); vp_observe(get_long()); }
JOB2(num_long_i16) { char b[32] = "-327"; int m = 4, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long near the limits"); vp_observe(get_long()); }
JOB2(num_long_i16p) { char b[32] = "327"; int m = 3, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long near the limits"); vp_observe(get_long()); }
JOB2(num_long_i8p) { char b[32] = "1"; int m = 1, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long near the limits"); vp_observe(get_long()); }
JOB2(num_long_i8) { char b[32] = "-1"; int m = 2, n = m + 2; vp_symbolic(b + m, 2, "digits"); int ok = 1; for (int i = m; i < n; i++) ok &= (b[i] >= '0') & (b[i] <= '9'); vp_assume(ok); ST[0].oval = spv_str(s, b, n); OK(CALL(s, "num_long", 1)); int big; vp_assert(same_long(get_long(), clampv(spec_strtoll(b, n, &big), INT64_MIN, INT64_MAX)), "string to long near the limits"); vp_observe(get_long()); }
JOB2(num_float) { static const char* T[] = { "", "0", "-0", "1.5", "  2.25x", "1e3", "-1e-3", "inf", "-INF", "nan", "0x10", "1e400", "abc", "1e-400", "123456789.123456789", "0.1", "16777217", ".5", "5." }; const char* p = T[vp_choice(19, "i")]; c_float w = strtof(p, 0); ST[0].oval = spv_str(s, p, strlen(p)); OK(CALL(s, "num_float", 1)); vp_assert(same_float(get_float(), w), "string to float"); ST[0].oval = 0; OK(CALL(s, "num_float", 1)); vp_assert(get_float() == 0, "undef converts to 0"); }
JOB2(num_double) { static const char* T[] = { "", "0", "-0", "1.5", "  2.25x", "1e3", "-1e-3", "inf", "-INF", "nan", "0x10", "1e400", "abc", "1e-400", "123456789.123456789", "0.1", "16777217", ".5", "5." }; const char* p = T[vp_choice(19, "i")]; c_double w = strtod(p, 0); ST[0].oval = spv_str(s, p, strlen(p)); OK(CALL(s, "num_double", 1)); vp_assert(same_double(get_double(), w), "string to double"); ST[0].oval = 0; OK(CALL(s, "num_double", 1)); vp_assert(get_double() == 0, "undef converts to 0"); }

JOB2(bytes) { int n = vp_choice(6, "len"); char b[8]; vp_symbolic(b, n, "text"); b[n] = 0; void* st = spv_str(s, b, n); ST[0].oval = st; OK(CALL(s, "s2b", 1)); void* a = ST[0].oval; vp_assert(a != 0 && a != st, "a new array"); ENV->push_mortal(ENV, ST, a);
  vp_assert(ENV->length(ENV, ST, a) == n, "length of the array"); vp_assert(memcmp(ENV->get_elems_byte(ENV, ST, a), b, n) == 0, "elements are the characters");
  ST[0].oval = a; OK(CALL(s, "b2s", 1)); void* r = ST[0].oval; vp_assert(r != 0 && r != st && r != a, "a new string"); vp_assert(ENV->length(ENV, ST, r) == n, "length of the string"); vp_assert(memcmp(ENV->get_chars(ENV, ST, r), b, n + 1) == 0, "characters are the elements, terminated");
  ST[0].oval = 0; OK(CALL(s, "s2b", 1)); vp_assert(ST[0].oval == 0, "undef stays undef"); ST[0].oval = 0; OK(CALL(s, "b2s", 1)); vp_assert(ST[0].oval == 0, "undef stays undef"); }

