/*vp {"pc":"VP","time":120,"bounds":["every pair of integer operand types and every operand value; shift amounts: every value whose result C defines (0 <= amount < width), other amounts only for absence of memory errors","one operator application per run"]} */
// generated by tools/gen_*.py
#include "lang.h"

JOB2(and_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "and_byte_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "byte & byte"); obs_int(r); }
JOB2(as_and_local_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_and_local_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x & (c_int)y)), "byte &= byte"); }
JOB2(as_and_field_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_and_field_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x & (c_int)y)), "byte &= byte"); }
JOB2(as_and_elem_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_and_elem_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x & (c_int)y)), "byte &= byte"); }
JOB2(as_and_cvar_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_and_cvar_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x & (c_int)y)), "byte &= byte"); }
JOB2(as_and_ref_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_and_ref_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x & (c_int)y)), "byte &= byte"); }
JOB2(and_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); OK(CALL(s, "and_byte_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "byte & short"); obs_int(r); }
JOB2(as_and_local_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); OK(CALL(s, "as_and_local_byte_short", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x & (c_int)y)), "byte &= short"); }
JOB2(and_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); OK(CALL(s, "and_byte_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "byte & int"); obs_int(r); }
JOB2(as_and_local_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); OK(CALL(s, "as_and_local_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x & (c_int)y)), "byte &= int"); }
JOB2(and_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); OK(CALL(s, "and_byte_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x & (c_long)y)), "byte & long"); obs_long(r); }
JOB2(as_and_local_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); OK(CALL(s, "as_and_local_byte_long", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_long)x & (c_long)y)), "byte &= long"); }
JOB2(and_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); OK(CALL(s, "and_short_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "short & byte"); obs_int(r); }
JOB2(as_and_local_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); OK(CALL(s, "as_and_local_short_byte", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x & (c_int)y)), "short &= byte"); }
JOB2(and_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "and_short_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "short & short"); obs_int(r); }
JOB2(as_and_local_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_and_local_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x & (c_int)y)), "short &= short"); }
JOB2(as_and_field_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_and_field_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x & (c_int)y)), "short &= short"); }
JOB2(as_and_elem_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_and_elem_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x & (c_int)y)), "short &= short"); }
JOB2(as_and_cvar_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_and_cvar_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x & (c_int)y)), "short &= short"); }
JOB2(as_and_ref_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_and_ref_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x & (c_int)y)), "short &= short"); }
JOB2(and_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); OK(CALL(s, "and_short_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "short & int"); obs_int(r); }
JOB2(as_and_local_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); OK(CALL(s, "as_and_local_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x & (c_int)y)), "short &= int"); }
JOB2(and_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); OK(CALL(s, "and_short_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x & (c_long)y)), "short & long"); obs_long(r); }
JOB2(as_and_local_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); OK(CALL(s, "as_and_local_short_long", 2)); vp_assert(same_short(get_short(), (c_short)((c_long)x & (c_long)y)), "short &= long"); }
JOB2(and_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); OK(CALL(s, "and_int_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "int & byte"); obs_int(r); }
JOB2(as_and_local_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); OK(CALL(s, "as_and_local_int_byte", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x & (c_int)y)), "int &= byte"); }
JOB2(and_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); OK(CALL(s, "and_int_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "int & short"); obs_int(r); }
JOB2(as_and_local_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); OK(CALL(s, "as_and_local_int_short", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x & (c_int)y)), "int &= short"); }
JOB2(and_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "and_int_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x & (c_int)y)), "int & int"); obs_int(r); }
JOB2(as_and_local_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_and_local_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x & (c_int)y)), "int &= int"); }
JOB2(as_and_field_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_and_field_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x & (c_int)y)), "int &= int"); }
JOB2(as_and_elem_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_and_elem_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x & (c_int)y)), "int &= int"); }
JOB2(as_and_cvar_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_and_cvar_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x & (c_int)y)), "int &= int"); }
JOB2(as_and_ref_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_and_ref_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x & (c_int)y)), "int &= int"); }
JOB2(and_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); OK(CALL(s, "and_int_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x & (c_long)y)), "int & long"); obs_long(r); }
JOB2(as_and_local_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); OK(CALL(s, "as_and_local_int_long", 2)); vp_assert(same_int(get_int(), (c_int)((c_long)x & (c_long)y)), "int &= long"); }
JOB2(and_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); OK(CALL(s, "and_long_byte", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x & (c_long)y)), "long & byte"); obs_long(r); }
JOB2(as_and_local_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); OK(CALL(s, "as_and_local_long_byte", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x & (c_long)y)), "long &= byte"); }
JOB2(and_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); OK(CALL(s, "and_long_short", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x & (c_long)y)), "long & short"); obs_long(r); }
JOB2(as_and_local_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); OK(CALL(s, "as_and_local_long_short", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x & (c_long)y)), "long &= short"); }
JOB2(and_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); OK(CALL(s, "and_long_int", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x & (c_long)y)), "long & int"); obs_long(r); }
JOB2(as_and_local_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); OK(CALL(s, "as_and_local_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x & (c_long)y)), "long &= int"); }
JOB2(and_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "and_long_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x & (c_long)y)), "long & long"); obs_long(r); }
JOB2(as_and_local_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_and_local_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x & (c_long)y)), "long &= long"); }
JOB2(as_and_field_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_and_field_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x & (c_long)y)), "long &= long"); }
JOB2(as_and_elem_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_and_elem_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x & (c_long)y)), "long &= long"); }
JOB2(as_and_cvar_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_and_cvar_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x & (c_long)y)), "long &= long"); }
JOB2(as_and_ref_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_and_ref_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x & (c_long)y)), "long &= long"); }
JOB2(or_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "or_byte_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "byte | byte"); obs_int(r); }
JOB2(as_or_local_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_or_local_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x | (c_int)y)), "byte |= byte"); }
JOB2(as_or_field_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_or_field_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x | (c_int)y)), "byte |= byte"); }
JOB2(as_or_elem_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_or_elem_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x | (c_int)y)), "byte |= byte"); }
JOB2(as_or_cvar_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_or_cvar_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x | (c_int)y)), "byte |= byte"); }
JOB2(as_or_ref_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_or_ref_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x | (c_int)y)), "byte |= byte"); }
JOB2(or_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); OK(CALL(s, "or_byte_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "byte | short"); obs_int(r); }
JOB2(as_or_local_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); OK(CALL(s, "as_or_local_byte_short", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x | (c_int)y)), "byte |= short"); }
JOB2(or_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); OK(CALL(s, "or_byte_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "byte | int"); obs_int(r); }
JOB2(as_or_local_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); OK(CALL(s, "as_or_local_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x | (c_int)y)), "byte |= int"); }
JOB2(or_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); OK(CALL(s, "or_byte_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x | (c_long)y)), "byte | long"); obs_long(r); }
JOB2(as_or_local_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); OK(CALL(s, "as_or_local_byte_long", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_long)x | (c_long)y)), "byte |= long"); }
JOB2(or_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); OK(CALL(s, "or_short_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "short | byte"); obs_int(r); }
JOB2(as_or_local_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); OK(CALL(s, "as_or_local_short_byte", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x | (c_int)y)), "short |= byte"); }
JOB2(or_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "or_short_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "short | short"); obs_int(r); }
JOB2(as_or_local_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_or_local_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x | (c_int)y)), "short |= short"); }
JOB2(as_or_field_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_or_field_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x | (c_int)y)), "short |= short"); }
JOB2(as_or_elem_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_or_elem_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x | (c_int)y)), "short |= short"); }
JOB2(as_or_cvar_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_or_cvar_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x | (c_int)y)), "short |= short"); }
JOB2(as_or_ref_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_or_ref_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x | (c_int)y)), "short |= short"); }
JOB2(or_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); OK(CALL(s, "or_short_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "short | int"); obs_int(r); }
JOB2(as_or_local_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); OK(CALL(s, "as_or_local_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x | (c_int)y)), "short |= int"); }
JOB2(or_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); OK(CALL(s, "or_short_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x | (c_long)y)), "short | long"); obs_long(r); }
JOB2(as_or_local_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); OK(CALL(s, "as_or_local_short_long", 2)); vp_assert(same_short(get_short(), (c_short)((c_long)x | (c_long)y)), "short |= long"); }
JOB2(or_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); OK(CALL(s, "or_int_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "int | byte"); obs_int(r); }
JOB2(as_or_local_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); OK(CALL(s, "as_or_local_int_byte", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x | (c_int)y)), "int |= byte"); }
JOB2(or_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); OK(CALL(s, "or_int_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "int | short"); obs_int(r); }
JOB2(as_or_local_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); OK(CALL(s, "as_or_local_int_short", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x | (c_int)y)), "int |= short"); }
JOB2(or_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "or_int_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x | (c_int)y)), "int | int"); obs_int(r); }
JOB2(as_or_local_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_or_local_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x | (c_int)y)), "int |= int"); }
JOB2(as_or_field_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_or_field_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x | (c_int)y)), "int |= int"); }
JOB2(as_or_elem_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_or_elem_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x | (c_int)y)), "int |= int"); }
JOB2(as_or_cvar_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_or_cvar_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x | (c_int)y)), "int |= int"); }
JOB2(as_or_ref_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_or_ref_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x | (c_int)y)), "int |= int"); }
JOB2(or_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); OK(CALL(s, "or_int_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x | (c_long)y)), "int | long"); obs_long(r); }
JOB2(as_or_local_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); OK(CALL(s, "as_or_local_int_long", 2)); vp_assert(same_int(get_int(), (c_int)((c_long)x | (c_long)y)), "int |= long"); }
JOB2(or_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); OK(CALL(s, "or_long_byte", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x | (c_long)y)), "long | byte"); obs_long(r); }
JOB2(as_or_local_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); OK(CALL(s, "as_or_local_long_byte", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x | (c_long)y)), "long |= byte"); }
JOB2(or_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); OK(CALL(s, "or_long_short", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x | (c_long)y)), "long | short"); obs_long(r); }
JOB2(as_or_local_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); OK(CALL(s, "as_or_local_long_short", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x | (c_long)y)), "long |= short"); }
JOB2(or_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); OK(CALL(s, "or_long_int", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x | (c_long)y)), "long | int"); obs_long(r); }
JOB2(as_or_local_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); OK(CALL(s, "as_or_local_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x | (c_long)y)), "long |= int"); }
JOB2(or_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "or_long_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x | (c_long)y)), "long | long"); obs_long(r); }
JOB2(as_or_local_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_or_local_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x | (c_long)y)), "long |= long"); }
JOB2(as_or_field_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_or_field_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x | (c_long)y)), "long |= long"); }
JOB2(as_or_elem_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_or_elem_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x | (c_long)y)), "long |= long"); }
JOB2(as_or_cvar_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_or_cvar_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x | (c_long)y)), "long |= long"); }
JOB2(as_or_ref_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_or_ref_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x | (c_long)y)), "long |= long"); }
JOB2(xor_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "xor_byte_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "byte ^ byte"); obs_int(r); }
JOB2(as_xor_local_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_xor_local_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x ^ (c_int)y)), "byte ^= byte"); }
JOB2(as_xor_field_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_xor_field_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x ^ (c_int)y)), "byte ^= byte"); }
JOB2(as_xor_elem_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_xor_elem_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x ^ (c_int)y)), "byte ^= byte"); }
JOB2(as_xor_cvar_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_xor_cvar_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x ^ (c_int)y)), "byte ^= byte"); }
JOB2(as_xor_ref_byte_byte) { c_byte x = sym_byte("x"); c_byte y = sym_byte("y"); set_byte(0, x); set_byte(1, y); OK(CALL(s, "as_xor_ref_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x ^ (c_int)y)), "byte ^= byte"); }
JOB2(xor_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); OK(CALL(s, "xor_byte_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "byte ^ short"); obs_int(r); }
JOB2(as_xor_local_byte_short) { c_byte x = sym_byte("x"); c_short y = sym_short("y"); set_byte(0, x); set_short(1, y); OK(CALL(s, "as_xor_local_byte_short", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x ^ (c_int)y)), "byte ^= short"); }
JOB2(xor_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); OK(CALL(s, "xor_byte_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "byte ^ int"); obs_int(r); }
JOB2(as_xor_local_byte_int) { c_byte x = sym_byte("x"); c_int y = sym_int("y"); set_byte(0, x); set_int(1, y); OK(CALL(s, "as_xor_local_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)x ^ (c_int)y)), "byte ^= int"); }
JOB2(xor_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); OK(CALL(s, "xor_byte_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x ^ (c_long)y)), "byte ^ long"); obs_long(r); }
JOB2(as_xor_local_byte_long) { c_byte x = sym_byte("x"); c_long y = sym_long("y"); set_byte(0, x); set_long(1, y); OK(CALL(s, "as_xor_local_byte_long", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_long)x ^ (c_long)y)), "byte ^= long"); }
JOB2(xor_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); OK(CALL(s, "xor_short_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "short ^ byte"); obs_int(r); }
JOB2(as_xor_local_short_byte) { c_short x = sym_short("x"); c_byte y = sym_byte("y"); set_short(0, x); set_byte(1, y); OK(CALL(s, "as_xor_local_short_byte", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x ^ (c_int)y)), "short ^= byte"); }
JOB2(xor_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "xor_short_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "short ^ short"); obs_int(r); }
JOB2(as_xor_local_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_xor_local_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x ^ (c_int)y)), "short ^= short"); }
JOB2(as_xor_field_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_xor_field_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x ^ (c_int)y)), "short ^= short"); }
JOB2(as_xor_elem_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_xor_elem_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x ^ (c_int)y)), "short ^= short"); }
JOB2(as_xor_cvar_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_xor_cvar_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x ^ (c_int)y)), "short ^= short"); }
JOB2(as_xor_ref_short_short) { c_short x = sym_short("x"); c_short y = sym_short("y"); set_short(0, x); set_short(1, y); OK(CALL(s, "as_xor_ref_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x ^ (c_int)y)), "short ^= short"); }
JOB2(xor_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); OK(CALL(s, "xor_short_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "short ^ int"); obs_int(r); }
JOB2(as_xor_local_short_int) { c_short x = sym_short("x"); c_int y = sym_int("y"); set_short(0, x); set_int(1, y); OK(CALL(s, "as_xor_local_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)x ^ (c_int)y)), "short ^= int"); }
JOB2(xor_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); OK(CALL(s, "xor_short_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x ^ (c_long)y)), "short ^ long"); obs_long(r); }
JOB2(as_xor_local_short_long) { c_short x = sym_short("x"); c_long y = sym_long("y"); set_short(0, x); set_long(1, y); OK(CALL(s, "as_xor_local_short_long", 2)); vp_assert(same_short(get_short(), (c_short)((c_long)x ^ (c_long)y)), "short ^= long"); }
JOB2(xor_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); OK(CALL(s, "xor_int_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "int ^ byte"); obs_int(r); }
JOB2(as_xor_local_int_byte) { c_int x = sym_int("x"); c_byte y = sym_byte("y"); set_int(0, x); set_byte(1, y); OK(CALL(s, "as_xor_local_int_byte", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x ^ (c_int)y)), "int ^= byte"); }
JOB2(xor_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); OK(CALL(s, "xor_int_short", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "int ^ short"); obs_int(r); }
JOB2(as_xor_local_int_short) { c_int x = sym_int("x"); c_short y = sym_short("y"); set_int(0, x); set_short(1, y); OK(CALL(s, "as_xor_local_int_short", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x ^ (c_int)y)), "int ^= short"); }
JOB2(xor_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "xor_int_int", 2)); c_int r = get_int(); vp_assert(same_int(r, ((c_int)x ^ (c_int)y)), "int ^ int"); obs_int(r); }
JOB2(as_xor_local_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_xor_local_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x ^ (c_int)y)), "int ^= int"); }
JOB2(as_xor_field_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_xor_field_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x ^ (c_int)y)), "int ^= int"); }
JOB2(as_xor_elem_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_xor_elem_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x ^ (c_int)y)), "int ^= int"); }
JOB2(as_xor_cvar_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_xor_cvar_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x ^ (c_int)y)), "int ^= int"); }
JOB2(as_xor_ref_int_int) { c_int x = sym_int("x"); c_int y = sym_int("y"); set_int(0, x); set_int(1, y); OK(CALL(s, "as_xor_ref_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)x ^ (c_int)y)), "int ^= int"); }
JOB2(xor_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); OK(CALL(s, "xor_int_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x ^ (c_long)y)), "int ^ long"); obs_long(r); }
JOB2(as_xor_local_int_long) { c_int x = sym_int("x"); c_long y = sym_long("y"); set_int(0, x); set_long(1, y); OK(CALL(s, "as_xor_local_int_long", 2)); vp_assert(same_int(get_int(), (c_int)((c_long)x ^ (c_long)y)), "int ^= long"); }
JOB2(xor_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); OK(CALL(s, "xor_long_byte", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x ^ (c_long)y)), "long ^ byte"); obs_long(r); }
JOB2(as_xor_local_long_byte) { c_long x = sym_long("x"); c_byte y = sym_byte("y"); set_long(0, x); set_byte(1, y); OK(CALL(s, "as_xor_local_long_byte", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x ^ (c_long)y)), "long ^= byte"); }
JOB2(xor_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); OK(CALL(s, "xor_long_short", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x ^ (c_long)y)), "long ^ short"); obs_long(r); }
JOB2(as_xor_local_long_short) { c_long x = sym_long("x"); c_short y = sym_short("y"); set_long(0, x); set_short(1, y); OK(CALL(s, "as_xor_local_long_short", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x ^ (c_long)y)), "long ^= short"); }
JOB2(xor_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); OK(CALL(s, "xor_long_int", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x ^ (c_long)y)), "long ^ int"); obs_long(r); }
JOB2(as_xor_local_long_int) { c_long x = sym_long("x"); c_int y = sym_int("y"); set_long(0, x); set_int(1, y); OK(CALL(s, "as_xor_local_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x ^ (c_long)y)), "long ^= int"); }
JOB2(xor_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "xor_long_long", 2)); c_long r = get_long(); vp_assert(same_long(r, ((c_long)x ^ (c_long)y)), "long ^ long"); obs_long(r); }
JOB2(as_xor_local_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_xor_local_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x ^ (c_long)y)), "long ^= long"); }
JOB2(as_xor_field_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_xor_field_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x ^ (c_long)y)), "long ^= long"); }
JOB2(as_xor_elem_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_xor_elem_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x ^ (c_long)y)), "long ^= long"); }
JOB2(as_xor_cvar_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_xor_cvar_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x ^ (c_long)y)), "long ^= long"); }
JOB2(as_xor_ref_long_long) { c_long x = sym_long("x"); c_long y = sym_long("y"); set_long(0, x); set_long(1, y); OK(CALL(s, "as_xor_ref_long_long", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)x ^ (c_long)y)), "long ^= long"); }
JOB2(not_byte) { c_byte x = sym_byte("x"); set_byte(0, x); OK(CALL(s, "not_byte", 1)); vp_assert(same_int(get_int(), ~(c_int)x), "bitwise not"); obs_int(get_int()); }
JOB2(not_short) { c_short x = sym_short("x"); set_short(0, x); OK(CALL(s, "not_short", 1)); vp_assert(same_int(get_int(), ~(c_int)x), "bitwise not"); obs_int(get_int()); }
JOB2(not_int) { c_int x = sym_int("x"); set_int(0, x); OK(CALL(s, "not_int", 1)); vp_assert(same_int(get_int(), ~(c_int)x), "bitwise not"); obs_int(get_int()); }
JOB2(not_long) { c_long x = sym_long("x"); set_long(0, x); OK(CALL(s, "not_long", 1)); vp_assert(same_long(get_long(), ~(c_long)x), "bitwise not"); obs_long(get_long()); }
JOB2(shl_byte_byte) { c_byte x = sym_byte("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_byte(1, n); OK(CALL(s, "shl_byte_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "byte << byte"); obs_int(r); }
JOB2(as_shl_local_byte_byte) { c_byte x = sym_byte("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_byte(1, n); OK(CALL(s, "as_shl_local_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x << n))), "byte <<= byte"); }
JOB2(shl_byte_short) { c_byte x = sym_byte("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_short(1, n); OK(CALL(s, "shl_byte_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "byte << short"); obs_int(r); }
JOB2(as_shl_local_byte_short) { c_byte x = sym_byte("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_short(1, n); OK(CALL(s, "as_shl_local_byte_short", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x << n))), "byte <<= short"); }
JOB2(shl_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "shl_byte_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "byte << int"); obs_int(r); }
JOB2(as_shl_local_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shl_local_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x << n))), "byte <<= int"); }
JOB2(as_shl_field_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shl_field_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x << n))), "byte <<= int"); }
JOB2(as_shl_elem_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shl_elem_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x << n))), "byte <<= int"); }
JOB2(as_shl_cvar_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shl_cvar_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x << n))), "byte <<= int"); }
JOB2(as_shl_ref_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shl_ref_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x << n))), "byte <<= int"); }
JOB2(shl_short_byte) { c_short x = sym_short("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_byte(1, n); OK(CALL(s, "shl_short_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "short << byte"); obs_int(r); }
JOB2(as_shl_local_short_byte) { c_short x = sym_short("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_byte(1, n); OK(CALL(s, "as_shl_local_short_byte", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x << n))), "short <<= byte"); }
JOB2(shl_short_short) { c_short x = sym_short("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_short(1, n); OK(CALL(s, "shl_short_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "short << short"); obs_int(r); }
JOB2(as_shl_local_short_short) { c_short x = sym_short("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_short(1, n); OK(CALL(s, "as_shl_local_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x << n))), "short <<= short"); }
JOB2(shl_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "shl_short_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "short << int"); obs_int(r); }
JOB2(as_shl_local_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shl_local_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x << n))), "short <<= int"); }
JOB2(as_shl_field_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shl_field_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x << n))), "short <<= int"); }
JOB2(as_shl_elem_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shl_elem_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x << n))), "short <<= int"); }
JOB2(as_shl_cvar_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shl_cvar_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x << n))), "short <<= int"); }
JOB2(as_shl_ref_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shl_ref_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x << n))), "short <<= int"); }
JOB2(shl_int_byte) { c_int x = sym_int("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_byte(1, n); OK(CALL(s, "shl_int_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "int << byte"); obs_int(r); }
JOB2(as_shl_local_int_byte) { c_int x = sym_int("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_byte(1, n); OK(CALL(s, "as_shl_local_int_byte", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x << n))), "int <<= byte"); }
JOB2(shl_int_short) { c_int x = sym_int("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_short(1, n); OK(CALL(s, "shl_int_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "int << short"); obs_int(r); }
JOB2(as_shl_local_int_short) { c_int x = sym_int("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_short(1, n); OK(CALL(s, "as_shl_local_int_short", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x << n))), "int <<= short"); }
JOB2(shl_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "shl_int_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x << n)), "int << int"); obs_int(r); }
JOB2(as_shl_local_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shl_local_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x << n))), "int <<= int"); }
JOB2(as_shl_field_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shl_field_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x << n))), "int <<= int"); }
JOB2(as_shl_elem_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shl_elem_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x << n))), "int <<= int"); }
JOB2(as_shl_cvar_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shl_cvar_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x << n))), "int <<= int"); }
JOB2(as_shl_ref_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shl_ref_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x << n))), "int <<= int"); }
JOB2(shl_long_byte) { c_long x = sym_long("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_byte(1, n); OK(CALL(s, "shl_long_byte", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x << n)), "long << byte"); obs_long(r); }
JOB2(as_shl_local_long_byte) { c_long x = sym_long("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_byte(1, n); OK(CALL(s, "as_shl_local_long_byte", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x << n))), "long <<= byte"); }
JOB2(shl_long_short) { c_long x = sym_long("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_short(1, n); OK(CALL(s, "shl_long_short", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x << n)), "long << short"); obs_long(r); }
JOB2(as_shl_local_long_short) { c_long x = sym_long("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_short(1, n); OK(CALL(s, "as_shl_local_long_short", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x << n))), "long <<= short"); }
JOB2(shl_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "shl_long_int", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x << n)), "long << int"); obs_long(r); }
JOB2(as_shl_local_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shl_local_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x << n))), "long <<= int"); }
JOB2(as_shl_field_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shl_field_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x << n))), "long <<= int"); }
JOB2(as_shl_elem_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shl_elem_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x << n))), "long <<= int"); }
JOB2(as_shl_cvar_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shl_cvar_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x << n))), "long <<= int"); }
JOB2(as_shl_ref_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shl_ref_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x << n))), "long <<= int"); }
JOB2(sar_byte_byte) { c_byte x = sym_byte("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_byte(1, n); OK(CALL(s, "sar_byte_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "byte >> byte"); obs_int(r); }
JOB2(as_sar_local_byte_byte) { c_byte x = sym_byte("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_byte(1, n); OK(CALL(s, "as_sar_local_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "byte >>= byte"); }
JOB2(sar_byte_short) { c_byte x = sym_byte("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_short(1, n); OK(CALL(s, "sar_byte_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "byte >> short"); obs_int(r); }
JOB2(as_sar_local_byte_short) { c_byte x = sym_byte("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_short(1, n); OK(CALL(s, "as_sar_local_byte_short", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "byte >>= short"); }
JOB2(sar_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "sar_byte_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "byte >> int"); obs_int(r); }
JOB2(as_sar_local_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_sar_local_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "byte >>= int"); }
JOB2(as_sar_field_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_sar_field_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "byte >>= int"); }
JOB2(as_sar_elem_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_sar_elem_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "byte >>= int"); }
JOB2(as_sar_cvar_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_sar_cvar_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "byte >>= int"); }
JOB2(as_sar_ref_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_sar_ref_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "byte >>= int"); }
JOB2(sar_short_byte) { c_short x = sym_short("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_byte(1, n); OK(CALL(s, "sar_short_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "short >> byte"); obs_int(r); }
JOB2(as_sar_local_short_byte) { c_short x = sym_short("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_byte(1, n); OK(CALL(s, "as_sar_local_short_byte", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "short >>= byte"); }
JOB2(sar_short_short) { c_short x = sym_short("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_short(1, n); OK(CALL(s, "sar_short_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "short >> short"); obs_int(r); }
JOB2(as_sar_local_short_short) { c_short x = sym_short("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_short(1, n); OK(CALL(s, "as_sar_local_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "short >>= short"); }
JOB2(sar_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "sar_short_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "short >> int"); obs_int(r); }
JOB2(as_sar_local_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_sar_local_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "short >>= int"); }
JOB2(as_sar_field_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_sar_field_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "short >>= int"); }
JOB2(as_sar_elem_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_sar_elem_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "short >>= int"); }
JOB2(as_sar_cvar_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_sar_cvar_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "short >>= int"); }
JOB2(as_sar_ref_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_sar_ref_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "short >>= int"); }
JOB2(sar_int_byte) { c_int x = sym_int("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_byte(1, n); OK(CALL(s, "sar_int_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "int >> byte"); obs_int(r); }
JOB2(as_sar_local_int_byte) { c_int x = sym_int("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_byte(1, n); OK(CALL(s, "as_sar_local_int_byte", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "int >>= byte"); }
JOB2(sar_int_short) { c_int x = sym_int("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_short(1, n); OK(CALL(s, "sar_int_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "int >> short"); obs_int(r); }
JOB2(as_sar_local_int_short) { c_int x = sym_int("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_short(1, n); OK(CALL(s, "as_sar_local_int_short", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "int >>= short"); }
JOB2(sar_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "sar_int_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n)), "int >> int"); obs_int(r); }
JOB2(as_sar_local_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_sar_local_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "int >>= int"); }
JOB2(as_sar_field_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_sar_field_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "int >>= int"); }
JOB2(as_sar_elem_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_sar_elem_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "int >>= int"); }
JOB2(as_sar_cvar_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_sar_cvar_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "int >>= int"); }
JOB2(as_sar_ref_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_sar_ref_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((c_int)x < 0 ? (uint32_t)~(~(uint32_t)(c_int)x >> n) : (uint32_t)(c_int)x >> n))), "int >>= int"); }
JOB2(sar_long_byte) { c_long x = sym_long("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_byte(1, n); OK(CALL(s, "sar_long_byte", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n)), "long >> byte"); obs_long(r); }
JOB2(as_sar_local_long_byte) { c_long x = sym_long("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_byte(1, n); OK(CALL(s, "as_sar_local_long_byte", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n))), "long >>= byte"); }
JOB2(sar_long_short) { c_long x = sym_long("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_short(1, n); OK(CALL(s, "sar_long_short", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n)), "long >> short"); obs_long(r); }
JOB2(as_sar_local_long_short) { c_long x = sym_long("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_short(1, n); OK(CALL(s, "as_sar_local_long_short", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n))), "long >>= short"); }
JOB2(sar_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "sar_long_int", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n)), "long >> int"); obs_long(r); }
JOB2(as_sar_local_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_sar_local_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n))), "long >>= int"); }
JOB2(as_sar_field_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_sar_field_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n))), "long >>= int"); }
JOB2(as_sar_elem_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_sar_elem_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n))), "long >>= int"); }
JOB2(as_sar_cvar_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_sar_cvar_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n))), "long >>= int"); }
JOB2(as_sar_ref_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_sar_ref_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((c_long)x < 0 ? (uint64_t)~(~(uint64_t)(c_long)x >> n) : (uint64_t)(c_long)x >> n))), "long >>= int"); }
JOB2(shr_byte_byte) { c_byte x = sym_byte("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_byte(1, n); OK(CALL(s, "shr_byte_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "byte >>> byte"); obs_int(r); }
JOB2(as_shr_local_byte_byte) { c_byte x = sym_byte("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_byte(1, n); OK(CALL(s, "as_shr_local_byte_byte", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x >> n))), "byte >>>= byte"); }
JOB2(shr_byte_short) { c_byte x = sym_byte("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_short(1, n); OK(CALL(s, "shr_byte_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "byte >>> short"); obs_int(r); }
JOB2(as_shr_local_byte_short) { c_byte x = sym_byte("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_short(1, n); OK(CALL(s, "as_shr_local_byte_short", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x >> n))), "byte >>>= short"); }
JOB2(shr_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "shr_byte_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "byte >>> int"); obs_int(r); }
JOB2(as_shr_local_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shr_local_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x >> n))), "byte >>>= int"); }
JOB2(as_shr_field_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shr_field_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x >> n))), "byte >>>= int"); }
JOB2(as_shr_elem_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shr_elem_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x >> n))), "byte >>>= int"); }
JOB2(as_shr_cvar_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shr_cvar_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x >> n))), "byte >>>= int"); }
JOB2(as_shr_ref_byte_int) { c_byte x = sym_byte("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_byte(0, x); set_int(1, n); OK(CALL(s, "as_shr_ref_byte_int", 2)); vp_assert(same_byte(get_byte(), (c_byte)((c_int)((uint32_t)(c_int)x >> n))), "byte >>>= int"); }
JOB2(shr_short_byte) { c_short x = sym_short("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_byte(1, n); OK(CALL(s, "shr_short_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "short >>> byte"); obs_int(r); }
JOB2(as_shr_local_short_byte) { c_short x = sym_short("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_byte(1, n); OK(CALL(s, "as_shr_local_short_byte", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x >> n))), "short >>>= byte"); }
JOB2(shr_short_short) { c_short x = sym_short("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_short(1, n); OK(CALL(s, "shr_short_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "short >>> short"); obs_int(r); }
JOB2(as_shr_local_short_short) { c_short x = sym_short("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_short(1, n); OK(CALL(s, "as_shr_local_short_short", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x >> n))), "short >>>= short"); }
JOB2(shr_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "shr_short_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "short >>> int"); obs_int(r); }
JOB2(as_shr_local_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shr_local_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x >> n))), "short >>>= int"); }
JOB2(as_shr_field_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shr_field_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x >> n))), "short >>>= int"); }
JOB2(as_shr_elem_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shr_elem_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x >> n))), "short >>>= int"); }
JOB2(as_shr_cvar_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shr_cvar_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x >> n))), "short >>>= int"); }
JOB2(as_shr_ref_short_int) { c_short x = sym_short("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_short(0, x); set_int(1, n); OK(CALL(s, "as_shr_ref_short_int", 2)); vp_assert(same_short(get_short(), (c_short)((c_int)((uint32_t)(c_int)x >> n))), "short >>>= int"); }
JOB2(shr_int_byte) { c_int x = sym_int("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_byte(1, n); OK(CALL(s, "shr_int_byte", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "int >>> byte"); obs_int(r); }
JOB2(as_shr_local_int_byte) { c_int x = sym_int("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_byte(1, n); OK(CALL(s, "as_shr_local_int_byte", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x >> n))), "int >>>= byte"); }
JOB2(shr_int_short) { c_int x = sym_int("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_short(1, n); OK(CALL(s, "shr_int_short", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "int >>> short"); obs_int(r); }
JOB2(as_shr_local_int_short) { c_int x = sym_int("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_short(1, n); OK(CALL(s, "as_shr_local_int_short", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x >> n))), "int >>>= short"); }
JOB2(shr_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "shr_int_int", 2)); c_int r = get_int(); vp_assert(same_int(r, (c_int)((uint32_t)(c_int)x >> n)), "int >>> int"); obs_int(r); }
JOB2(as_shr_local_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shr_local_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x >> n))), "int >>>= int"); }
JOB2(as_shr_field_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shr_field_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x >> n))), "int >>>= int"); }
JOB2(as_shr_elem_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shr_elem_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x >> n))), "int >>>= int"); }
JOB2(as_shr_cvar_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shr_cvar_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x >> n))), "int >>>= int"); }
JOB2(as_shr_ref_int_int) { c_int x = sym_int("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, x); set_int(1, n); OK(CALL(s, "as_shr_ref_int_int", 2)); vp_assert(same_int(get_int(), (c_int)((c_int)((uint32_t)(c_int)x >> n))), "int >>>= int"); }
JOB2(shr_long_byte) { c_long x = sym_long("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_byte(1, n); OK(CALL(s, "shr_long_byte", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x >> n)), "long >>> byte"); obs_long(r); }
JOB2(as_shr_local_long_byte) { c_long x = sym_long("x"); c_byte n = sym_byte("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_byte(1, n); OK(CALL(s, "as_shr_local_long_byte", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x >> n))), "long >>>= byte"); }
JOB2(shr_long_short) { c_long x = sym_long("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_short(1, n); OK(CALL(s, "shr_long_short", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x >> n)), "long >>> short"); obs_long(r); }
JOB2(as_shr_local_long_short) { c_long x = sym_long("x"); c_short n = sym_short("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_short(1, n); OK(CALL(s, "as_shr_local_long_short", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x >> n))), "long >>>= short"); }
JOB2(shr_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "shr_long_int", 2)); c_long r = get_long(); vp_assert(same_long(r, (c_long)((uint64_t)(c_long)x >> n)), "long >>> int"); obs_long(r); }
JOB2(as_shr_local_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shr_local_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x >> n))), "long >>>= int"); }
JOB2(as_shr_field_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shr_field_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x >> n))), "long >>>= int"); }
JOB2(as_shr_elem_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shr_elem_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x >> n))), "long >>>= int"); }
JOB2(as_shr_cvar_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shr_cvar_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x >> n))), "long >>>= int"); }
JOB2(as_shr_ref_long_int) { c_long x = sym_long("x"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, x); set_int(1, n); OK(CALL(s, "as_shr_ref_long_int", 2)); vp_assert(same_long(get_long(), (c_long)((c_long)((uint64_t)(c_long)x >> n))), "long >>>= int"); }
JOB2(bits_int) { uint32_t a = sym_int("a"), b = sym_int("b"), c = sym_int("c"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 32)); set_int(0, a); set_int(1, b); set_int(2, c); set_int(3, n); OK(CALL(s, "bits_int", 4)); uint32_t w = (((a & ~b) | (c ^ a)) << n) | ((b >> n) & (uint32_t)((c_int)c >> 3)); vp_assert(same_int(get_int(), w), "nested bit expression"); obs_int(get_int()); }
JOB2(bits_long) { uint64_t a = sym_long("a"), b = sym_long("b"), c = sym_long("c"); c_int n = sym_int("n"); vp_assume((n >= 0) & (n < 64)); set_long(0, a); set_long(1, b); set_long(2, c); set_int(3, n); OK(CALL(s, "bits_long", 4)); uint64_t w = (((a & ~b) | (c ^ a)) << n) | ((b >> n) & (uint64_t)((c_long)c >> 3)); vp_assert(same_long(get_long(), w), "nested bit expression"); obs_long(get_long()); }
