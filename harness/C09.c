/*vp {"pc":"VP","time":150,"bounds":["64 generated methods of 40..110 statements with up to 70 variables of 7 types in nested blocks, loops, branches, eval blocks, references and calls; all argument values symbolic","a method with 300 local variables; methods with 20 arguments of mixed types; recursion to depth 4"]} */
// generated by tools/gen_*.py
#include "lang.h"

static void ref_p0(c_float e0, c_short b0, c_byte a0, c_float e1, c_int c0, c_long d1, c_short b1, c_double f1, c_int c1, void* g1, c_byte a1, c_double f0, c_long d0, void* g0, c_long* xlo, c_double* xdd, void** xoo) {
  xdd[0] = f1;
  xlo[0] = b0;
  c_double v0 = f0;
  void* v1 = g1;
  c_double v2 = f0;
  c_byte* r3 = &a1;
  *r3 = *r3;
  {
  g1 = g0;
  *r3 = *r3;
  if (c1 > 3) {
  c_short v4 = b1;
  {
  xlo[1] = d1;
  {
  ;
  ;
  e0 = e1;
  ;
  ;
  }
  *r3 = a0;
  c_byte v5 = *r3;
  {
  c_byte v2 = *r3;
  c_int v7 = (c_int)(c0 + c1);
  c_int v8 = c0;
  ;
  c_double v9 = f0;
  c_long v4 = 0;
  ;
  }
  }
  if (c0 > 3) {
  void* v11 = v1;
  g0 = v11;
  }
  }
  else {
  {
  *r3 = a0;
  c_double* r12 = &v2;
  *r12 = v2;
  ;
  ;
  }
  void* v13 = v1;
  ;
  c_double v14 = f0;
  ;
  c_long v15 = d1;
  }
  xdd[1] = e1;
  *r3 = a1;
  void* v16 = 0;
  ;
  }
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c0;
  xlo[7] = c1;
  xlo[8] = d1;
  xlo[9] = d0;
  xdd[2] = e0;
  xdd[3] = e1;
  xdd[4] = f1;
  xdd[5] = f0;
  xdd[6] = v0;
  xdd[7] = v2;
  xoo[0] = g1;
  xoo[1] = g0;
  xoo[2] = v1;
}
JOB2(p0) { c_float e0 = sym_float("e0"); c_short b0 = sym_short("b0"); c_byte a0 = sym_byte("a0"); c_float e1 = sym_float("e1"); c_int c0 = sym_int("c0"); c_long d1 = sym_long("d1"); c_short b1 = sym_short("b1"); c_double f1 = sym_double("f1"); c_int c1 = sym_int("c1"); void* g1 = spv_str(s, "g1", 2); c_byte a1 = sym_byte("a1"); c_double f0 = sym_double("f0"); c_long d0 = sym_long("d0"); void* g0 = vp_choice(2, "g0") ? spv_str(s, "g0", 2) : 0; c_long xlo[10] = {0}; c_double xdd[8] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 10); void* dd = ENV->new_double_array(ENV, ST, 8); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_float(0, e0); set_short(1, b0); set_byte(2, a0); set_float(3, e1); set_int(4, c0); set_long(5, d1); set_short(6, b1); set_double(7, f1); set_int(8, c1); ST[9].oval = g1; set_byte(10, a1); set_double(11, f0); set_long(12, d0); ST[13].oval = g0; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p0", 17)); ref_p0(e0, b0, a0, e1, c0, d1, b1, f1, c1, g1, a1, f0, d0, g0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 10; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 8; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p1(c_double f0, void* g1, c_int c0, c_float e1, c_long d1, c_int c1, c_double f1, c_short b0, c_long d0, c_float e0, c_byte a1, c_short b1, c_byte a0, void* g0, c_long* xlo, c_double* xdd, void** xoo) {
  a1 = a0;
  xdd[0] = e1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  void* v0 = g0;
  void* v1 = 0;
  v0 = g0;
  b0 = b1;
  c_byte v2 = a1;
  d1 = d0;
  }
  c_short v3 = b1;
  {
  {
  ;
  ;
  c_int v4 = c1;
  }
  if (c1 > 3) {
  e0 = e1;
  ;
  a1 = a0;
  g0 = g1;
  }
  {
  xlo[0] = b1;
  e1 = e1;
  ;
  }
  }
  a1 = a1;
  c_double v5 = f0;
  {
  {
  c_int v6 = c0;
  c_float v7 = e1;
  ;
  v5 = f1;
  e1 = e1;
  }
  c_int* r8 = &c1;
  xlo[1] = a0;
  c_float* r9 = &e0;
  *r8 = c1;
  }
  }
  c_short* r10 = &b0;
  c_int v11 = c0;
  b1 = b1;
  {
  xdd[1] = e0;
  if (c1 > 3) {
  {
  c_byte v12 = a1;
  c_int v13 = 0;
  void* v11 = g0;
  ;
  }
  c_long v15 = (c_long)(d0 + d0);
  c_byte v11 = a1;
  {
  ;
  e1 = e1;
  *r10 = b1;
  a0 = a0;
  ;
  *r10 = b0;
  }
  {
  c_double* r17 = &f0;
  c0 = (c_int)(c1 + c0);
  *r10 = *r10;
  v11 = a1;
  ;
  d1 = d1;
  }
  ;
  f1 = f0;
  }
  xlo[2] = d0;
  *r10 = b1;
  ;
  f1 = f1;
  }
  }
  xlo[3] = a1;
  xlo[4] = a0;
  xlo[5] = b0;
  xlo[6] = b1;
  xlo[7] = c0;
  xlo[8] = c1;
  xlo[9] = d1;
  xlo[10] = d0;
  xdd[2] = e1;
  xdd[3] = e0;
  xdd[4] = f0;
  xdd[5] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p1) { c_double f0 = sym_double("f0"); void* g1 = spv_str(s, "g1", 2); c_int c0 = sym_int("c0"); c_float e1 = sym_float("e1"); c_long d1 = sym_long("d1"); c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_short b0 = sym_short("b0"); c_long d0 = sym_long("d0"); c_float e0 = sym_float("e0"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); void* g0 = spv_str(s, "g0", 2); c_long xlo[11] = {0}; c_double xdd[6] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_double(0, f0); ST[1].oval = g1; set_int(2, c0); set_float(3, e1); set_long(4, d1); set_int(5, c1); set_double(6, f1); set_short(7, b0); set_long(8, d0); set_float(9, e0); set_byte(10, a1); set_short(11, b1); set_byte(12, a0); ST[13].oval = g0; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p1", 17)); ref_p1(f0, g1, c0, e1, d1, c1, f1, b0, d0, e0, a1, b1, a0, g0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p2(c_double f1, c_int c1, void* g1, c_byte a0, c_long d1, c_byte a1, c_double f0, c_int c0, void* g0, c_short b0, c_short b1, c_long d0, c_float e1, c_float e0, c_long* xlo, c_double* xdd, void** xoo) {
  b0 = b0;
  e1 = e1;
  f0 = f0;
  f1 = f1;
  d0 = d1;
  a1 = a0;
  {
  {
  c_int v0 = 0;
  void* v1 = g1;
  void* v2 = g0;
  c_short v3 = b1;
  c_float v4 = 0;
  }
  c_long v5 = d1;
  }
  d1 = d1;
  g0 = g1;
  d0 = d0;
  xdd[0] = f1;
  xlo[0] = c1;
  c_double v6 = f0;
  {
  xlo[1] = (c_int)(c1 + c0);
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_short v7 = 0;
  }
  }
  c_short v8 = 0;
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  a0 = a0;
  }
  for (c_int i1 = 0; i1 < 2; i1++) {
  d1 = (c_long)(d0 + d1);
  xlo[2] = a1;
  {
  c_byte v9 = a1;
  {
  v8 = b0;
  void* v8 = g0;
  void* v11 = 0;
  c_float v12 = e0;
  ;
  }
  c0 = (c_int)(c0 + c1);
  {
  c_float v13 = 0;
  c0 = c0;
  c_byte v14 = 0;
  c_int v15 = c1;
  f1 = f0;
  ;
  }
  c_byte v16 = 0;
  ;
  }
  }
  c_double v6 = 0;
  c_byte v8 = 0;
  c_int v19 = (c_int)(c0 + c1);
  void* v20 = g0;
  ;
  }
  g1 = g0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  if (c0 > 3) {
  if (c0 > 3) {
  g1 = g1;
  {
  ;
  c0 = c1;
  a1 = a0;
  ;
  }
  {
  xlo[3] = a0;
  c_byte v8 = a1;
  ;
  ;
  c0 = (c_int)(c1 + c0);
  }
  }
  c_byte v8 = a0;
  {
  d1 = (c_long)(d0 + d1);
  c_int* r23 = &c1;
  c_byte v8 = 0;
  c_long* r25 = &d1;
  {
  b0 = b0;
  void* v26 = 0;
  xlo[4] = *r25;
  e0 = e1;
  ;
  ;
  }
  c_double v27 = f1;
  {
  c0 = (c_int)(c0 + c0);
  g1 = g1;
  c_byte* r28 = &v8;
  ;
  c0 = (c_int)(c0 + 1);
  xdd[1] = f1;
  }
  }
  xlo[5] = c0;
  }
  else {
  e0 = e0;
  {
  c0 = c0;
  xoo[0] = g0;
  {
  c_float* r29 = &e1;
  b0 = v8;
  ;
  e0 = e1;
  c_int v6 = 0;
  }
  ;
  c_long v31 = 0;
  void* v32 = 0;
  ;
  }
  c1 = c0;
  xdd[2] = f1;
  c_byte v33 = a0;
  ;
  c_int v34 = 0;
  }
  c_double v8 = f0;
  xlo[6] = d0;
  c_short* r36 = &b1;
  xdd[3] = f1;
  c_short* r37 = &b1;
  }
  xlo[7] = a0;
  xlo[8] = a1;
  xlo[9] = b0;
  xlo[10] = b1;
  xlo[11] = v8;
  xlo[12] = c1;
  xlo[13] = c0;
  xlo[14] = d1;
  xlo[15] = d0;
  xdd[4] = e1;
  xdd[5] = e0;
  xdd[6] = f1;
  xdd[7] = f0;
  xdd[8] = v6;
  xoo[1] = g1;
  xoo[2] = g0;
}
JOB2(p2) { c_double f1 = sym_double("f1"); c_int c1 = sym_int("c1"); void* g1 = spv_str(s, "g1", 2); c_byte a0 = sym_byte("a0"); c_long d1 = sym_long("d1"); c_byte a1 = sym_byte("a1"); c_double f0 = sym_double("f0"); c_int c0 = sym_int("c0"); void* g0 = spv_str(s, "g0", 2); c_short b0 = sym_short("b0"); c_short b1 = sym_short("b1"); c_long d0 = sym_long("d0"); c_float e1 = sym_float("e1"); c_float e0 = sym_float("e0"); c_long xlo[16] = {0}; c_double xdd[9] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 16); void* dd = ENV->new_double_array(ENV, ST, 9); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_double(0, f1); set_int(1, c1); ST[2].oval = g1; set_byte(3, a0); set_long(4, d1); set_byte(5, a1); set_double(6, f0); set_int(7, c0); ST[8].oval = g0; set_short(9, b0); set_short(10, b1); set_long(11, d0); set_float(12, e1); set_float(13, e0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p2", 17)); ref_p2(f1, c1, g1, a0, d1, a1, f0, c0, g0, b0, b1, d0, e1, e0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 16; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 9; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p3(c_long d0, c_int c0, c_byte a1, c_double f1, c_short b0, c_byte a0, c_double f0, void* g0, c_float e1, void* g1, c_short b1, c_int c1, c_float e0, c_long d1, c_long* xlo, c_double* xdd, void** xoo) {
  c1 = c0;
  f1 = f1;
  c_int v0 = 0;
  void* v1 = 0;
  c_short v2 = b1;
  c_int v3 = v0;
  c_double v4 = f1;
  c_int v5 = v3;
  c_double v6 = v4;
  d1 = (c_long)(d1 - 1);
  v2 = v2;
  a1 = a1;
  c_float v7 = e1;
  v4 = v6;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_float v8 = e0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  v5 = (c_int)(v0 + v0);
  c_byte* r9 = &a1;
  {
  c_long v10 = 0;
  c_float v11 = v7;
  *r9 = a0;
  ;
  }
  b1 = b0;
  c_int v12 = (c_int)(c0 + v5);
  }
  a1 = a1;
  c_short v13 = 0;
  if (c1 > 3) {
  v1 = g0;
  {
  f1 = v4;
  ;
  c_short v14 = 0;
  void* v15 = g1;
  v5 = v0;
  ;
  ;
  ;
  }
  ;
  }
  else {
  ;
  ;
  a0 = a0;
  a0 = a0;
  v6 = v6;
  ;
  }
  c_byte* r16 = &a1;
  }
  c_long v17 = d0;
  ;
  }
  xlo[0] = a1;
  xlo[1] = a0;
  xlo[2] = b0;
  xlo[3] = b1;
  xlo[4] = v2;
  xlo[5] = c0;
  xlo[6] = c1;
  xlo[7] = v0;
  xlo[8] = v3;
  xlo[9] = v5;
  xlo[10] = d0;
  xlo[11] = d1;
  xdd[0] = e1;
  xdd[1] = e0;
  xdd[2] = v7;
  xdd[3] = f1;
  xdd[4] = f0;
  xdd[5] = v4;
  xdd[6] = v6;
  xoo[0] = g0;
  xoo[1] = g1;
  xoo[2] = v1;
}
JOB2(p3) { c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_byte a1 = sym_byte("a1"); c_double f1 = sym_double("f1"); c_short b0 = sym_short("b0"); c_byte a0 = sym_byte("a0"); c_double f0 = sym_double("f0"); void* g0 = spv_str(s, "g0", 2); c_float e1 = sym_float("e1"); void* g1 = spv_str(s, "g1", 2); c_short b1 = sym_short("b1"); c_int c1 = sym_int("c1"); c_float e0 = sym_float("e0"); c_long d1 = sym_long("d1"); c_long xlo[12] = {0}; c_double xdd[7] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_long(0, d0); set_int(1, c0); set_byte(2, a1); set_double(3, f1); set_short(4, b0); set_byte(5, a0); set_double(6, f0); ST[7].oval = g0; set_float(8, e1); ST[9].oval = g1; set_short(10, b1); set_int(11, c1); set_float(12, e0); set_long(13, d1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p3", 17)); ref_p3(d0, c0, a1, f1, b0, a0, f0, g0, e1, g1, b1, c1, e0, d1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p4(c_int c1, c_long d1, c_int c0, c_byte a0, c_short b0, void* g0, void* g1, c_short b1, c_double f0, c_float e0, c_float e1, c_double f1, c_byte a1, c_long d0, c_long* xlo, c_double* xdd, void** xoo) {
  if (c1 > 3) {
  c_byte v0 = 0;
  void* v1 = g1;
  {
  b0 = b1;
  c_long* r2 = &d1;
  xdd[0] = f1;
  f1 = f0;
  }
  b1 = b0;
  c_short v3 = b0;
  c_long v4 = d0;
  }
  g1 = g1;
  b1 = b0;
  c_int v5 = c1;
  c_byte v6 = a1;
  {
  c_byte v6 = a0;
  xdd[1] = e0;
  if (v5 > 3) {
  {
  e0 = e0;
  c_short v8 = b1;
  {
  c_long v9 = 0;
  ;
  ;
  f0 = f0;
  c_long v10 = d1;
  }
  d1 = d0;
  }
  f0 = f0;
  e1 = e1;
  }
  else {
  g1 = g0;
  c_long v11 = d1;
  c_double v12 = 0;
  c_byte* r13 = &v6;
  c_double v14 = v12;
  {
  c_int v15 = (c_int)(v5 + v5);
  b0 = b0;
  c_float* r16 = &e0;
  {
  *r13 = a0;
  xdd[2] = e1;
  ;
  }
  }
  }
  for (c_int i1 = 0; i1 < 2; i1++) {
  a0 = a0;
  {
  g1 = g0;
  c_short v17 = b1;
  void* v18 = g0;
  {
  ;
  void* v19 = g0;
  c_float v20 = e0;
  }
  d0 = (c_long)(d0 + 1);
  ;
  }
  c_double v21 = 0;
  {
  b0 = b0;
  c_short v22 = b0;
  {
  c_short v23 = b0;
  e1 = e0;
  ;
  c_long v24 = 0;
  }
  v6 = a1;
  f1 = f0;
  }
  }
  ;
  }
  xlo[0] = a0;
  xlo[1] = a1;
  xlo[2] = v6;
  xlo[3] = b0;
  xlo[4] = b1;
  xlo[5] = c1;
  xlo[6] = c0;
  xlo[7] = v5;
  xlo[8] = d1;
  xlo[9] = d0;
  xdd[3] = e0;
  xdd[4] = e1;
  xdd[5] = f0;
  xdd[6] = f1;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p4) { c_int c1 = sym_int("c1"); c_long d1 = sym_long("d1"); c_int c0 = sym_int("c0"); c_byte a0 = sym_byte("a0"); c_short b0 = sym_short("b0"); void* g0 = spv_str(s, "g0", 2); void* g1 = spv_str(s, "g1", 2); c_short b1 = sym_short("b1"); c_double f0 = sym_double("f0"); c_float e0 = sym_float("e0"); c_float e1 = sym_float("e1"); c_double f1 = sym_double("f1"); c_byte a1 = sym_byte("a1"); c_long d0 = sym_long("d0"); c_long xlo[10] = {0}; c_double xdd[7] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 10); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_int(0, c1); set_long(1, d1); set_int(2, c0); set_byte(3, a0); set_short(4, b0); ST[5].oval = g0; ST[6].oval = g1; set_short(7, b1); set_double(8, f0); set_float(9, e0); set_float(10, e1); set_double(11, f1); set_byte(12, a1); set_long(13, d0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p4", 17)); ref_p4(c1, d1, c0, a0, b0, g0, g1, b1, f0, e0, e1, f1, a1, d0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 10; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p5(c_short b0, c_float e1, c_byte a0, c_short b1, c_byte a1, void* g1, c_double f0, c_int c1, c_int c0, c_double f1, c_float e0, c_long d0, void* g0, c_long d1, c_long* xlo, c_double* xdd, void** xoo) {
  if (c1 > 3) {
  {
  c_short v0 = b0;
  d1 = d0;
  c_double v1 = f1;
  c_byte* r2 = &a0;
  }
  }
  else {
  g1 = g1;
  a0 = a0;
  c_long v3 = 0;
  c_double v4 = f0;
  }
  a1 = a0;
  {
  c_float v5 = 0;
  c1 = c0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  c_double v6 = f1;
  {
  g0 = g0;
  c_double v7 = v6;
  a0 = a0;
  c_byte* r8 = &a0;
  ;
  ;
  }
  }
  f0 = f1;
  d1 = d1;
  if (c1 > 3) {
  void* v9 = 0;
  d0 = d1;
  {
  ;
  f1 = f0;
  c_long v10 = (c_long)(d0 + d1);
  b0 = b1;
  v10 = (c_long)(d0 + d0);
  }
  {
  xlo[0] = b1;
  ;
  }
  b0 = b0;
  }
  {
  c_double* r11 = &f0;
  c_long* r12 = &d1;
  {
  c_float v13 = e1;
  c_long v14 = 0;
  *r12 = d0;
  xlo[1] = a0;
  ;
  c_long v15 = d0;
  ;
  }
  {
  f1 = f1;
  d1 = (c_long)(d1 - 1);
  c_short v16 = 0;
  ;
  ;
  c_byte* r17 = &a1;
  }
  c_double v18 = 0;
  }
  }
  {
  c_double v19 = 0;
  c0 = c0;
  {
  xdd[0] = f0;
  c_int v20 = 0;
  }
  void* v21 = g0;
  {
  xdd[1] = f1;
  a0 = a0;
  c_int v22 = c1;
  }
  ;
  }
  g0 = g0;
  c_long v23 = 0;
  ;
  }
  c_short v24 = b1;
  c0 = (c_int)(c1 + c1);
  e0 = e0;
  {
  c_long v25 = (c_long)(d0 + d1);
  c_byte v26 = a1;
  c_int v27 = 0;
  }
  c_long v28 = (c_long)(d0 + d0);
  c1 = c1;
  c_float* r29 = &e0;
  c_int v30 = c1;
  a0 = a1;
  e0 = e0;
  c_float v31 = e1;
  c_byte v32 = 0;
  v31 = *r29;
  for (c_int i0 = 0; i0 < 2; i0++) {
  a0 = v32;
  for (c_int i1 = 0; i1 < 2; i1++) {
  xdd[2] = f0;
  {
  {
  *r29 = v31;
  ;
  c0 = (c_int)(v30 + c0);
  c_long v33 = 0;
  g0 = g0;
  c_double v34 = f0;
  ;
  }
  c1 = v30;
  *r29 = v31;
  ;
  d0 = (c_long)(d0 - 1);
  ;
  c_double v35 = f0;
  ;
  }
  }
  }
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = v32;
  xlo[5] = b0;
  xlo[6] = b1;
  xlo[7] = v24;
  xlo[8] = c1;
  xlo[9] = c0;
  xlo[10] = v30;
  xlo[11] = d0;
  xlo[12] = d1;
  xlo[13] = v28;
  xdd[3] = e1;
  xdd[4] = e0;
  xdd[5] = v31;
  xdd[6] = f0;
  xdd[7] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p5) { c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); c_byte a0 = sym_byte("a0"); c_short b1 = sym_short("b1"); c_byte a1 = sym_byte("a1"); void* g1 = spv_str(s, "g1", 2); c_double f0 = sym_double("f0"); c_int c1 = sym_int("c1"); c_int c0 = sym_int("c0"); c_double f1 = sym_double("f1"); c_float e0 = sym_float("e0"); c_long d0 = sym_long("d0"); void* g0 = spv_str(s, "g0", 2); c_long d1 = sym_long("d1"); c_long xlo[14] = {0}; c_double xdd[8] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 14); void* dd = ENV->new_double_array(ENV, ST, 8); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_short(0, b0); set_float(1, e1); set_byte(2, a0); set_short(3, b1); set_byte(4, a1); ST[5].oval = g1; set_double(6, f0); set_int(7, c1); set_int(8, c0); set_double(9, f1); set_float(10, e0); set_long(11, d0); ST[12].oval = g0; set_long(13, d1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p5", 17)); ref_p5(b0, e1, a0, b1, a1, g1, f0, c1, c0, f1, e0, d0, g0, d1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 14; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 8; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p6(c_int c0, c_long d0, c_float e0, c_short b0, c_byte a1, c_float e1, c_double f0, void* g1, c_double f1, void* g0, c_long d1, c_short b1, c_byte a0, c_int c1, c_long* xlo, c_double* xdd, void** xoo) {
  d0 = (c_long)(d1 + d0);
  {
  c_int v0 = c0;
  {
  void* v1 = g0;
  c_float v2 = e0;
  {
  xlo[0] = a1;
  g0 = g1;
  ;
  }
  c_byte v3 = 0;
  }
  d0 = (c_long)(d0 - 1);
  if (c1 > 3) {
  c_long v4 = 0;
  a0 = a0;
  b1 = b1;
  }
  else {
  c_float v5 = 0;
  {
  c_float v6 = 0;
  b1 = b0;
  ;
  }
  c0 = c0;
  void* v0 = 0;
  }
  }
  c_byte v8 = a0;
  void* v9 = 0;
  c_byte* r10 = &v8;
  a1 = a1;
  c_long v11 = 0;
  if (c0 > 3) {
  c0 = (c_int)(c1 + c0);
  b1 = b1;
  d1 = (c_long)(d1 + 1);
  c0 = c1;
  ;
  c_double v11 = 0;
  ;
  }
  c0 = (c_int)(c1 + c1);
  xlo[1] = a1;
  xlo[2] = a0;
  xlo[3] = v8;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c0;
  xlo[7] = c1;
  xlo[8] = d0;
  xlo[9] = d1;
  xlo[10] = v11;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = f0;
  xdd[3] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
  xoo[2] = v9;
}
JOB2(p6) { c_int c0 = sym_int("c0"); c_long d0 = sym_long("d0"); c_float e0 = sym_float("e0"); c_short b0 = sym_short("b0"); c_byte a1 = sym_byte("a1"); c_float e1 = sym_float("e1"); c_double f0 = sym_double("f0"); void* g1 = spv_str(s, "g1", 2); c_double f1 = sym_double("f1"); void* g0 = spv_str(s, "g0", 2); c_long d1 = sym_long("d1"); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); c_int c1 = sym_int("c1"); c_long xlo[11] = {0}; c_double xdd[4] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_int(0, c0); set_long(1, d0); set_float(2, e0); set_short(3, b0); set_byte(4, a1); set_float(5, e1); set_double(6, f0); ST[7].oval = g1; set_double(8, f1); ST[9].oval = g0; set_long(10, d1); set_short(11, b1); set_byte(12, a0); set_int(13, c1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p6", 17)); ref_p6(c0, d0, e0, b0, a1, e1, f0, g1, f1, g0, d1, b1, a0, c1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p7(c_long d1, c_float e0, c_long d0, c_int c1, c_byte a1, void* g0, c_double f1, c_short b1, c_double f0, c_int c0, c_short b0, c_float e1, c_byte a0, void* g1, c_long* xlo, c_double* xdd, void** xoo) {
  {
  void* v0 = g0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  c_byte v1 = 0;
  c_byte v0 = 0;
  g0 = g1;
  ;
  }
  c_short v0 = b1;
  a1 = a0;
  }
  }
  f0 = f0;
  {
  if (c0 > 3) {
  c_int v4 = 0;
  }
  else {
  d0 = (c_long)(d0 - 1);
  {
  {
  ;
  c_long* r5 = &d0;
  }
  {
  c_int v6 = (c_int)(c0 + c1);
  xlo[0] = d1;
  xlo[1] = b1;
  a1 = a0;
  ;
  }
  c0 = c0;
  c_short v7 = 0;
  }
  c_int v8 = 0;
  c_byte v9 = 0;
  c_long* r10 = &d1;
  }
  c_float v11 = e0;
  }
  c_long* r12 = &d0;
  c_byte v13 = 0;
  c_short v14 = b0;
  {
  c_long v15 = *r12;
  a1 = v13;
  }
  *r12 = d1;
  d0 = d1;
  *r12 = d0;
  a1 = a0;
  {
  c_double v14 = f0;
  if (c0 > 3) {
  b1 = b1;
  {
  *r12 = d1;
  c_int v17 = c1;
  {
  c1 = (c_int)(c1 - 1);
  c_short v18 = b0;
  b1 = b0;
  v18 = b1;
  }
  {
  g1 = g1;
  ;
  c_double v19 = 0;
  e0 = e1;
  }
  c_long* r20 = &d1;
  {
  *r20 = d1;
  *r20 = *r20;
  b0 = b1;
  c_float v21 = e1;
  ;
  ;
  ;
  ;
  }
  ;
  }
  *r12 = d0;
  c_short v13 = 0;
  ;
  f0 = f1;
  c_double* r23 = &f0;
  }
  else {
  ;
  v14 = f0;
  f1 = f0;
  b0 = b1;
  }
  *r12 = d0;
  ;
  ;
  }
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = v13;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = v14;
  xlo[8] = c1;
  xlo[9] = c0;
  xlo[10] = d1;
  xlo[11] = d0;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = f1;
  xdd[3] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p7) { c_long d1 = sym_long("d1"); c_float e0 = sym_float("e0"); c_long d0 = sym_long("d0"); c_int c1 = sym_int("c1"); c_byte a1 = sym_byte("a1"); void* g0 = spv_str(s, "g0", 2); c_double f1 = sym_double("f1"); c_short b1 = sym_short("b1"); c_double f0 = sym_double("f0"); c_int c0 = sym_int("c0"); c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); c_byte a0 = sym_byte("a0"); void* g1 = spv_str(s, "g1", 2); c_long xlo[12] = {0}; c_double xdd[4] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_long(0, d1); set_float(1, e0); set_long(2, d0); set_int(3, c1); set_byte(4, a1); ST[5].oval = g0; set_double(6, f1); set_short(7, b1); set_double(8, f0); set_int(9, c0); set_short(10, b0); set_float(11, e1); set_byte(12, a0); ST[13].oval = g1; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p7", 17)); ref_p7(d1, e0, d0, c1, a1, g0, f1, b1, f0, c0, b0, e1, a0, g1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p8(c_short b1, c_float e1, void* g0, void* g1, c_int c0, c_double f1, c_long d0, c_short b0, c_byte a0, c_double f0, c_byte a1, c_int c1, c_long d1, c_float e0, c_long* xlo, c_double* xdd, void** xoo) {
  xoo[0] = g1;
  c_short v0 = b1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  {
  f0 = f0;
  d1 = (c_long)(d0 + d1);
  c_byte v1 = 0;
  f0 = f1;
  }
  a0 = a1;
  c_byte v0 = a1;
  {
  void* v3 = 0;
  c_int v4 = c0;
  ;
  }
  }
  {
  {
  g1 = g1;
  void* v5 = g0;
  d0 = (c_long)(d0 - 1);
  c_int v6 = c0;
  f1 = f1;
  }
  {
  ;
  ;
  g1 = g1;
  xlo[0] = (c_long)(d0 + d0);
  c_int v7 = c1;
  ;
  c_long v8 = d0;
  }
  c_short v9 = b1;
  {
  c_int v10 = 0;
  c_float v11 = 0;
  b1 = v0;
  xlo[1] = a0;
  c_byte v12 = 0;
  }
  }
  c_long v0 = (c_long)(d0 + d1);
  {
  void* v14 = g1;
  {
  void* v0 = g0;
  c0 = c1;
  e1 = e1;
  c_long v16 = 0;
  ;
  ;
  ;
  ;
  }
  c_int v17 = 0;
  v0 = v0;
  {
  c1 = (c_int)(c0 + c0);
  ;
  xdd[0] = e0;
  ;
  c_int v14 = c1;
  ;
  ;
  }
  }
  f1 = f1;
  }
  c_long* r19 = &d1;
  }
  c_byte v20 = a1;
  b0 = v0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  v20 = a1;
  {
  if (c1 > 3) {
  ;
  c_short v21 = b1;
  xlo[2] = c0;
  b1 = b1;
  b1 = v0;
  }
  if (c0 > 3) {
  c_int v22 = c1;
  ;
  c_double v23 = 0;
  f1 = f1;
  ;
  }
  }
  c_long* r24 = &d0;
  c0 = c0;
  v20 = v20;
  c_long* r25 = &d0;
  }
  c_double v26 = f0;
  void* v27 = g1;
  v0 = b0;
  c_byte v28 = a0;
  c_int v29 = (c_int)(c0 + c1);
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  xdd[1] = e0;
  c_short* r30 = &v0;
  g0 = g0;
  c_byte* r31 = &a0;
  ;
  }
  xlo[3] = (c_int)(c0 + c0);
  c_int v32 = c0;
  c1 = v32;
  f0 = f0;
  xlo[4] = a0;
  xlo[5] = a1;
  xlo[6] = v20;
  xlo[7] = b1;
  xlo[8] = b0;
  xlo[9] = v0;
  xlo[10] = c0;
  xlo[11] = c1;
  xlo[12] = v32;
  xlo[13] = d0;
  xlo[14] = d1;
  xdd[2] = e1;
  xdd[3] = e0;
  xdd[4] = f1;
  xdd[5] = f0;
  xoo[1] = g0;
  xoo[2] = g1;
}
JOB2(p8) { c_short b1 = sym_short("b1"); c_float e1 = sym_float("e1"); void* g0 = vp_choice(2, "g0") ? spv_str(s, "g0", 2) : 0; void* g1 = spv_str(s, "g1", 2); c_int c0 = sym_int("c0"); c_double f1 = sym_double("f1"); c_long d0 = sym_long("d0"); c_short b0 = sym_short("b0"); c_byte a0 = sym_byte("a0"); c_double f0 = sym_double("f0"); c_byte a1 = sym_byte("a1"); c_int c1 = sym_int("c1"); c_long d1 = sym_long("d1"); c_float e0 = sym_float("e0"); c_long xlo[15] = {0}; c_double xdd[6] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 15); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_short(0, b1); set_float(1, e1); ST[2].oval = g0; ST[3].oval = g1; set_int(4, c0); set_double(5, f1); set_long(6, d0); set_short(7, b0); set_byte(8, a0); set_double(9, f0); set_byte(10, a1); set_int(11, c1); set_long(12, d1); set_float(13, e0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p8", 17)); ref_p8(b1, e1, g0, g1, c0, f1, d0, b0, a0, f0, a1, c1, d1, e0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 15; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p9(c_long d0, c_short b1, void* g0, c_float e1, c_int c1, c_double f0, c_int c0, void* g1, c_double f1, c_float e0, c_byte a1, c_long d1, c_byte a0, c_short b0, c_long* xlo, c_double* xdd, void** xoo) {
  c_float v0 = 0;
  v0 = e0;
  e1 = e0;
  {
  g0 = g0;
  c0 = (c_int)(c0 - 1);
  c_int v1 = 0;
  c0 = (c_int)(c0 + 1);
  xlo[0] = b0;
  xoo[0] = g0;
  void* v2 = 0;
  ;
  }
  g1 = g1;
  c_float v3 = e0;
  d1 = d1;
  {
  xlo[1] = c0;
  c_short v4 = b1;
  c_byte v5 = a1;
  }
  d1 = (c_long)(d1 + 1);
  xdd[0] = f0;
  {
  xdd[1] = v0;
  if (c1 > 3) {
  c_byte v6 = a1;
  if (c1 > 3) {
  c_long v0 = (c_long)(d1 + d0);
  c_double v8 = 0;
  c_double* r9 = &v8;
  a1 = a0;
  a1 = a0;
  }
  else {
  xlo[2] = b0;
  c_long v10 = 0;
  c1 = (c_int)(c1 + 1);
  }
  g1 = g1;
  }
  else {
  ;
  ;
  xlo[3] = a1;
  c_int* r11 = &c0;
  ;
  }
  }
  xlo[4] = a1;
  xlo[5] = a0;
  xlo[6] = b1;
  xlo[7] = b0;
  xlo[8] = c1;
  xlo[9] = c0;
  xlo[10] = d0;
  xlo[11] = d1;
  xdd[2] = e1;
  xdd[3] = e0;
  xdd[4] = v0;
  xdd[5] = v3;
  xdd[6] = f0;
  xdd[7] = f1;
  xoo[1] = g0;
  xoo[2] = g1;
}
JOB2(p9) { c_long d0 = sym_long("d0"); c_short b1 = sym_short("b1"); void* g0 = spv_str(s, "g0", 2); c_float e1 = sym_float("e1"); c_int c1 = sym_int("c1"); c_double f0 = sym_double("f0"); c_int c0 = sym_int("c0"); void* g1 = spv_str(s, "g1", 2); c_double f1 = sym_double("f1"); c_float e0 = sym_float("e0"); c_byte a1 = sym_byte("a1"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); c_short b0 = sym_short("b0"); c_long xlo[12] = {0}; c_double xdd[8] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 8); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_long(0, d0); set_short(1, b1); ST[2].oval = g0; set_float(3, e1); set_int(4, c1); set_double(5, f0); set_int(6, c0); ST[7].oval = g1; set_double(8, f1); set_float(9, e0); set_byte(10, a1); set_long(11, d1); set_byte(12, a0); set_short(13, b0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p9", 17)); ref_p9(d0, b1, g0, e1, c1, f0, c0, g1, f1, e0, a1, d1, a0, b0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 8; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p10(c_int c0, c_byte a0, c_short b0, c_long d1, c_int c1, void* g0, c_double f1, void* g1, c_long d0, c_byte a1, c_float e0, c_short b1, c_float e1, c_double f0, c_long* xlo, c_double* xdd, void** xoo) {
  c_double v0 = f0;
  c_long v1 = d1;
  f0 = f1;
  c_short v2 = b0;
  f1 = v0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  e0 = e0;
  c_byte v3 = 0;
  }
  b1 = v2;
  c_long v4 = d0;
  v0 = f0;
  c_byte v5 = 0;
  g1 = g0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  c_double v6 = f1;
  e0 = e0;
  c_short v7 = 0;
  }
  {
  c_long v8 = 0;
  c_long v9 = (c_long)(d0 + v4);
  if (c0 > 3) {
  e0 = e0;
  {
  c_float* r10 = &e1;
  f0 = f1;
  v9 = v4;
  void* v11 = g1;
  c_int v12 = 0;
  }
  c_long v13 = 0;
  }
  else {
  c1 = c1;
  xlo[0] = b1;
  {
  e0 = e1;
  xlo[1] = a0;
  ;
  }
  c_double* r14 = &v0;
  xlo[2] = v4;
  }
  }
  }
  void* v15 = g1;
  v2 = b0;
  c_short v16 = b1;
  v0 = f1;
  e1 = e0;
  c_float v17 = e0;
  e1 = e0;
  xlo[3] = b1;
  v17 = v17;
  void* v18 = 0;
  c_byte v19 = v5;
  c1 = c0;
  c_double* r20 = &f0;
  v17 = e1;
  v1 = v1;
  *r20 = f0;
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  *r20 = f0;
  c_byte v21 = 0;
  }
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_long v22 = d1;
  c_byte v23 = 0;
  a0 = a0;
  {
  xlo[4] = a0;
  void* v24 = 0;
  }
  }
  void* v25 = g0;
  void* v26 = v25;
  g1 = v15;
  c0 = c0;
  }
  xlo[5] = a0;
  xlo[6] = a1;
  xlo[7] = v5;
  xlo[8] = v19;
  xlo[9] = b0;
  xlo[10] = b1;
  xlo[11] = v2;
  xlo[12] = v16;
  xlo[13] = c0;
  xlo[14] = c1;
  xlo[15] = d1;
  xlo[16] = d0;
  xlo[17] = v1;
  xlo[18] = v4;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = v17;
  xdd[3] = f1;
  xdd[4] = f0;
  xdd[5] = v0;
  xoo[0] = g0;
  xoo[1] = g1;
  xoo[2] = v15;
  xoo[3] = v18;
}
JOB2(p10) { c_int c0 = sym_int("c0"); c_byte a0 = sym_byte("a0"); c_short b0 = sym_short("b0"); c_long d1 = sym_long("d1"); c_int c1 = sym_int("c1"); void* g0 = spv_str(s, "g0", 2); c_double f1 = sym_double("f1"); void* g1 = spv_str(s, "g1", 2); c_long d0 = sym_long("d0"); c_byte a1 = sym_byte("a1"); c_float e0 = sym_float("e0"); c_short b1 = sym_short("b1"); c_float e1 = sym_float("e1"); c_double f0 = sym_double("f0"); c_long xlo[19] = {0}; c_double xdd[6] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 19); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_int(0, c0); set_byte(1, a0); set_short(2, b0); set_long(3, d1); set_int(4, c1); ST[5].oval = g0; set_double(6, f1); ST[7].oval = g1; set_long(8, d0); set_byte(9, a1); set_float(10, e0); set_short(11, b1); set_float(12, e1); set_double(13, f0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p10", 17)); ref_p10(c0, a0, b0, d1, c1, g0, f1, g1, d0, a1, e0, b1, e1, f0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 19; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p11(c_byte a1, void* g0, c_double f1, c_float e1, c_short b1, void* g1, c_float e0, c_double f0, c_long d1, c_short b0, c_long d0, c_byte a0, c_int c0, c_int c1, c_long* xlo, c_double* xdd, void** xoo) {
  c1 = c0;
  e0 = e1;
  g0 = g1;
  b1 = b0;
  void* v0 = g1;
  c_long v1 = 0;
  c_byte* r2 = &a0;
  b1 = b1;
  c_short v3 = 0;
  c_int* r4 = &c0;
  c_double v5 = 0;
  a1 = a0;
  c_short v6 = b0;
  c_long v7 = 0;
  f1 = v5;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_double* r8 = &f1;
  e0 = e1;
  c_int v9 = c1;
  }
  c_long v10 = (c_long)(d0 + v1);
  *r4 = c1;
  c_float v11 = 0;
  c0 = *r4;
  xlo[0] = b1;
  a0 = a1;
  {
  c_double v12 = 0;
  c0 = c1;
  if (c0 > 3) {
  {
  c_int* r13 = &c1;
  c_double v14 = v5;
  c_int v12 = 0;
  c_int v16 = (c_int)(c0 + c1);
  *r4 = (c_int)(c0 + c0);
  }
  xlo[1] = c0;
  c1 = (c_int)(c1 + 1);
  f1 = f1;
  c_long v17 = (c_long)(v1 + v7);
  c_byte v18 = *r2;
  }
  else {
  c_byte v19 = a1;
  {
  xdd[0] = e0;
  if (c0 > 3) {
  ;
  *r2 = a1;
  xlo[2] = (c_long)(v7 + d0);
  ;
  xlo[3] = *r2;
  d0 = v7;
  c_long v20 = 0;
  }
  d1 = v10;
  {
  xlo[4] = c0;
  void* v3 = g1;
  c_double v22 = v5;
  c_short v23 = 0;
  }
  v19 = v19;
  *r2 = *r2;
  c_byte v24 = 0;
  ;
  }
  c_int v25 = c1;
  c_byte v26 = a0;
  c_float v27 = 0;
  }
  c_long v28 = 0;
  e0 = v11;
  void* v29 = g0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_short* r30 = &b0;
  *r2 = a1;
  a0 = a0;
  {
  *r4 = c0;
  {
  b1 = b1;
  c_short v31 = v3;
  ;
  c_byte v1 = 0;
  ;
  ;
  c_byte v33 = v1;
  }
  c_byte v34 = a0;
  ;
  }
  {
  {
  ;
  ;
  *r4 = c1;
  ;
  }
  {
  c_short v35 = 0;
  ;
  c_short v36 = 0;
  v1 = (c_long)(d0 + v1);
  ;
  xdd[1] = e1;
  ;
  }
  {
  c1 = c1;
  ;
  c_short* r37 = &b1;
  v6 = b1;
  c_double v38 = 0;
  c_long v39 = v28;
  b0 = b1;
  }
  a1 = *r2;
  g0 = v29;
  {
  c_float v40 = e0;
  b0 = b1;
  void* v41 = v29;
  ;
  }
  ;
  }
  d1 = v7;
  }
  }
  xlo[5] = a1;
  xlo[6] = a0;
  xlo[7] = b1;
  xlo[8] = b0;
  xlo[9] = v3;
  xlo[10] = v6;
  xlo[11] = c0;
  xlo[12] = c1;
  xlo[13] = d1;
  xlo[14] = d0;
  xlo[15] = v1;
  xlo[16] = v7;
  xlo[17] = v10;
  xdd[2] = e1;
  xdd[3] = e0;
  xdd[4] = v11;
  xdd[5] = f1;
  xdd[6] = f0;
  xdd[7] = v5;
  xoo[0] = g0;
  xoo[1] = g1;
  xoo[2] = v0;
}
JOB2(p11) { c_byte a1 = sym_byte("a1"); void* g0 = spv_str(s, "g0", 2); c_double f1 = sym_double("f1"); c_float e1 = sym_float("e1"); c_short b1 = sym_short("b1"); void* g1 = spv_str(s, "g1", 2); c_float e0 = sym_float("e0"); c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_short b0 = sym_short("b0"); c_long d0 = sym_long("d0"); c_byte a0 = sym_byte("a0"); c_int c0 = sym_int("c0"); c_int c1 = sym_int("c1"); c_long xlo[18] = {0}; c_double xdd[8] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 18); void* dd = ENV->new_double_array(ENV, ST, 8); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_byte(0, a1); ST[1].oval = g0; set_double(2, f1); set_float(3, e1); set_short(4, b1); ST[5].oval = g1; set_float(6, e0); set_double(7, f0); set_long(8, d1); set_short(9, b0); set_long(10, d0); set_byte(11, a0); set_int(12, c0); set_int(13, c1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p11", 17)); ref_p11(a1, g0, f1, e1, b1, g1, e0, f0, d1, b0, d0, a0, c0, c1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 18; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 8; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p12(c_int c0, c_float e0, c_double f0, c_byte a1, c_float e1, c_long d1, c_double f1, void* g1, c_byte a0, c_short b1, c_long d0, void* g0, c_short b0, c_int c1, c_long* xlo, c_double* xdd, void** xoo) {
  a0 = a1;
  {
  c_long v0 = (c_long)(d0 + d1);
  c_byte v1 = a1;
  c_float v2 = e0;
  }
  {
  c_float v3 = e1;
  f0 = f0;
  xlo[0] = b1;
  c_double v4 = f1;
  {
  {
  a1 = a0;
  d0 = (c_long)(d0 + d0);
  c_int v3 = c1;
  c_double v6 = f1;
  c_int v4 = 0;
  xdd[0] = e1;
  {
  xdd[1] = e1;
  c_double v3 = v6;
  ;
  xlo[1] = a1;
  ;
  }
  }
  c1 = c0;
  c1 = c1;
  f0 = f0;
  {
  g1 = g1;
  c_int v9 = 0;
  v4 = f0;
  }
  void* v10 = g1;
  }
  }
  c_float v11 = e1;
  {
  v11 = v11;
  c_short v12 = b0;
  f0 = f1;
  ;
  xlo[2] = b0;
  e0 = v11;
  ;
  }
  xlo[3] = a1;
  xlo[4] = a0;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = c0;
  xlo[8] = c1;
  xlo[9] = d1;
  xlo[10] = d0;
  xdd[2] = e0;
  xdd[3] = e1;
  xdd[4] = v11;
  xdd[5] = f0;
  xdd[6] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p12) { c_int c0 = sym_int("c0"); c_float e0 = sym_float("e0"); c_double f0 = sym_double("f0"); c_byte a1 = sym_byte("a1"); c_float e1 = sym_float("e1"); c_long d1 = sym_long("d1"); c_double f1 = sym_double("f1"); void* g1 = spv_str(s, "g1", 2); c_byte a0 = sym_byte("a0"); c_short b1 = sym_short("b1"); c_long d0 = sym_long("d0"); void* g0 = spv_str(s, "g0", 2); c_short b0 = sym_short("b0"); c_int c1 = sym_int("c1"); c_long xlo[11] = {0}; c_double xdd[7] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_int(0, c0); set_float(1, e0); set_double(2, f0); set_byte(3, a1); set_float(4, e1); set_long(5, d1); set_double(6, f1); ST[7].oval = g1; set_byte(8, a0); set_short(9, b1); set_long(10, d0); ST[11].oval = g0; set_short(12, b0); set_int(13, c1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p12", 17)); ref_p12(c0, e0, f0, a1, e1, d1, f1, g1, a0, b1, d0, g0, b0, c1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p13(c_double f0, c_int c1, c_double f1, c_byte a1, c_short b1, c_float e0, void* g1, c_long d0, c_byte a0, c_float e1, c_short b0, c_int c0, void* g0, c_long d1, c_long* xlo, c_double* xdd, void** xoo) {
  a0 = a1;
  c_int v0 = c0;
  c_double* r1 = &f0;
  c_short v2 = 0;
  *r1 = f0;
  xlo[0] = (c_int)(v0 + c1);
  for (c_int i0 = 0; i0 < 2; i0++) {
  xlo[1] = c0;
  if (c0 > 3) {
  c_long* r3 = &d1;
  f1 = f1;
  c_double v4 = 0;
  {
  xdd[0] = e0;
  c_short* r5 = &b1;
  ;
  }
  }
  *r1 = f1;
  c_double v6 = 0;
  b0 = b0;
  {
  a0 = a1;
  c_long v7 = d0;
  *r1 = f0;
  *r1 = v6;
  c_float v8 = e1;
  c_int* r9 = &c1;
  c_byte v10 = 0;
  }
  }
  xlo[2] = (c_int)(v0 + c0);
  f0 = f0;
  a0 = a0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  b1 = b1;
  *r1 = *r1;
  {
  c_float v11 = e0;
  *r1 = f1;
  {
  c_long v12 = d0;
  c1 = c1;
  {
  g1 = g1;
  c_double v13 = f0;
  ;
  ;
  }
  *r1 = *r1;
  ;
  }
  *r1 = f0;
  c_short v14 = b0;
  {
  {
  c1 = (c_int)(c1 + 1);
  xdd[1] = f1;
  c_short* r15 = &b1;
  }
  a0 = a0;
  v11 = v11;
  ;
  }
  }
  {
  if (c1 > 3) {
  {
  c_double* r16 = &f0;
  e1 = e1;
  *r1 = f1;
  ;
  }
  f1 = f0;
  {
  c_int v0 = 0;
  c_short v18 = b0;
  ;
  void* v2 = g1;
  ;
  }
  xlo[3] = b1;
  c_double v20 = f0;
  c0 = c0;
  }
  c_float v21 = e1;
  d1 = d1;
  c_float* r22 = &e1;
  b1 = b0;
  }
  }
  xlo[4] = a1;
  xlo[5] = a0;
  xlo[6] = b1;
  xlo[7] = b0;
  xlo[8] = v2;
  xlo[9] = c1;
  xlo[10] = c0;
  xlo[11] = v0;
  xlo[12] = d0;
  xlo[13] = d1;
  xdd[2] = e0;
  xdd[3] = e1;
  xdd[4] = f0;
  xdd[5] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p13) { c_double f0 = sym_double("f0"); c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_float e0 = sym_float("e0"); void* g1 = spv_str(s, "g1", 2); c_long d0 = sym_long("d0"); c_byte a0 = sym_byte("a0"); c_float e1 = sym_float("e1"); c_short b0 = sym_short("b0"); c_int c0 = sym_int("c0"); void* g0 = spv_str(s, "g0", 2); c_long d1 = sym_long("d1"); c_long xlo[14] = {0}; c_double xdd[6] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 14); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_double(0, f0); set_int(1, c1); set_double(2, f1); set_byte(3, a1); set_short(4, b1); set_float(5, e0); ST[6].oval = g1; set_long(7, d0); set_byte(8, a0); set_float(9, e1); set_short(10, b0); set_int(11, c0); ST[12].oval = g0; set_long(13, d1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p13", 17)); ref_p13(f0, c1, f1, a1, b1, e0, g1, d0, a0, e1, b0, c0, g0, d1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 14; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p14(c_float e1, c_short b0, c_double f1, c_byte a1, c_long d1, c_double f0, c_int c1, void* g1, c_long d0, void* g0, c_int c0, c_short b1, c_byte a0, c_float e0, c_long* xlo, c_double* xdd, void** xoo) {
  c_double v0 = f1;
  {
  c_short v1 = 0;
  {
  {
  c0 = (c_int)(c0 + c1);
  {
  ;
  a1 = a0;
  ;
  }
  {
  ;
  d1 = d1;
  ;
  ;
  }
  {
  c_short v1 = 0;
  c_double v3 = v0;
  ;
  c_float v4 = 0;
  }
  }
  c_float v1 = e0;
  a1 = a0;
  }
  c_long v0 = 0;
  }
  xlo[0] = b0;
  c1 = (c_int)(c1 - 1);
  xlo[1] = a0;
  e1 = e0;
  c_float v7 = e1;
  c_short* r8 = &b0;
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  c1 = c1;
  c_short v9 = b0;
  }
  v7 = e1;
  if (c1 > 3) {
  c_double v10 = f1;
  d0 = d1;
  e0 = e1;
  d0 = (c_long)(d0 + d0);
  }
  c_long v11 = d1;
  c_short v12 = 0;
  }
  c_float v13 = v7;
  ;
  }
  c_long v14 = d1;
  xlo[2] = a1;
  g0 = g0;
  f0 = f1;
  *r8 = b1;
  c_float* r15 = &v7;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  void* v16 = g0;
  *r8 = b0;
  {
  xlo[3] = b0;
  c_byte v17 = a1;
  void* v18 = 0;
  c_short v19 = b1;
  c_short* r20 = &v19;
  {
  c_int v21 = (c_int)(c0 + c1);
  c_byte* r22 = &v17;
  ;
  }
  {
  b1 = v19;
  c_int v14 = 0;
  }
  ;
  }
  xlo[4] = *r8;
  }
  f0 = f0;
  *r8 = b0;
  void* v24 = g0;
  {
  c_float v25 = v7;
  *r8 = b1;
  }
  c_short v26 = 0;
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  {
  *r15 = e0;
  c_byte v27 = a1;
  c_long v28 = 0;
  {
  c_int v29 = c0;
  ;
  xlo[5] = b0;
  ;
  }
  ;
  }
  g1 = g0;
  a0 = a0;
  v14 = v14;
  }
  c_byte v30 = 0;
  g1 = g0;
  c_long v31 = (c_long)(v14 + d0);
  }
  c0 = c1;
  xlo[6] = (c_long)(v14 + d1);
  c_float* r32 = &v7;
  g0 = g1;
  *r8 = b0;
  if (c0 > 3) {
  v0 = v0;
  {
  {
  c0 = c0;
  d1 = d0;
  c_byte v33 = 0;
  {
  e0 = v7;
  e0 = e1;
  }
  c_byte* r34 = &a0;
  c_float v35 = 0;
  }
  ;
  xlo[7] = (c_long)(d0 + d1);
  }
  c_int* r36 = &c0;
  void* v37 = g0;
  }
  xlo[8] = a1;
  xlo[9] = a0;
  xlo[10] = b0;
  xlo[11] = b1;
  xlo[12] = c1;
  xlo[13] = c0;
  xlo[14] = d1;
  xlo[15] = d0;
  xlo[16] = v14;
  xdd[0] = e1;
  xdd[1] = e0;
  xdd[2] = v7;
  xdd[3] = f1;
  xdd[4] = f0;
  xdd[5] = v0;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p14) { c_float e1 = sym_float("e1"); c_short b0 = sym_short("b0"); c_double f1 = sym_double("f1"); c_byte a1 = sym_byte("a1"); c_long d1 = sym_long("d1"); c_double f0 = sym_double("f0"); c_int c1 = sym_int("c1"); void* g1 = spv_str(s, "g1", 2); c_long d0 = sym_long("d0"); void* g0 = spv_str(s, "g0", 2); c_int c0 = sym_int("c0"); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); c_float e0 = sym_float("e0"); c_long xlo[17] = {0}; c_double xdd[6] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 17); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_float(0, e1); set_short(1, b0); set_double(2, f1); set_byte(3, a1); set_long(4, d1); set_double(5, f0); set_int(6, c1); ST[7].oval = g1; set_long(8, d0); ST[9].oval = g0; set_int(10, c0); set_short(11, b1); set_byte(12, a0); set_float(13, e0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p14", 17)); ref_p14(e1, b0, f1, a1, d1, f0, c1, g1, d0, g0, c0, b1, a0, e0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 17; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p15(void* g1, c_byte a0, c_int c1, c_float e1, c_short b0, c_double f0, c_short b1, c_double f1, c_long d0, c_float e0, c_long d1, c_int c0, void* g0, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  f0 = f1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  f0 = f1;
  c_float v0 = 0;
  c_int v1 = c0;
  c_short v2 = 0;
  }
  e1 = e1;
  c_short v3 = 0;
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_long v4 = (c_long)(d1 + d0);
  b0 = b1;
  g0 = g1;
  c_short v3 = 0;
  c_double* r6 = &f0;
  }
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_short v7 = b1;
  c_short v3 = 0;
  f1 = f0;
  xlo[0] = c0;
  c1 = c0;
  xlo[1] = a0;
  {
  c_int* r9 = &c1;
  xdd[0] = e0;
  {
  ;
  ;
  c0 = (c_int)(c0 + c0);
  }
  c_byte v10 = a1;
  c_int v11 = c0;
  f1 = f0;
  {
  f0 = f0;
  c0 = (c_int)(c0 + c0);
  c_double v12 = f0;
  c0 = c0;
  c_float v11 = 0;
  c_byte* r14 = &a1;
  }
  }
  }
  f0 = f0;
  ;
  }
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = v3;
  xlo[7] = c1;
  xlo[8] = c0;
  xlo[9] = d0;
  xlo[10] = d1;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f0;
  xdd[4] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p15) { void* g1 = spv_str(s, "g1", 2); c_byte a0 = sym_byte("a0"); c_int c1 = sym_int("c1"); c_float e1 = sym_float("e1"); c_short b0 = sym_short("b0"); c_double f0 = sym_double("f0"); c_short b1 = sym_short("b1"); c_double f1 = sym_double("f1"); c_long d0 = sym_long("d0"); c_float e0 = sym_float("e0"); c_long d1 = sym_long("d1"); c_int c0 = sym_int("c0"); void* g0 = spv_str(s, "g0", 2); c_byte a1 = sym_byte("a1"); c_long xlo[11] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  ST[0].oval = g1; set_byte(1, a0); set_int(2, c1); set_float(3, e1); set_short(4, b0); set_double(5, f0); set_short(6, b1); set_double(7, f1); set_long(8, d0); set_float(9, e0); set_long(10, d1); set_int(11, c0); ST[12].oval = g0; set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p15", 17)); ref_p15(g1, a0, c1, e1, b0, f0, b1, f1, d0, e0, d1, c0, g0, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p16(c_short b1, c_int c0, c_byte a1, c_long d1, c_byte a0, void* g0, c_float e1, c_short b0, c_double f0, void* g1, c_float e0, c_long d0, c_double f1, c_int c1, c_long* xlo, c_double* xdd, void** xoo) {
  g1 = g1;
  e0 = e0;
  c_int* r0 = &c1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_float* r1 = &e0;
  if (c0 > 3) {
  b1 = b0;
  *r0 = (c_int)(c1 + c1);
  void* v2 = g0;
  c_byte* r3 = &a0;
  {
  b1 = b0;
  c_short v4 = b0;
  {
  c_long v5 = d1;
  ;
  e1 = e1;
  c_double* r6 = &f1;
  ;
  v4 = v4;
  d1 = d1;
  ;
  }
  c_long v7 = d1;
  void* v8 = 0;
  ;
  }
  c1 = (c_int)(c1 + c1);
  {
  {
  c_long v2 = d1;
  a0 = a1;
  }
  void* v10 = v2;
  c_byte v11 = 0;
  }
  }
  else {
  d1 = (c_long)(d1 + d1);
  c0 = (c_int)(c0 + 1);
  }
  c_int v12 = c1;
  {
  void* v13 = 0;
  d1 = d0;
  c_byte v14 = a0;
  a0 = a1;
  c_long v15 = 0;
  c_long v16 = 0;
  {
  c1 = v12;
  void* v12 = 0;
  c_byte v18 = 0;
  c_byte v19 = 0;
  c_byte v20 = v19;
  c_float v21 = *r1;
  v18 = a0;
  }
  }
  }
  c_short v22 = b1;
  c_float* r23 = &e1;
  {
  b1 = v22;
  if (c1 > 3) {
  c1 = *r0;
  {
  {
  c_float v24 = e1;
  *r0 = c0;
  g1 = g1;
  xdd[0] = v24;
  a0 = a1;
  ;
  }
  f1 = f1;
  c_float v22 = e1;
  }
  }
  else {
  f1 = f1;
  a1 = a1;
  ;
  }
  v22 = v22;
  c_long v26 = 0;
  v26 = (c_long)(v26 - 1);
  void* v27 = g1;
  ;
  }
  xlo[0] = a1;
  xlo[1] = a0;
  xlo[2] = b1;
  xlo[3] = b0;
  xlo[4] = v22;
  xlo[5] = c0;
  xlo[6] = c1;
  xlo[7] = d1;
  xlo[8] = d0;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f0;
  xdd[4] = f1;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p16) { c_short b1 = sym_short("b1"); c_int c0 = sym_int("c0"); c_byte a1 = sym_byte("a1"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); void* g0 = vp_choice(2, "g0") ? spv_str(s, "g0", 2) : 0; c_float e1 = sym_float("e1"); c_short b0 = sym_short("b0"); c_double f0 = sym_double("f0"); void* g1 = spv_str(s, "g1", 2); c_float e0 = sym_float("e0"); c_long d0 = sym_long("d0"); c_double f1 = sym_double("f1"); c_int c1 = sym_int("c1"); c_long xlo[9] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 9); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_short(0, b1); set_int(1, c0); set_byte(2, a1); set_long(3, d1); set_byte(4, a0); ST[5].oval = g0; set_float(6, e1); set_short(7, b0); set_double(8, f0); ST[9].oval = g1; set_float(10, e0); set_long(11, d0); set_double(12, f1); set_int(13, c1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p16", 17)); ref_p16(b1, c0, a1, d1, a0, g0, e1, b0, f0, g1, e0, d0, f1, c1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 9; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p17(void* g0, c_float e1, void* g1, c_double f1, c_float e0, c_short b0, c_byte a0, c_int c0, c_int c1, c_byte a1, c_short b1, c_long d0, c_double f0, c_long d1, c_long* xlo, c_double* xdd, void** xoo) {
  if (c1 > 3) {
  c1 = c1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c1 = (c_int)(c0 + c0);
  c0 = (c_int)(c0 + 1);
  }
  c_long v0 = 0;
  xlo[0] = c0;
  e1 = e0;
  }
  else {
  e0 = e0;
  {
  c_int v1 = 0;
  b1 = b1;
  c_short v2 = b1;
  if (c0 > 3) {
  {
  ;
  void* v3 = g1;
  xlo[1] = b0;
  a0 = a0;
  c_short v4 = 0;
  }
  void* v5 = 0;
  a1 = a0;
  c_int v6 = 0;
  xlo[2] = a0;
  }
  g1 = g1;
  }
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_long v7 = (c_long)(d1 + d1);
  {
  c_byte v7 = a1;
  xlo[3] = a1;
  {
  g1 = g0;
  xoo[0] = g0;
  a1 = a0;
  }
  ;
  }
  c_float v9 = e0;
  {
  {
  c_double v10 = f0;
  a0 = a0;
  }
  b0 = b0;
  a1 = a1;
  }
  c_byte v11 = a0;
  }
  }
  c_long v12 = (c_long)(d1 + d1);
  {
  b0 = b0;
  c_float v12 = e0;
  c_long v14 = 0;
  e1 = v12;
  xdd[0] = f1;
  {
  c_long v15 = d1;
  c_double v14 = f0;
  }
  {
  void* v17 = g0;
  {
  c_short v18 = 0;
  c_long v19 = d1;
  }
  f0 = f0;
  ;
  }
  }
  g0 = g1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_int v20 = c1;
  c_short* r21 = &b1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_double* r22 = &f0;
  {
  c_float v23 = 0;
  {
  void* v24 = g0;
  ;
  c_short v25 = b1;
  c_int* r26 = &v20;
  xlo[4] = a1;
  }
  v20 = c0;
  ;
  }
  b0 = b1;
  c_int v27 = 0;
  {
  *r21 = b0;
  {
  xlo[5] = c0;
  b1 = b1;
  ;
  c_long* r28 = &d0;
  ;
  ;
  e1 = e0;
  ;
  }
  c_byte v29 = 0;
  b1 = b1;
  c_double v30 = 0;
  *r21 = *r21;
  ;
  }
  void* v31 = 0;
  void* v32 = g1;
  }
  b0 = b1;
  c_short v33 = b0;
  c_byte v34 = a0;
  }
  c1 = (c_int)(c1 + c1);
  c_short* r35 = &b0;
  g0 = g0;
  a1 = a1;
  {
  g1 = g1;
  c_double v36 = f1;
  c_int* r37 = &c1;
  ;
  g1 = g1;
  f1 = f1;
  }
  xlo[6] = a0;
  xlo[7] = a1;
  xlo[8] = b0;
  xlo[9] = b1;
  xlo[10] = c0;
  xlo[11] = c1;
  xlo[12] = d0;
  xlo[13] = d1;
  xlo[14] = v12;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f1;
  xdd[4] = f0;
  xoo[1] = g0;
  xoo[2] = g1;
}
JOB2(p17) { void* g0 = spv_str(s, "g0", 2); c_float e1 = sym_float("e1"); void* g1 = spv_str(s, "g1", 2); c_double f1 = sym_double("f1"); c_float e0 = sym_float("e0"); c_short b0 = sym_short("b0"); c_byte a0 = sym_byte("a0"); c_int c0 = sym_int("c0"); c_int c1 = sym_int("c1"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_long d0 = sym_long("d0"); c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_long xlo[15] = {0}; c_double xdd[5] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 15); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  ST[0].oval = g0; set_float(1, e1); ST[2].oval = g1; set_double(3, f1); set_float(4, e0); set_short(5, b0); set_byte(6, a0); set_int(7, c0); set_int(8, c1); set_byte(9, a1); set_short(10, b1); set_long(11, d0); set_double(12, f0); set_long(13, d1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p17", 17)); ref_p17(g0, e1, g1, f1, e0, b0, a0, c0, c1, a1, b1, d0, f0, d1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 15; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p18(c_double f1, c_short b0, c_byte a0, c_long d1, c_int c0, void* g0, c_float e0, c_float e1, c_int c1, c_short b1, c_byte a1, void* g1, c_double f0, c_long d0, c_long* xlo, c_double* xdd, void** xoo) {
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  c_long v0 = d1;
  c_int v1 = 0;
  }
  a1 = a0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_short v2 = b0;
  c_short v3 = 0;
  }
  a0 = a1;
  c_short* r4 = &b0;
  }
  f0 = f1;
  {
  c_double v5 = 0;
  {
  c_double v6 = 0;
  {
  c_byte v7 = a0;
  if (c0 > 3) {
  ;
  xlo[0] = b1;
  }
  xlo[1] = (c_long)(d1 + d0);
  c_float v8 = e0;
  if (c0 > 3) {
  c_short v9 = b0;
  ;
  c_long v10 = (c_long)(d0 + d0);
  void* v11 = g1;
  }
  else {
  a1 = a0;
  c_short v12 = 0;
  g0 = g1;
  c1 = (c_int)(c1 - 1);
  ;
  }
  ;
  ;
  }
  ;
  }
  ;
  c_byte* r13 = &a1;
  }
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c0;
  xlo[7] = c1;
  xlo[8] = d1;
  xlo[9] = d0;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = f1;
  xdd[3] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p18) { c_double f1 = sym_double("f1"); c_short b0 = sym_short("b0"); c_byte a0 = sym_byte("a0"); c_long d1 = sym_long("d1"); c_int c0 = sym_int("c0"); void* g0 = spv_str(s, "g0", 2); c_float e0 = sym_float("e0"); c_float e1 = sym_float("e1"); c_int c1 = sym_int("c1"); c_short b1 = sym_short("b1"); c_byte a1 = sym_byte("a1"); void* g1 = spv_str(s, "g1", 2); c_double f0 = sym_double("f0"); c_long d0 = sym_long("d0"); c_long xlo[10] = {0}; c_double xdd[4] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 10); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_double(0, f1); set_short(1, b0); set_byte(2, a0); set_long(3, d1); set_int(4, c0); ST[5].oval = g0; set_float(6, e0); set_float(7, e1); set_int(8, c1); set_short(9, b1); set_byte(10, a1); ST[11].oval = g1; set_double(12, f0); set_long(13, d0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p18", 17)); ref_p18(f1, b0, a0, d1, c0, g0, e0, e1, c1, b1, a1, g1, f0, d0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 10; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p19(void* g1, void* g0, c_double f0, c_int c0, c_float e0, c_short b0, c_long d0, c_float e1, c_long d1, c_double f1, c_byte a1, c_short b1, c_int c1, c_byte a0, c_long* xlo, c_double* xdd, void** xoo) {
  c_byte v0 = a1;
  g0 = g0;
  c_byte v1 = a1;
  xlo[0] = (c_long)(d0 + d0);
  v1 = a1;
  xlo[1] = b0;
  c_long* r2 = &d0;
  e0 = e0;
  c0 = (c_int)(c1 + c0);
  c_float v3 = e0;
  *r2 = (c_long)(d1 + d0);
  {
  b1 = b1;
  c_float v4 = 0;
  c_long v5 = *r2;
  g1 = g1;
  c_double* r6 = &f1;
  }
  c_double v7 = 0;
  *r2 = (c_long)(d0 + d1);
  c_int v8 = 0;
  void* v9 = g0;
  v7 = f1;
  {
  c_float* r10 = &e1;
  a0 = a1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_double v11 = 0;
  c_float v12 = 0;
  v8 = (c_int)(v8 + 1);
  *r10 = e1;
  }
  c_double v13 = 0;
  b1 = b0;
  c_short v8 = b0;
  c_long v15 = (c_long)(d1 + d0);
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_double v16 = f0;
  b0 = b0;
  c_short* r17 = &b1;
  }
  c_byte v18 = 0;
  {
  {
  {
  if (c1 > 3) {
  ;
  ;
  c_byte v19 = v0;
  ;
  g0 = v9;
  c_double v20 = 0;
  }
  else {
  ;
  xoo[0] = g0;
  void* v21 = 0;
  c_long v22 = 0;
  }
  b1 = b0;
  c_short v23 = 0;
  d0 = (c_long)(d0 - 1);
  xdd[0] = f1;
  xlo[2] = b1;
  }
  *r2 = *r2;
  {
  v8 = (c_int)(v8 + 1);
  void* v24 = g1;
  }
  v8 = (c_int)(c1 + c1);
  c_double v25 = 0;
  c_float v3 = 0;
  c_double v27 = f1;
  }
  c_int v28 = 0;
  }
  c_short* r29 = &b1;
  c_byte v30 = 0;
  xlo[3] = a1;
  xlo[4] = a0;
  xlo[5] = v0;
  xlo[6] = v1;
  xlo[7] = v18;
  xlo[8] = v30;
  xlo[9] = b0;
  xlo[10] = b1;
  xlo[11] = c0;
  xlo[12] = c1;
  xlo[13] = v8;
  xlo[14] = d0;
  xlo[15] = d1;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = v3;
  xdd[4] = f0;
  xdd[5] = f1;
  xdd[6] = v7;
  xoo[1] = g1;
  xoo[2] = g0;
  xoo[3] = v9;
}
JOB2(p19) { void* g1 = spv_str(s, "g1", 2); void* g0 = spv_str(s, "g0", 2); c_double f0 = sym_double("f0"); c_int c0 = sym_int("c0"); c_float e0 = sym_float("e0"); c_short b0 = sym_short("b0"); c_long d0 = sym_long("d0"); c_float e1 = sym_float("e1"); c_long d1 = sym_long("d1"); c_double f1 = sym_double("f1"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_int c1 = sym_int("c1"); c_byte a0 = sym_byte("a0"); c_long xlo[16] = {0}; c_double xdd[7] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 16); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  ST[0].oval = g1; ST[1].oval = g0; set_double(2, f0); set_int(3, c0); set_float(4, e0); set_short(5, b0); set_long(6, d0); set_float(7, e1); set_long(8, d1); set_double(9, f1); set_byte(10, a1); set_short(11, b1); set_int(12, c1); set_byte(13, a0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p19", 17)); ref_p19(g1, g0, f0, c0, e0, b0, d0, e1, d1, f1, a1, b1, c1, a0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 16; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p20(void* g0, c_short b1, c_int c1, c_float e0, c_double f1, void* g1, c_double f0, c_int c0, c_short b0, c_float e1, c_long d0, c_long d1, c_byte a0, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  c0 = c1;
  a1 = a0;
  c_long v0 = d1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_int v0 = 0;
  c_long v2 = d1;
  a0 = a0;
  }
  {
  f1 = f0;
  b0 = b1;
  ;
  }
  v0 = v0;
  }
  if (c0 > 3) {
  if (c0 > 3) {
  void* v3 = g0;
  c_byte v4 = a1;
  c_int v5 = c0;
  {
  c_long v6 = d0;
  }
  }
  void* v7 = 0;
  c_long v8 = 0;
  {
  g1 = v7;
  c_int v7 = c1;
  void* v8 = 0;
  ;
  }
  {
  c_int v11 = c1;
  v8 = (c_long)(v0 + v8);
  c_int* r12 = &c1;
  *r12 = c1;
  {
  {
  c_float v13 = 0;
  f0 = f0;
  c_float v14 = v13;
  c_byte v8 = 0;
  a1 = a0;
  *r12 = c0;
  }
  c_byte v16 = 0;
  f0 = f0;
  ;
  }
  e1 = e0;
  }
  }
  else {
  c_long* r17 = &d0;
  c_byte v0 = 0;
  xdd[0] = e0;
  c_int* r19 = &c0;
  {
  {
  f0 = f1;
  f1 = f1;
  }
  *r17 = *r17;
  {
  c_int v20 = *r19;
  c_short v21 = 0;
  }
  {
  e0 = e0;
  c_short v22 = 0;
  c1 = c0;
  c_float v0 = 0;
  {
  f1 = f0;
  c_double v24 = f1;
  ;
  }
  *r17 = *r17;
  c_byte v25 = a0;
  ;
  }
  }
  }
  c_short v26 = b1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  f1 = f0;
  xdd[1] = f1;
  }
  c_long v27 = d1;
  c_int v28 = 0;
  c_float* r29 = &e0;
  xdd[2] = e0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  e0 = e1;
  c_byte v30 = 0;
  c_short v31 = v26;
  c_short v32 = v31;
  }
  c_double v33 = f1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  v26 = v26;
  xlo[0] = v26;
  {
  xlo[1] = a0;
  g0 = g0;
  a1 = a0;
  {
  *r29 = e1;
  c_long v34 = 0;
  {
  ;
  *r29 = e0;
  c_int* r35 = &c1;
  xlo[2] = b1;
  ;
  }
  c_byte* r36 = &a0;
  {
  a0 = a1;
  *r29 = e0;
  ;
  ;
  }
  void* v37 = g1;
  }
  c_long* r38 = &v27;
  }
  void* v39 = g1;
  ;
  ;
  }
  xlo[3] = a0;
  xlo[4] = a1;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = v26;
  xlo[8] = c1;
  xlo[9] = c0;
  xlo[10] = v28;
  xlo[11] = d0;
  xlo[12] = d1;
  xlo[13] = v0;
  xlo[14] = v27;
  xdd[3] = e0;
  xdd[4] = e1;
  xdd[5] = f1;
  xdd[6] = f0;
  xdd[7] = v33;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p20) { void* g0 = spv_str(s, "g0", 2); c_short b1 = sym_short("b1"); c_int c1 = sym_int("c1"); c_float e0 = sym_float("e0"); c_double f1 = sym_double("f1"); void* g1 = spv_str(s, "g1", 2); c_double f0 = sym_double("f0"); c_int c0 = sym_int("c0"); c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); c_long d0 = sym_long("d0"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); c_byte a1 = sym_byte("a1"); c_long xlo[15] = {0}; c_double xdd[8] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 15); void* dd = ENV->new_double_array(ENV, ST, 8); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  ST[0].oval = g0; set_short(1, b1); set_int(2, c1); set_float(3, e0); set_double(4, f1); ST[5].oval = g1; set_double(6, f0); set_int(7, c0); set_short(8, b0); set_float(9, e1); set_long(10, d0); set_long(11, d1); set_byte(12, a0); set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p20", 17)); ref_p20(g0, b1, c1, e0, f1, g1, f0, c0, b0, e1, d0, d1, a0, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 15; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 8; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p21(c_byte a1, c_long d1, c_byte a0, c_double f1, c_int c1, c_double f0, void* g0, c_long d0, c_int c0, c_short b1, c_float e1, c_short b0, void* g1, c_float e0, c_long* xlo, c_double* xdd, void** xoo) {
  if (c1 > 3) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_double v0 = f0;
  d0 = (c_long)(d0 + 1);
  c_short v1 = b1;
  if (c1 > 3) {
  {
  c_long v2 = d0;
  c_int v3 = 0;
  xlo[0] = (c_int)(c1 + v3);
  a0 = a0;
  ;
  }
  c_float v0 = e0;
  c_byte v5 = a0;
  }
  else {
  a1 = a0;
  a1 = a1;
  c_short v6 = 0;
  c_int v7 = (c_int)(c1 + c1);
  c_byte v8 = 0;
  }
  }
  d0 = d1;
  c_long* r9 = &d0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  xlo[1] = d1;
  {
  {
  a0 = a1;
  c0 = c1;
  ;
  }
  c_byte v10 = 0;
  c_int v11 = c1;
  }
  {
  c_byte v12 = a1;
  c_int v13 = (c_int)(c0 + c0);
  void* v14 = g0;
  ;
  }
  c_int v15 = c1;
  }
  }
  c_float v16 = e1;
  ;
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = b1;
  xlo[5] = b0;
  xlo[6] = c1;
  xlo[7] = c0;
  xlo[8] = d1;
  xlo[9] = d0;
  xdd[0] = e1;
  xdd[1] = e0;
  xdd[2] = v16;
  xdd[3] = f1;
  xdd[4] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p21) { c_byte a1 = sym_byte("a1"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); c_double f1 = sym_double("f1"); c_int c1 = sym_int("c1"); c_double f0 = sym_double("f0"); void* g0 = spv_str(s, "g0", 2); c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_short b1 = sym_short("b1"); c_float e1 = sym_float("e1"); c_short b0 = sym_short("b0"); void* g1 = spv_str(s, "g1", 2); c_float e0 = sym_float("e0"); c_long xlo[10] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 10); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_byte(0, a1); set_long(1, d1); set_byte(2, a0); set_double(3, f1); set_int(4, c1); set_double(5, f0); ST[6].oval = g0; set_long(7, d0); set_int(8, c0); set_short(9, b1); set_float(10, e1); set_short(11, b0); ST[12].oval = g1; set_float(13, e0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p21", 17)); ref_p21(a1, d1, a0, f1, c1, f0, g0, d0, c0, b1, e1, b0, g1, e0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 10; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p22(c_float e0, c_int c0, c_byte a0, c_short b1, c_long d1, void* g1, c_double f0, c_double f1, void* g0, c_byte a1, c_int c1, c_float e1, c_long d0, c_short b0, c_long* xlo, c_double* xdd, void** xoo) {
  c1 = (c_int)(c0 + c1);
  xlo[0] = d1;
  if (c0 > 3) {
  c_float* r0 = &e0;
  xlo[1] = (c_long)(d0 + d1);
  c_byte v1 = 0;
  if (c0 > 3) {
  v1 = v1;
  *r0 = e1;
  c_double* r2 = &f0;
  }
  else {
  {
  c_float v1 = e0;
  c_short v4 = b0;
  c_int* r5 = &c1;
  }
  {
  g1 = g0;
  c_short v6 = b1;
  {
  *r0 = e0;
  xdd[0] = f0;
  ;
  g0 = g0;
  c_double v7 = f0;
  ;
  }
  c_int v1 = 0;
  }
  xdd[1] = e1;
  {
  c_short v9 = b1;
  a1 = v1;
  v1 = a0;
  xdd[2] = f1;
  c_float v10 = e1;
  c1 = c0;
  ;
  }
  {
  c_byte* r11 = &a0;
  {
  c_long* r12 = &d1;
  ;
  }
  c_float v1 = e0;
  {
  xlo[2] = *r11;
  ;
  c_double v14 = 0;
  ;
  *r11 = a1;
  c_double v1 = f1;
  *r0 = e0;
  ;
  }
  *r0 = e1;
  }
  f1 = f0;
  }
  }
  else {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_float* r16 = &e0;
  {
  c_byte v17 = 0;
  c_int v18 = 0;
  c_float v19 = 0;
  ;
  }
  c_short v20 = b0;
  g0 = g1;
  {
  *r16 = *r16;
  *r16 = e1;
  c_float v21 = e1;
  ;
  }
  *r16 = e1;
  {
  c_float v22 = *r16;
  c_long v23 = d1;
  c_byte v24 = a1;
  void* v25 = g1;
  void* v26 = 0;
  ;
  ;
  }
  }
  ;
  void* v27 = 0;
  }
  xlo[3] = a0;
  xlo[4] = a1;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = c0;
  xlo[8] = c1;
  xlo[9] = d1;
  xlo[10] = d0;
  xdd[3] = e0;
  xdd[4] = e1;
  xdd[5] = f0;
  xdd[6] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p22) { c_float e0 = sym_float("e0"); c_int c0 = sym_int("c0"); c_byte a0 = sym_byte("a0"); c_short b1 = sym_short("b1"); c_long d1 = sym_long("d1"); void* g1 = spv_str(s, "g1", 2); c_double f0 = sym_double("f0"); c_double f1 = sym_double("f1"); void* g0 = spv_str(s, "g0", 2); c_byte a1 = sym_byte("a1"); c_int c1 = sym_int("c1"); c_float e1 = sym_float("e1"); c_long d0 = sym_long("d0"); c_short b0 = sym_short("b0"); c_long xlo[11] = {0}; c_double xdd[7] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_float(0, e0); set_int(1, c0); set_byte(2, a0); set_short(3, b1); set_long(4, d1); ST[5].oval = g1; set_double(6, f0); set_double(7, f1); ST[8].oval = g0; set_byte(9, a1); set_int(10, c1); set_float(11, e1); set_long(12, d0); set_short(13, b0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p22", 17)); ref_p22(e0, c0, a0, b1, d1, g1, f0, f1, g0, a1, c1, e1, d0, b0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p23(c_float e0, c_double f0, c_byte a1, c_float e1, c_short b1, c_int c1, c_byte a0, c_int c0, c_long d0, c_short b0, void* g0, void* g1, c_double f1, c_long d1, c_long* xlo, c_double* xdd, void** xoo) {
  c_float v0 = 0;
  {
  c_double v1 = 0;
  c_long* r2 = &d1;
  {
  d0 = d1;
  d1 = d1;
  c_double v3 = f0;
  xlo[0] = d1;
  c_long v1 = 0;
  {
  if (c1 > 3) {
  c_long v5 = 0;
  c_double v0 = 0;
  c0 = (c_int)(c0 - 1);
  *r2 = d1;
  c_byte v7 = a1;
  }
  else {
  *r2 = v1;
  ;
  c_byte v8 = 0;
  c_double v9 = 0;
  c_double v10 = 0;
  c_int* r11 = &c1;
  ;
  }
  v1 = v1;
  c_double* r12 = &v3;
  c_long v13 = 0;
  c_short v14 = b1;
  c_byte v15 = 0;
  {
  c_double v16 = f0;
  ;
  v15 = a0;
  ;
  ;
  }
  }
  }
  }
  c_double v17 = f1;
  g0 = g1;
  b1 = b1;
  xlo[1] = c0;
  {
  c0 = c1;
  c_long* r18 = &d1;
  *r18 = *r18;
  }
  c_double v19 = 0;
  c_short v20 = b1;
  {
  a1 = a1;
  c_long v21 = (c_long)(d0 + d0);
  c_byte v22 = 0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_long v23 = v21;
  {
  c_int v24 = (c_int)(c1 + c1);
  {
  g1 = g1;
  ;
  ;
  }
  {
  g0 = g1;
  ;
  }
  {
  ;
  ;
  }
  c_int* r25 = &c0;
  }
  }
  }
  {
  c_short v26 = b0;
  g0 = g1;
  {
  {
  if (c0 > 3) {
  g1 = g1;
  c_double v27 = 0;
  f0 = v27;
  }
  else {
  void* v28 = g0;
  ;
  ;
  v17 = v17;
  c_int* r29 = &c0;
  e1 = e1;
  b1 = b0;
  }
  a1 = a0;
  c_short* r30 = &v20;
  c_short v31 = b0;
  }
  {
  e1 = e0;
  xoo[0] = g1;
  }
  {
  d0 = (c_long)(d1 + d0);
  {
  c_int v32 = 0;
  g0 = g1;
  c_double v33 = 0;
  ;
  }
  }
  g0 = g0;
  xoo[1] = g0;
  b0 = v26;
  a0 = a1;
  }
  }
  {
  {
  {
  {
  v17 = f0;
  v19 = v19;
  xdd[0] = e1;
  ;
  }
  c_int v0 = 0;
  d0 = d0;
  }
  c_byte v35 = a1;
  ;
  }
  c_long* r36 = &d0;
  ;
  ;
  }
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = b1;
  xlo[5] = b0;
  xlo[6] = v20;
  xlo[7] = c1;
  xlo[8] = c0;
  xlo[9] = d0;
  xlo[10] = d1;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = v0;
  xdd[4] = f0;
  xdd[5] = f1;
  xdd[6] = v17;
  xdd[7] = v19;
  xoo[2] = g0;
  xoo[3] = g1;
}
JOB2(p23) { c_float e0 = sym_float("e0"); c_double f0 = sym_double("f0"); c_byte a1 = sym_byte("a1"); c_float e1 = sym_float("e1"); c_short b1 = sym_short("b1"); c_int c1 = sym_int("c1"); c_byte a0 = sym_byte("a0"); c_int c0 = sym_int("c0"); c_long d0 = sym_long("d0"); c_short b0 = sym_short("b0"); void* g0 = spv_str(s, "g0", 2); void* g1 = spv_str(s, "g1", 2); c_double f1 = sym_double("f1"); c_long d1 = sym_long("d1"); c_long xlo[11] = {0}; c_double xdd[8] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 8); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_float(0, e0); set_double(1, f0); set_byte(2, a1); set_float(3, e1); set_short(4, b1); set_int(5, c1); set_byte(6, a0); set_int(7, c0); set_long(8, d0); set_short(9, b0); ST[10].oval = g0; ST[11].oval = g1; set_double(12, f1); set_long(13, d1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p23", 17)); ref_p23(e0, f0, a1, e1, b1, c1, a0, c0, d0, b0, g0, g1, f1, d1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 8; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p24(c_double f0, void* g1, c_double f1, c_float e1, c_short b0, c_int c0, c_short b1, c_byte a1, c_float e0, c_int c1, c_long d0, c_long d1, c_byte a0, void* g0, c_long* xlo, c_double* xdd, void** xoo) {
  xlo[0] = b0;
  f1 = f0;
  c_byte v0 = a1;
  c_int v1 = 0;
  c_long v2 = 0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  if (c1 > 3) {
  {
  if (c0 > 3) {
  ;
  c_int v3 = (c_int)(v1 + c1);
  void* v4 = 0;
  }
  else {
  ;
  xdd[0] = e0;
  c_long* r5 = &d1;
  }
  g0 = g1;
  {
  c_float v6 = e0;
  ;
  ;
  ;
  f1 = f1;
  }
  a1 = a1;
  xlo[1] = a0;
  }
  c_byte* r7 = &v0;
  c_float* r8 = &e0;
  c_long v9 = 0;
  {
  f0 = f1;
  *r7 = a0;
  }
  f1 = f1;
  g0 = g0;
  }
  c_byte v10 = 0;
  c_int v11 = 0;
  }
  v0 = a0;
  g0 = g1;
  c_short v12 = 0;
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = v0;
  xlo[5] = b0;
  xlo[6] = b1;
  xlo[7] = v12;
  xlo[8] = c0;
  xlo[9] = c1;
  xlo[10] = v1;
  xlo[11] = d0;
  xlo[12] = d1;
  xlo[13] = v2;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f0;
  xdd[4] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p24) { c_double f0 = sym_double("f0"); void* g1 = spv_str(s, "g1", 2); c_double f1 = sym_double("f1"); c_float e1 = sym_float("e1"); c_short b0 = sym_short("b0"); c_int c0 = sym_int("c0"); c_short b1 = sym_short("b1"); c_byte a1 = sym_byte("a1"); c_float e0 = sym_float("e0"); c_int c1 = sym_int("c1"); c_long d0 = sym_long("d0"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); void* g0 = vp_choice(2, "g0") ? spv_str(s, "g0", 2) : 0; c_long xlo[14] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 14); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_double(0, f0); ST[1].oval = g1; set_double(2, f1); set_float(3, e1); set_short(4, b0); set_int(5, c0); set_short(6, b1); set_byte(7, a1); set_float(8, e0); set_int(9, c1); set_long(10, d0); set_long(11, d1); set_byte(12, a0); ST[13].oval = g0; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p24", 17)); ref_p24(f0, g1, f1, e1, b0, c0, b1, a1, e0, c1, d0, d1, a0, g0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 14; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p25(c_int c0, c_double f1, c_byte a1, c_long d0, c_short b0, c_float e1, c_long d1, c_float e0, c_double f0, c_int c1, void* g1, void* g0, c_byte a0, c_short b1, c_long* xlo, c_double* xdd, void** xoo) {
  {
  xdd[0] = e0;
  {
  {
  c_short v0 = 0;
  }
  c_double v1 = f0;
  }
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_int v2 = (c_int)(c0 + c0);
  {
  c_float v3 = 0;
  {
  ;
  g0 = g1;
  ;
  }
  }
  d1 = d0;
  e1 = e0;
  g1 = g0;
  c_float v4 = 0;
  }
  c_long v5 = 0;
  c_float v6 = e0;
  b1 = b1;
  }
  if (c0 > 3) {
  c_float v7 = 0;
  void* v8 = g0;
  c_float v9 = v7;
  c_byte v10 = a0;
  if (c0 > 3) {
  {
  c_byte v11 = v10;
  c1 = c0;
  {
  b1 = b1;
  c_double v12 = f0;
  xoo[0] = v8;
  ;
  v9 = e0;
  }
  {
  ;
  c_int v13 = 0;
  b1 = b1;
  ;
  f0 = f0;
  c_byte v14 = v11;
  }
  c_float v15 = 0;
  c1 = c1;
  }
  f1 = f0;
  b0 = b1;
  d1 = d0;
  c_double* r16 = &f0;
  }
  {
  c_byte v17 = a1;
  b1 = b0;
  }
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_double v18 = 0;
  b0 = b0;
  c_float v19 = 0;
  v19 = v19;
  }
  }
  c_int* r20 = &c0;
  xlo[0] = a1;
  xlo[1] = a0;
  xlo[2] = b0;
  xlo[3] = b1;
  xlo[4] = c0;
  xlo[5] = c1;
  xlo[6] = d0;
  xlo[7] = d1;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f1;
  xdd[4] = f0;
  xoo[1] = g1;
  xoo[2] = g0;
}
JOB2(p25) { c_int c0 = sym_int("c0"); c_double f1 = sym_double("f1"); c_byte a1 = sym_byte("a1"); c_long d0 = sym_long("d0"); c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); c_long d1 = sym_long("d1"); c_float e0 = sym_float("e0"); c_double f0 = sym_double("f0"); c_int c1 = sym_int("c1"); void* g1 = spv_str(s, "g1", 2); void* g0 = spv_str(s, "g0", 2); c_byte a0 = sym_byte("a0"); c_short b1 = sym_short("b1"); c_long xlo[8] = {0}; c_double xdd[5] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 8); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_int(0, c0); set_double(1, f1); set_byte(2, a1); set_long(3, d0); set_short(4, b0); set_float(5, e1); set_long(6, d1); set_float(7, e0); set_double(8, f0); set_int(9, c1); ST[10].oval = g1; ST[11].oval = g0; set_byte(12, a0); set_short(13, b1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p25", 17)); ref_p25(c0, f1, a1, d0, b0, e1, d1, e0, f0, c1, g1, g0, a0, b1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 8; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p26(c_byte a1, void* g1, void* g0, c_short b0, c_float e1, c_int c1, c_float e0, c_double f0, c_short b1, c_double f1, c_long d0, c_int c0, c_long d1, c_byte a0, c_long* xlo, c_double* xdd, void** xoo) {
  c_double v0 = 0;
  b1 = b1;
  c_byte v1 = a0;
  f1 = f0;
  c_int* r2 = &c0;
  c_short v3 = b1;
  e0 = e0;
  d0 = (c_long)(d0 + d0);
  c_long v4 = d0;
  xlo[0] = c0;
  c_short v5 = 0;
  c_byte v6 = 0;
  c_double v7 = 0;
  c_double v8 = v7;
  c_long v9 = 0;
  f1 = v7;
  c_byte v10 = 0;
  *r2 = (c_int)(c0 + c1);
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  *r2 = c0;
  c_double v11 = f1;
  {
  c_long v9 = d0;
  {
  ;
  *r2 = (c_int)(c0 + c0);
  d0 = (c_long)(d0 - 1);
  ;
  c_int v13 = 0;
  *r2 = v13;
  }
  void* v14 = 0;
  *r2 = c0;
  *r2 = c0;
  }
  }
  c_short* r15 = &b0;
  c_long v10 = 0;
  v6 = a1;
  }
  c_byte v17 = 0;
  c_int v18 = 0;
  v1 = a0;
  c_int v19 = 0;
  xoo[0] = g1;
  {
  xdd[0] = v8;
  *r2 = *r2;
  {
  v4 = v9;
  {
  xdd[1] = e0;
  g0 = g1;
  xdd[2] = e1;
  *r2 = *r2;
  c_int v7 = (c_int)(c1 + c0);
  }
  c_double* r21 = &v0;
  v3 = v5;
  ;
  }
  }
  {
  {
  c_short v22 = v3;
  v17 = a0;
  c_short v10 = 0;
  }
  *r2 = c0;
  e1 = e1;
  c_float* r24 = &e0;
  *r24 = e0;
  g0 = g1;
  }
  c0 = v19;
  c_short* r25 = &b1;
  c_long v26 = 0;
  v9 = d1;
  v19 = c1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_long v27 = 0;
  g1 = g1;
  void* v28 = 0;
  v6 = a0;
  c_short* r29 = &v3;
  c_short* r30 = &b0;
  }
  void* v31 = g1;
  c_int v32 = (c_int)(v19 + v19);
  c_double v33 = 0;
  v9 = d1;
  c_byte v34 = a1;
  a0 = v17;
  c_short v35 = v3;
  {
  e1 = e0;
  c_float v36 = 0;
  c_float v37 = v36;
  c_short v38 = b0;
  }
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  v3 = *r25;
  d1 = (c_long)(d1 + 1);
  f0 = v0;
  c_float v19 = 0;
  if (v18 > 3) {
  v17 = a1;
  xlo[1] = v3;
  c_float v40 = 0;
  c_long* r41 = &v9;
  c_double v42 = f1;
  void* v43 = 0;
  v32 = v18;
  }
  else {
  g0 = g1;
  ;
  *r2 = v32;
  ;
  v33 = v33;
  c_byte* r44 = &a0;
  }
  v7 = f0;
  ;
  }
  c_short v45 = 0;
  c_short v31 = v35;
  ;
  }
  xdd[3] = f1;
  ;
  }
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = v1;
  xlo[5] = v6;
  xlo[6] = v10;
  xlo[7] = v17;
  xlo[8] = v34;
  xlo[9] = b0;
  xlo[10] = b1;
  xlo[11] = v3;
  xlo[12] = v5;
  xlo[13] = v35;
  xlo[14] = c1;
  xlo[15] = c0;
  xlo[16] = v18;
  xlo[17] = v19;
  xlo[18] = v32;
  xlo[19] = d0;
  xlo[20] = d1;
  xlo[21] = v4;
  xlo[22] = v9;
  xlo[23] = v26;
  xdd[4] = e1;
  xdd[5] = e0;
  xdd[6] = f0;
  xdd[7] = f1;
  xdd[8] = v0;
  xdd[9] = v7;
  xdd[10] = v8;
  xdd[11] = v33;
  xoo[1] = g1;
  xoo[2] = g0;
  xoo[3] = v31;
}
JOB2(p26) { c_byte a1 = sym_byte("a1"); void* g1 = spv_str(s, "g1", 2); void* g0 = spv_str(s, "g0", 2); c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); c_int c1 = sym_int("c1"); c_float e0 = sym_float("e0"); c_double f0 = sym_double("f0"); c_short b1 = sym_short("b1"); c_double f1 = sym_double("f1"); c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); c_long xlo[24] = {0}; c_double xdd[12] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 24); void* dd = ENV->new_double_array(ENV, ST, 12); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_byte(0, a1); ST[1].oval = g1; ST[2].oval = g0; set_short(3, b0); set_float(4, e1); set_int(5, c1); set_float(6, e0); set_double(7, f0); set_short(8, b1); set_double(9, f1); set_long(10, d0); set_int(11, c0); set_long(12, d1); set_byte(13, a0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p26", 17)); ref_p26(a1, g1, g0, b0, e1, c1, e0, f0, b1, f1, d0, c0, d1, a0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 24; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 12; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p27(c_double f1, c_long d0, c_short b0, c_float e1, c_double f0, c_int c1, c_int c0, void* g1, c_short b1, c_long d1, c_float e0, void* g0, c_byte a1, c_byte a0, c_long* xlo, c_double* xdd, void** xoo) {
  xoo[0] = g0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_float v0 = e0;
  }
  c_long* r1 = &d1;
  *r1 = d0;
  c_short v2 = b1;
  b1 = v2;
  *r1 = d0;
  void* v3 = g1;
  b1 = b0;
  c_double v4 = 0;
  a0 = a1;
  c_int v5 = c1;
  *r1 = d0;
  {
  void* v6 = 0;
  c_double v7 = 0;
  }
  {
  {
  c_long v8 = 0;
  c_float* r9 = &e0;
  *r1 = *r1;
  a0 = a0;
  {
  c_float v3 = 0;
  g0 = g0;
  *r1 = d0;
  }
  }
  *r1 = d0;
  {
  xdd[0] = e0;
  a1 = a0;
  {
  g1 = g1;
  c_byte v11 = 0;
  a1 = v11;
  c1 = v5;
  }
  c1 = c0;
  xdd[1] = f0;
  c_short v12 = v2;
  ;
  }
  e0 = e0;
  void* v13 = v3;
  ;
  ;
  }
  xlo[0] = a1;
  xlo[1] = a0;
  xlo[2] = b0;
  xlo[3] = b1;
  xlo[4] = v2;
  xlo[5] = c1;
  xlo[6] = c0;
  xlo[7] = v5;
  xlo[8] = d0;
  xlo[9] = d1;
  xdd[2] = e1;
  xdd[3] = e0;
  xdd[4] = f1;
  xdd[5] = f0;
  xdd[6] = v4;
  xoo[1] = g1;
  xoo[2] = g0;
  xoo[3] = v3;
}
JOB2(p27) { c_double f1 = sym_double("f1"); c_long d0 = sym_long("d0"); c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); c_double f0 = sym_double("f0"); c_int c1 = sym_int("c1"); c_int c0 = sym_int("c0"); void* g1 = spv_str(s, "g1", 2); c_short b1 = sym_short("b1"); c_long d1 = sym_long("d1"); c_float e0 = sym_float("e0"); void* g0 = spv_str(s, "g0", 2); c_byte a1 = sym_byte("a1"); c_byte a0 = sym_byte("a0"); c_long xlo[10] = {0}; c_double xdd[7] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 10); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_double(0, f1); set_long(1, d0); set_short(2, b0); set_float(3, e1); set_double(4, f0); set_int(5, c1); set_int(6, c0); ST[7].oval = g1; set_short(8, b1); set_long(9, d1); set_float(10, e0); ST[11].oval = g0; set_byte(12, a1); set_byte(13, a0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p27", 17)); ref_p27(f1, d0, b0, e1, f0, c1, c0, g1, b1, d1, e0, g0, a1, a0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 10; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p28(c_int c1, c_double f1, c_byte a0, c_byte a1, c_float e0, void* g0, c_short b0, void* g1, c_short b1, c_int c0, c_double f0, c_long d0, c_float e1, c_long d1, c_long* xlo, c_double* xdd, void** xoo) {
  void* v0 = g0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_byte v1 = a0;
  e0 = e1;
  }
  c_long v2 = d0;
  c_double v3 = f0;
  c_long* r4 = &d0;
  d0 = d0;
  c_double v5 = v3;
  b0 = b1;
  c_float v6 = 0;
  *r4 = *r4;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  c_float v7 = v6;
  if (c1 > 3) {
  *r4 = (c_long)(d1 + d0);
  c_int v8 = (c_int)(c1 + c0);
  g0 = v0;
  if (c1 > 3) {
  ;
  ;
  }
  else {
  c_short v9 = b1;
  a1 = a1;
  }
  b0 = b0;
  }
  else {
  v3 = v3;
  {
  c_float v3 = v6;
  ;
  ;
  }
  c_byte v11 = a0;
  }
  c_double v12 = f0;
  }
  {
  *r4 = d1;
  e1 = v6;
  v5 = v3;
  d1 = *r4;
  void* v13 = 0;
  xlo[0] = a0;
  }
  }
  *r4 = d0;
  void* v14 = 0;
  void* v15 = 0;
  c_float v16 = 0;
  a0 = a1;
  d0 = *r4;
  {
  b1 = b1;
  e1 = v6;
  e1 = v6;
  }
  v6 = e1;
  v15 = v15;
  xdd[0] = v3;
  c_double v17 = f1;
  c_long v18 = *r4;
  v5 = v3;
  c_double v19 = 0;
  c_int v20 = c1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  {
  g1 = g0;
  xlo[1] = v20;
  {
  c_byte* r21 = &a0;
  c_byte v22 = 0;
  ;
  c_short v15 = b1;
  ;
  }
  c_int* r24 = &c1;
  *r24 = *r24;
  a1 = a0;
  a1 = a1;
  }
  c_byte v17 = 0;
  *r4 = d0;
  v17 = a0;
  ;
  ;
  ;
  }
  *r4 = d1;
  ;
  }
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c1;
  xlo[7] = c0;
  xlo[8] = v20;
  xlo[9] = d0;
  xlo[10] = d1;
  xlo[11] = v2;
  xlo[12] = v18;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = v6;
  xdd[4] = v16;
  xdd[5] = f1;
  xdd[6] = f0;
  xdd[7] = v3;
  xdd[8] = v5;
  xdd[9] = v17;
  xdd[10] = v19;
  xoo[0] = g0;
  xoo[1] = g1;
  xoo[2] = v0;
  xoo[3] = v14;
  xoo[4] = v15;
}
JOB2(p28) { c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_byte a0 = sym_byte("a0"); c_byte a1 = sym_byte("a1"); c_float e0 = sym_float("e0"); void* g0 = spv_str(s, "g0", 2); c_short b0 = sym_short("b0"); void* g1 = spv_str(s, "g1", 2); c_short b1 = sym_short("b1"); c_int c0 = sym_int("c0"); c_double f0 = sym_double("f0"); c_long d0 = sym_long("d0"); c_float e1 = sym_float("e1"); c_long d1 = sym_long("d1"); c_long xlo[13] = {0}; c_double xdd[11] = {0}; void* xoo[5] = {0}; void* lo = ENV->new_long_array(ENV, ST, 13); void* dd = ENV->new_double_array(ENV, ST, 11); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 5);
  set_int(0, c1); set_double(1, f1); set_byte(2, a0); set_byte(3, a1); set_float(4, e0); ST[5].oval = g0; set_short(6, b0); ST[7].oval = g1; set_short(8, b1); set_int(9, c0); set_double(10, f0); set_long(11, d0); set_float(12, e1); set_long(13, d1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p28", 17)); ref_p28(c1, f1, a0, a1, e0, g0, b0, g1, b1, c0, f0, d0, e1, d1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 13; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 11; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p29(c_int c1, void* g0, c_byte a1, c_byte a0, c_long d1, c_short b1, c_double f0, c_long d0, c_short b0, c_float e0, void* g1, c_double f1, c_int c0, c_float e1, c_long* xlo, c_double* xdd, void** xoo) {
  c_double* r0 = &f1;
  c_long* r1 = &d1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  xdd[0] = *r0;
  c_short v2 = b0;
  }
  c_float v3 = 0;
  c_int v4 = 0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  a1 = a1;
  if (c1 > 3) {
  b0 = b0;
  void* v5 = g0;
  v5 = g1;
  c_double v4 = 0;
  a1 = a1;
  c_long v7 = d0;
  }
  else {
  c_short v8 = b0;
  if (c1 > 3) {
  c_float v9 = 0;
  {
  g0 = g0;
  xdd[1] = *r0;
  c0 = (c_int)(v4 + c1);
  b0 = b0;
  c_int v3 = c1;
  c_byte* r11 = &a1;
  c_short v12 = b1;
  ;
  }
  f1 = f1;
  }
  else {
  xlo[0] = (c_long)(d0 + d1);
  c_long v13 = 0;
  {
  ;
  *r1 = v13;
  *r1 = *r1;
  ;
  c_long v4 = 0;
  }
  {
  c_double v15 = f1;
  ;
  ;
  xlo[1] = a1;
  *r1 = (c_long)(d0 + d1);
  }
  {
  *r0 = *r0;
  a1 = a1;
  ;
  *r1 = v13;
  *r1 = d0;
  }
  e0 = e1;
  {
  ;
  b0 = b0;
  g0 = g1;
  c_float* r16 = &e0;
  *r16 = v3;
  c_byte v17 = a0;
  ;
  }
  }
  c_double* r18 = &f1;
  c_double* r19 = &f0;
  }
  d1 = (c_long)(d1 + 1);
  for (c_int i1 = 0; i1 < 2; i1++) {
  void* v4 = g1;
  {
  c_short v21 = 0;
  c0 = c0;
  *r1 = d0;
  }
  *r1 = *r1;
  c_int v22 = 0;
  c_short v3 = b0;
  }
  c_int v24 = 0;
  e1 = e0;
  }
  c_float* r25 = &e1;
  xlo[2] = d0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_int v4 = 0;
  {
  f0 = f0;
  {
  c_int v27 = 0;
  *r25 = e1;
  ;
  }
  c_float* r28 = &e1;
  {
  {
  c_double v29 = f1;
  v4 = (c_int)(v4 + 1);
  ;
  c_int v30 = 0;
  c_double v3 = 0;
  }
  {
  f1 = *r0;
  ;
  xlo[3] = c0;
  void* v32 = 0;
  e1 = *r25;
  *r28 = v3;
  }
  c_double v33 = f0;
  {
  b0 = b0;
  xlo[4] = b0;
  ;
  xlo[5] = d1;
  }
  c_double* r34 = &f0;
  ;
  }
  c_int v35 = 0;
  }
  c_long v36 = 0;
  *r0 = f0;
  ;
  }
  xoo[0] = g1;
  c_double v37 = 0;
  ;
  xlo[6] = a1;
  xlo[7] = a0;
  xlo[8] = b1;
  xlo[9] = b0;
  xlo[10] = c1;
  xlo[11] = c0;
  xlo[12] = v4;
  xlo[13] = d1;
  xlo[14] = d0;
  xdd[2] = e0;
  xdd[3] = e1;
  xdd[4] = v3;
  xdd[5] = f0;
  xdd[6] = f1;
  xdd[7] = v37;
  xoo[1] = g0;
  xoo[2] = g1;
}
JOB2(p29) { c_int c1 = sym_int("c1"); void* g0 = spv_str(s, "g0", 2); c_byte a1 = sym_byte("a1"); c_byte a0 = sym_byte("a0"); c_long d1 = sym_long("d1"); c_short b1 = sym_short("b1"); c_double f0 = sym_double("f0"); c_long d0 = sym_long("d0"); c_short b0 = sym_short("b0"); c_float e0 = sym_float("e0"); void* g1 = spv_str(s, "g1", 2); c_double f1 = sym_double("f1"); c_int c0 = sym_int("c0"); c_float e1 = sym_float("e1"); c_long xlo[15] = {0}; c_double xdd[8] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 15); void* dd = ENV->new_double_array(ENV, ST, 8); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_int(0, c1); ST[1].oval = g0; set_byte(2, a1); set_byte(3, a0); set_long(4, d1); set_short(5, b1); set_double(6, f0); set_long(7, d0); set_short(8, b0); set_float(9, e0); ST[10].oval = g1; set_double(11, f1); set_int(12, c0); set_float(13, e1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p29", 17)); ref_p29(c1, g0, a1, a0, d1, b1, f0, d0, b0, e0, g1, f1, c0, e1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 15; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 8; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p30(c_int c0, c_double f0, c_int c1, c_byte a1, c_double f1, void* g1, c_float e0, void* g0, c_long d1, c_short b1, c_short b0, c_float e1, c_long d0, c_byte a0, c_long* xlo, c_double* xdd, void** xoo) {
  for (c_int i0 = 0; i0 < 2; i0++) {
  void* v0 = g0;
  f1 = f0;
  c_short v1 = 0;
  }
  c1 = (c_int)(c1 + 1);
  {
  {
  c_int v2 = (c_int)(c1 + c0);
  d0 = (c_long)(d0 + d1);
  c_byte v3 = 0;
  void* v4 = g0;
  }
  f1 = f1;
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  f1 = f1;
  if (c0 > 3) {
  c_float v5 = e0;
  {
  {
  ;
  c1 = (c_int)(c0 + c1);
  b0 = b1;
  ;
  }
  c_float v6 = v5;
  {
  ;
  xoo[0] = g1;
  void* v7 = g0;
  ;
  ;
  }
  c_byte v8 = a1;
  c1 = c0;
  {
  ;
  ;
  ;
  f1 = f0;
  ;
  }
  c0 = (c_int)(c0 + c1);
  ;
  }
  }
  else {
  void* v9 = g1;
  c_long* r10 = &d1;
  c_long v11 = d1;
  }
  }
  xlo[0] = a1;
  xlo[1] = a0;
  xlo[2] = b1;
  xlo[3] = b0;
  xlo[4] = c0;
  xlo[5] = c1;
  xlo[6] = d1;
  xlo[7] = d0;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = f0;
  xdd[3] = f1;
  xoo[1] = g1;
  xoo[2] = g0;
}
JOB2(p30) { c_int c0 = sym_int("c0"); c_double f0 = sym_double("f0"); c_int c1 = sym_int("c1"); c_byte a1 = sym_byte("a1"); c_double f1 = sym_double("f1"); void* g1 = spv_str(s, "g1", 2); c_float e0 = sym_float("e0"); void* g0 = spv_str(s, "g0", 2); c_long d1 = sym_long("d1"); c_short b1 = sym_short("b1"); c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); c_long d0 = sym_long("d0"); c_byte a0 = sym_byte("a0"); c_long xlo[8] = {0}; c_double xdd[4] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 8); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_int(0, c0); set_double(1, f0); set_int(2, c1); set_byte(3, a1); set_double(4, f1); ST[5].oval = g1; set_float(6, e0); ST[7].oval = g0; set_long(8, d1); set_short(9, b1); set_short(10, b0); set_float(11, e1); set_long(12, d0); set_byte(13, a0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p30", 17)); ref_p30(c0, f0, c1, a1, f1, g1, e0, g0, d1, b1, b0, e1, d0, a0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 8; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p31(c_long d0, c_int c0, c_byte a1, c_short b1, c_long d1, c_short b0, void* g0, void* g1, c_int c1, c_double f0, c_byte a0, c_float e0, c_float e1, c_double f1, c_long* xlo, c_double* xdd, void** xoo) {
  c_byte* r0 = &a0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  e0 = e1;
  c_short v1 = b0;
  {
  {
  a1 = a0;
  *r0 = a0;
  ;
  }
  c_float v2 = e1;
  if (c0 > 3) {
  c_double v3 = 0;
  *r0 = *r0;
  c_short* r4 = &b1;
  }
  }
  c_int v5 = 0;
  if (c1 > 3) {
  c0 = (c_int)(c0 + c0);
  c_byte* r6 = &a1;
  c_long v7 = (c_long)(d1 + d0);
  {
  c_float v8 = 0;
  ;
  *r0 = a0;
  }
  {
  c_double* r9 = &f1;
  ;
  c_int v10 = 0;
  b1 = b0;
  c1 = c0;
  }
  *r6 = a0;
  }
  else {
  c_int v11 = c1;
  c_float v12 = e1;
  {
  ;
  ;
  c_double* r13 = &f0;
  ;
  }
  c_int v14 = 0;
  }
  *r0 = *r0;
  f0 = f1;
  ;
  }
  *r0 = a1;
  }
  {
  c1 = (c_int)(c1 + c1);
  void* v15 = 0;
  *r0 = a1;
  f0 = f0;
  b1 = b1;
  c_byte v16 = 0;
  ;
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  c0 = (c_int)(c0 + c1);
  c0 = c0;
  c_short* r17 = &b1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  a0 = a0;
  c_double v18 = f1;
  d1 = (c_long)(d1 + 1);
  {
  {
  f1 = f0;
  ;
  a0 = *r0;
  ;
  d1 = (c_long)(d1 - 1);
  }
  {
  d0 = (c_long)(d1 + d0);
  a1 = *r0;
  f1 = v18;
  }
  }
  c_long v19 = (c_long)(d0 + d1);
  xlo[0] = c1;
  ;
  }
  a0 = a1;
  c_long v20 = d0;
  }
  xlo[1] = a1;
  xlo[2] = a0;
  xlo[3] = b1;
  xlo[4] = b0;
  xlo[5] = c0;
  xlo[6] = c1;
  xlo[7] = d0;
  xlo[8] = d1;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = f0;
  xdd[3] = f1;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p31) { c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_long d1 = sym_long("d1"); c_short b0 = sym_short("b0"); void* g0 = spv_str(s, "g0", 2); void* g1 = spv_str(s, "g1", 2); c_int c1 = sym_int("c1"); c_double f0 = sym_double("f0"); c_byte a0 = sym_byte("a0"); c_float e0 = sym_float("e0"); c_float e1 = sym_float("e1"); c_double f1 = sym_double("f1"); c_long xlo[9] = {0}; c_double xdd[4] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 9); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_long(0, d0); set_int(1, c0); set_byte(2, a1); set_short(3, b1); set_long(4, d1); set_short(5, b0); ST[6].oval = g0; ST[7].oval = g1; set_int(8, c1); set_double(9, f0); set_byte(10, a0); set_float(11, e0); set_float(12, e1); set_double(13, f1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p31", 17)); ref_p31(d0, c0, a1, b1, d1, b0, g0, g1, c1, f0, a0, e0, e1, f1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 9; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p32(c_double f1, void* g0, c_int c0, c_byte a0, c_byte a1, c_float e1, c_long d1, c_short b1, c_int c1, c_short b0, void* g1, c_float e0, c_double f0, c_long d0, c_long* xlo, c_double* xdd, void** xoo) {
  c_long v0 = d0;
  void* v1 = 0;
  xlo[0] = c0;
  if (c0 > 3) {
  b1 = b0;
  v1 = v1;
  c_float v2 = e1;
  d0 = d1;
  a0 = a1;
  }
  else {
  {
  void* v3 = v1;
  d1 = d1;
  xlo[1] = b0;
  c_long v4 = 0;
  c_long v5 = 0;
  c_short v6 = b0;
  }
  c_long v1 = (c_long)(d0 + d1);
  }
  if (c0 > 3) {
  c_int v8 = 0;
  e1 = e1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_long* r9 = &v0;
  c_long v1 = d0;
  *r9 = (c_long)(v1 + v0);
  c_byte* r11 = &a1;
  c_double v12 = 0;
  *r9 = v1;
  }
  f1 = f0;
  c_int* r13 = &v8;
  {
  {
  {
  *r13 = c1;
  c_long v14 = d1;
  c_float* r15 = &e0;
  ;
  }
  e0 = e1;
  b0 = b0;
  c_double v16 = 0;
  a1 = a0;
  c_byte v17 = a0;
  v17 = v17;
  }
  f0 = f1;
  c_float v1 = e0;
  ;
  }
  }
  else {
  d1 = d0;
  c1 = (c_int)(c1 + 1);
  c_double* r19 = &f0;
  void* v20 = 0;
  c_double v21 = 0;
  {
  f1 = f1;
  xoo[0] = g1;
  }
  void* v22 = v1;
  }
  c_double* r23 = &f0;
  c_short v24 = b1;
  {
  c_short v0 = b0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  d0 = d0;
  *r23 = f0;
  c_double v1 = f1;
  c_long* r27 = &d1;
  *r27 = d0;
  c_double v28 = 0;
  }
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_long v29 = d0;
  xlo[2] = c0;
  {
  xlo[3] = v24;
  *r23 = f1;
  }
  {
  c_int* r30 = &c1;
  c_int v31 = 0;
  {
  ;
  c_float* r32 = &e1;
  d0 = (c_long)(d0 - 1);
  xlo[4] = *r30;
  ;
  }
  *r30 = v31;
  *r30 = *r30;
  {
  c_long v0 = v29;
  ;
  c_short v34 = 0;
  *r23 = f0;
  c_int v35 = *r30;
  }
  {
  ;
  c_byte* r36 = &a1;
  c_int v37 = 0;
  c1 = c1;
  e0 = e1;
  ;
  e0 = e1;
  }
  }
  }
  ;
  }
  *r23 = f1;
  *r23 = f1;
  c_byte v38 = a0;
  c_byte v39 = v38;
  *r23 = f1;
  *r23 = f1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_short v40 = 0;
  c_int v38 = c1;
  e0 = e0;
  }
  c_short v42 = 0;
  *r23 = f0;
  c_long* r43 = &v0;
  g0 = g0;
  ;
  xlo[5] = a0;
  xlo[6] = a1;
  xlo[7] = v38;
  xlo[8] = v39;
  xlo[9] = b1;
  xlo[10] = b0;
  xlo[11] = v24;
  xlo[12] = v42;
  xlo[13] = c0;
  xlo[14] = c1;
  xlo[15] = d1;
  xlo[16] = d0;
  xlo[17] = v0;
  xdd[0] = e1;
  xdd[1] = e0;
  xdd[2] = f1;
  xdd[3] = f0;
  xoo[1] = g0;
  xoo[2] = g1;
  xoo[3] = v1;
}
JOB2(p32) { c_double f1 = sym_double("f1"); void* g0 = vp_choice(2, "g0") ? spv_str(s, "g0", 2) : 0; c_int c0 = sym_int("c0"); c_byte a0 = sym_byte("a0"); c_byte a1 = sym_byte("a1"); c_float e1 = sym_float("e1"); c_long d1 = sym_long("d1"); c_short b1 = sym_short("b1"); c_int c1 = sym_int("c1"); c_short b0 = sym_short("b0"); void* g1 = spv_str(s, "g1", 2); c_float e0 = sym_float("e0"); c_double f0 = sym_double("f0"); c_long d0 = sym_long("d0"); c_long xlo[18] = {0}; c_double xdd[4] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 18); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_double(0, f1); ST[1].oval = g0; set_int(2, c0); set_byte(3, a0); set_byte(4, a1); set_float(5, e1); set_long(6, d1); set_short(7, b1); set_int(8, c1); set_short(9, b0); ST[10].oval = g1; set_float(11, e0); set_double(12, f0); set_long(13, d0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p32", 17)); ref_p32(f1, g0, c0, a0, a1, e1, d1, b1, c1, b0, g1, e0, f0, d0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 18; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p33(void* g0, c_short b0, void* g1, c_byte a0, c_float e1, c_long d0, c_int c1, c_float e0, c_byte a1, c_long d1, c_int c0, c_double f1, c_short b1, c_double f0, c_long* xlo, c_double* xdd, void** xoo) {
  void* v0 = 0;
  if (c0 > 3) {
  c_long v0 = d1;
  }
  else {
  d1 = d0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  xlo[0] = c0;
  }
  c_double v2 = f0;
  b0 = b1;
  }
  a0 = a0;
  c1 = c0;
  v0 = g1;
  {
  c_short* r3 = &b1;
  a0 = a0;
  if (c0 > 3) {
  c_short v4 = b0;
  c_long v5 = 0;
  {
  {
  c_short v0 = 0;
  a0 = a0;
  xlo[1] = a0;
  *r3 = v4;
  c_float v7 = e0;
  f0 = f0;
  ;
  }
  c_short* r8 = &b1;
  {
  void* v9 = g1;
  void* v10 = 0;
  ;
  c_int* r11 = &c0;
  ;
  b0 = b0;
  c_float v12 = e1;
  }
  ;
  ;
  }
  }
  else {
  xlo[2] = a0;
  ;
  *r3 = b0;
  }
  g0 = v0;
  ;
  }
  xlo[3] = a0;
  xlo[4] = a1;
  xlo[5] = b0;
  xlo[6] = b1;
  xlo[7] = c1;
  xlo[8] = c0;
  xlo[9] = d0;
  xlo[10] = d1;
  xdd[0] = e1;
  xdd[1] = e0;
  xdd[2] = f1;
  xdd[3] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
  xoo[2] = v0;
}
JOB2(p33) { void* g0 = spv_str(s, "g0", 2); c_short b0 = sym_short("b0"); void* g1 = spv_str(s, "g1", 2); c_byte a0 = sym_byte("a0"); c_float e1 = sym_float("e1"); c_long d0 = sym_long("d0"); c_int c1 = sym_int("c1"); c_float e0 = sym_float("e0"); c_byte a1 = sym_byte("a1"); c_long d1 = sym_long("d1"); c_int c0 = sym_int("c0"); c_double f1 = sym_double("f1"); c_short b1 = sym_short("b1"); c_double f0 = sym_double("f0"); c_long xlo[11] = {0}; c_double xdd[4] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  ST[0].oval = g0; set_short(1, b0); ST[2].oval = g1; set_byte(3, a0); set_float(4, e1); set_long(5, d0); set_int(6, c1); set_float(7, e0); set_byte(8, a1); set_long(9, d1); set_int(10, c0); set_double(11, f1); set_short(12, b1); set_double(13, f0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p33", 17)); ref_p33(g0, b0, g1, a0, e1, d0, c1, e0, a1, d1, c0, f1, b1, f0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p34(c_short b0, c_int c0, c_long d1, c_int c1, c_short b1, c_float e0, void* g0, c_long d0, c_float e1, c_double f1, c_byte a1, c_double f0, c_byte a0, void* g1, c_long* xlo, c_double* xdd, void** xoo) {
  c_short* r0 = &b0;
  c_long* r1 = &d1;
  b0 = b0;
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_double v2 = 0;
  c_double v3 = v2;
  }
  if (c0 > 3) {
  e1 = e1;
  a1 = a1;
  d1 = (c_long)(d1 + d0);
  {
  {
  ;
  ;
  *r0 = b1;
  ;
  }
  c_int v4 = 0;
  ;
  }
  void* v5 = 0;
  }
  void* v6 = 0;
  b0 = *r0;
  c_int* r7 = &c1;
  }
  xlo[0] = *r1;
  c_float* r8 = &e1;
  c_long v9 = (c_long)(d1 + d1);
  xdd[0] = f1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  xlo[1] = d1;
  c_byte v10 = a1;
  {
  e0 = *r8;
  *r0 = b1;
  {
  c_short v11 = 0;
  {
  c_int v12 = c1;
  f1 = f0;
  ;
  }
  c_byte v13 = 0;
  v13 = a1;
  b0 = b0;
  }
  {
  {
  c_byte v14 = v10;
  b0 = b1;
  }
  c1 = c0;
  }
  *r1 = d1;
  }
  c_long v15 = 0;
  }
  f0 = f1;
  *r8 = e1;
  *r8 = e0;
  c0 = (c_int)(c0 + 1);
  c_short* r16 = &b0;
  a1 = a0;
  c_short v17 = 0;
  if (c0 > 3) {
  e0 = e1;
  c_byte* r18 = &a0;
  g1 = g0;
  c_double* r19 = &f0;
  v17 = b0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  *r1 = d1;
  g1 = g0;
  c0 = c1;
  ;
  ;
  }
  c_short v20 = b1;
  }
  e1 = *r8;
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = v17;
  xlo[7] = c0;
  xlo[8] = c1;
  xlo[9] = d1;
  xlo[10] = d0;
  xlo[11] = v9;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = f1;
  xdd[4] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p34) { c_short b0 = sym_short("b0"); c_int c0 = sym_int("c0"); c_long d1 = sym_long("d1"); c_int c1 = sym_int("c1"); c_short b1 = sym_short("b1"); c_float e0 = sym_float("e0"); void* g0 = spv_str(s, "g0", 2); c_long d0 = sym_long("d0"); c_float e1 = sym_float("e1"); c_double f1 = sym_double("f1"); c_byte a1 = sym_byte("a1"); c_double f0 = sym_double("f0"); c_byte a0 = sym_byte("a0"); void* g1 = spv_str(s, "g1", 2); c_long xlo[12] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_short(0, b0); set_int(1, c0); set_long(2, d1); set_int(3, c1); set_short(4, b1); set_float(5, e0); ST[6].oval = g0; set_long(7, d0); set_float(8, e1); set_double(9, f1); set_byte(10, a1); set_double(11, f0); set_byte(12, a0); ST[13].oval = g1; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p34", 17)); ref_p34(b0, c0, d1, c1, b1, e0, g0, d0, e1, f1, a1, f0, a0, g1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p35(c_float e0, c_float e1, c_int c1, c_double f1, c_long d0, c_short b1, c_byte a0, c_byte a1, void* g1, c_int c0, c_short b0, c_long d1, c_double f0, void* g0, c_long* xlo, c_double* xdd, void** xoo) {
  c_long v0 = 0;
  b1 = b0;
  a0 = a1;
  c_short v1 = 0;
  if (c0 > 3) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  c_short v2 = 0;
  {
  void* v1 = 0;
  c_byte v0 = a0;
  }
  c_float* r5 = &e0;
  {
  g1 = g0;
  c_short v6 = b1;
  *r5 = e0;
  xlo[0] = v1;
  c_int v7 = c0;
  v0 = (c_long)(v0 + d0);
  ;
  }
  c_float v8 = e1;
  c_short* r9 = &v2;
  c_float v10 = 0;
  ;
  }
  {
  c_double v11 = f0;
  c_float v12 = 0;
  }
  {
  {
  ;
  ;
  }
  {
  c_byte v0 = a0;
  ;
  ;
  c_long v14 = d0;
  ;
  }
  {
  d1 = (c_long)(v0 + v0);
  c_float* r15 = &e1;
  c_long v0 = d0;
  ;
  }
  {
  c_float v17 = e0;
  e0 = v17;
  ;
  }
  c_float* r18 = &e0;
  b0 = b1;
  }
  e1 = e0;
  }
  {
  if (c1 > 3) {
  c_float v19 = e1;
  c_byte v20 = 0;
  c_int v21 = 0;
  {
  ;
  ;
  xdd[0] = e0;
  }
  {
  ;
  d1 = d1;
  c_float v22 = 0;
  }
  }
  else {
  c_double v23 = f0;
  c_long v24 = d0;
  }
  g1 = g0;
  c1 = c1;
  {
  xdd[1] = f0;
  g0 = g1;
  c_float v25 = 0;
  c_float* r26 = &v25;
  ;
  }
  {
  c_short v1 = b1;
  c_short v28 = 0;
  {
  c_short v29 = v1;
  d1 = d1;
  }
  xlo[1] = b0;
  c0 = c1;
  }
  ;
  }
  xlo[2] = d0;
  f0 = f1;
  }
  else {
  a1 = a0;
  c0 = c0;
  c_int* r30 = &c0;
  c_short v1 = b0;
  c_int* r32 = &c0;
  }
  c_int v33 = 0;
  xdd[2] = e1;
  a0 = a0;
  e0 = e0;
  c0 = (c_int)(c0 - 1);
  c_float v34 = e0;
  c_double v35 = f0;
  c_byte* r36 = &a1;
  e0 = e0;
  c_long v37 = d0;
  c_int v38 = (c_int)(v33 + c1);
  c_byte v39 = a0;
  ;
  ;
  xlo[3] = a0;
  xlo[4] = a1;
  xlo[5] = v39;
  xlo[6] = b1;
  xlo[7] = b0;
  xlo[8] = v1;
  xlo[9] = c1;
  xlo[10] = c0;
  xlo[11] = v33;
  xlo[12] = v38;
  xlo[13] = d0;
  xlo[14] = d1;
  xlo[15] = v0;
  xlo[16] = v37;
  xdd[3] = e0;
  xdd[4] = e1;
  xdd[5] = v34;
  xdd[6] = f1;
  xdd[7] = f0;
  xdd[8] = v35;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p35) { c_float e0 = sym_float("e0"); c_float e1 = sym_float("e1"); c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_long d0 = sym_long("d0"); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); c_byte a1 = sym_byte("a1"); void* g1 = spv_str(s, "g1", 2); c_int c0 = sym_int("c0"); c_short b0 = sym_short("b0"); c_long d1 = sym_long("d1"); c_double f0 = sym_double("f0"); void* g0 = spv_str(s, "g0", 2); c_long xlo[17] = {0}; c_double xdd[9] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 17); void* dd = ENV->new_double_array(ENV, ST, 9); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_float(0, e0); set_float(1, e1); set_int(2, c1); set_double(3, f1); set_long(4, d0); set_short(5, b1); set_byte(6, a0); set_byte(7, a1); ST[8].oval = g1; set_int(9, c0); set_short(10, b0); set_long(11, d1); set_double(12, f0); ST[13].oval = g0; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p35", 17)); ref_p35(e0, e1, c1, f1, d0, b1, a0, a1, g1, c0, b0, d1, f0, g0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 17; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 9; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p36(c_int c1, c_int c0, void* g1, c_float e0, c_short b1, c_short b0, c_long d1, c_byte a0, c_float e1, c_byte a1, c_double f0, void* g0, c_double f1, c_long d0, c_long* xlo, c_double* xdd, void** xoo) {
  c_float v0 = 0;
  b1 = b1;
  c_double v1 = 0;
  if (c0 > 3) {
  c_byte* r2 = &a0;
  c_int v3 = 0;
  if (v3 > 3) {
  {
  c_int v4 = (c_int)(v3 + c0);
  c_byte* r5 = &a0;
  }
  xdd[0] = e1;
  *r2 = a1;
  }
  else {
  c_double v0 = 0;
  v0 = v0;
  b0 = b0;
  c_float* r7 = &e1;
  b0 = b1;
  *r7 = e1;
  c_double v8 = v1;
  }
  }
  c_long v9 = d0;
  c_short v10 = b0;
  d1 = (c_long)(d1 - 1);
  e1 = e1;
  c_long v11 = (c_long)(v9 + v9);
  a1 = a1;
  c_short v12 = v10;
  c_byte v13 = a1;
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  c_float v14 = v0;
  e1 = e0;
  xlo[0] = (c_long)(v9 + d1);
  ;
  }
  ;
  c1 = (c_int)(c1 + c1);
  xlo[1] = v13;
  }
  c_long* r15 = &v11;
  c_double v13 = 0;
  }
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = v13;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = v10;
  xlo[8] = v12;
  xlo[9] = c1;
  xlo[10] = c0;
  xlo[11] = d1;
  xlo[12] = d0;
  xlo[13] = v9;
  xlo[14] = v11;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = v0;
  xdd[4] = f0;
  xdd[5] = f1;
  xdd[6] = v1;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p36) { c_int c1 = sym_int("c1"); c_int c0 = sym_int("c0"); void* g1 = spv_str(s, "g1", 2); c_float e0 = sym_float("e0"); c_short b1 = sym_short("b1"); c_short b0 = sym_short("b0"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); c_float e1 = sym_float("e1"); c_byte a1 = sym_byte("a1"); c_double f0 = sym_double("f0"); void* g0 = spv_str(s, "g0", 2); c_double f1 = sym_double("f1"); c_long d0 = sym_long("d0"); c_long xlo[15] = {0}; c_double xdd[7] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 15); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_int(0, c1); set_int(1, c0); ST[2].oval = g1; set_float(3, e0); set_short(4, b1); set_short(5, b0); set_long(6, d1); set_byte(7, a0); set_float(8, e1); set_byte(9, a1); set_double(10, f0); ST[11].oval = g0; set_double(12, f1); set_long(13, d0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p36", 17)); ref_p36(c1, c0, g1, e0, b1, b0, d1, a0, e1, a1, f0, g0, f1, d0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 15; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p37(c_short b1, c_double f1, c_int c0, c_float e1, c_long d0, c_int c1, c_short b0, c_float e0, c_byte a0, void* g1, void* g0, c_double f0, c_long d1, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  for (c_int i0 = 0; i0 < 2; i0++) {
  f0 = f1;
  c_long* r0 = &d0;
  }
  if (c0 > 3) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  if (c0 > 3) {
  c_short* r1 = &b1;
  d1 = d0;
  void* v2 = g0;
  {
  e0 = e0;
  ;
  }
  {
  ;
  ;
  a1 = a1;
  c_int* r3 = &c0;
  ;
  ;
  ;
  ;
  }
  {
  xlo[0] = b0;
  *r1 = *r1;
  c_long v4 = 0;
  c_double v2 = 0;
  a0 = a0;
  c_byte v6 = a0;
  c_float v7 = 0;
  }
  }
  else {
  c0 = (c_int)(c0 + c0);
  {
  c_float v8 = 0;
  ;
  e1 = e0;
  c_long v9 = d0;
  d0 = (c_long)(d1 + d0);
  }
  e0 = e0;
  {
  c_long v10 = d0;
  e0 = e0;
  ;
  void* v11 = g1;
  }
  b0 = b1;
  }
  a1 = a0;
  c_int v12 = c1;
  }
  c_long* r13 = &d1;
  {
  {
  {
  ;
  c_double v14 = f0;
  d1 = d1;
  *r13 = *r13;
  }
  {
  *r13 = (c_long)(d1 + d1);
  c_float* r15 = &e0;
  c1 = c1;
  ;
  ;
  }
  ;
  c_short v16 = b0;
  }
  d0 = d1;
  f0 = f1;
  void* v17 = g1;
  }
  c_long v18 = 0;
  }
  else {
  ;
  void* v19 = 0;
  void* v20 = g0;
  ;
  g1 = v19;
  c_byte v21 = 0;
  }
  xlo[1] = a0;
  xlo[2] = a1;
  xlo[3] = b1;
  xlo[4] = b0;
  xlo[5] = c0;
  xlo[6] = c1;
  xlo[7] = d0;
  xlo[8] = d1;
  xdd[0] = e1;
  xdd[1] = e0;
  xdd[2] = f1;
  xdd[3] = f0;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p37) { c_short b1 = sym_short("b1"); c_double f1 = sym_double("f1"); c_int c0 = sym_int("c0"); c_float e1 = sym_float("e1"); c_long d0 = sym_long("d0"); c_int c1 = sym_int("c1"); c_short b0 = sym_short("b0"); c_float e0 = sym_float("e0"); c_byte a0 = sym_byte("a0"); void* g1 = spv_str(s, "g1", 2); void* g0 = spv_str(s, "g0", 2); c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_byte a1 = sym_byte("a1"); c_long xlo[9] = {0}; c_double xdd[4] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 9); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_short(0, b1); set_double(1, f1); set_int(2, c0); set_float(3, e1); set_long(4, d0); set_int(5, c1); set_short(6, b0); set_float(7, e0); set_byte(8, a0); ST[9].oval = g1; ST[10].oval = g0; set_double(11, f0); set_long(12, d1); set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p37", 17)); ref_p37(b1, f1, c0, e1, d0, c1, b0, e0, a0, g1, g0, f0, d1, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 9; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p38(c_double f1, c_double f0, c_long d0, c_float e1, c_float e0, c_short b1, c_byte a0, c_long d1, c_int c1, void* g0, c_short b0, c_int c0, void* g1, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  c0 = c1;
  f0 = f0;
  {
  c_long v0 = d0;
  {
  c_int v1 = 0;
  {
  f1 = f0;
  c_byte* r2 = &a0;
  *r2 = a1;
  *r2 = a0;
  ;
  }
  }
  }
  c_double v3 = f1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_int v4 = (c_int)(c0 + c1);
  c0 = (c_int)(c0 - 1);
  if (c0 > 3) {
  {
  {
  ;
  g1 = g1;
  c_int v5 = 0;
  ;
  }
  xlo[0] = a0;
  c_int v6 = c0;
  void* v4 = 0;
  c1 = (c_int)(c0 + v6);
  }
  c_short v8 = b1;
  {
  {
  ;
  a0 = a1;
  }
  c_byte v9 = 0;
  ;
  }
  {
  c_int* r10 = &c0;
  c_byte v11 = 0;
  c_byte v12 = a1;
  c_int v13 = *r10;
  }
  }
  c_float v3 = e0;
  c_int v15 = c1;
  if (c0 > 3) {
  c_int v3 = (c_int)(v15 + v4);
  c1 = (c_int)(v3 + v4);
  {
  v15 = c1;
  {
  c_float* r17 = &e1;
  ;
  c_long v18 = d1;
  ;
  ;
  }
  c_int v19 = 0;
  e1 = e1;
  {
  f0 = f1;
  c_long v20 = d1;
  }
  xdd[0] = e1;
  }
  c_double* r21 = &f0;
  {
  {
  b0 = b1;
  *r21 = *r21;
  ;
  ;
  ;
  }
  f1 = f0;
  {
  c_float v15 = e0;
  ;
  v4 = c0;
  b1 = b0;
  b1 = b0;
  c_byte* r23 = &a1;
  c_short v24 = b1;
  ;
  }
  {
  ;
  *r21 = f0;
  c_int v3 = c0;
  c_byte v26 = a0;
  c_long v27 = d0;
  }
  ;
  }
  }
  else {
  c_double v28 = f0;
  {
  xlo[1] = d1;
  xlo[2] = b0;
  {
  ;
  c_short v3 = 0;
  c_double v15 = 0;
  }
  {
  f0 = f1;
  v15 = c1;
  c_short* r31 = &b0;
  v28 = f0;
  c_double v32 = f0;
  a0 = a0;
  ;
  }
  c_short v33 = b0;
  }
  c_short* r34 = &b1;
  {
  {
  xlo[3] = a1;
  c_double v35 = 0;
  c_byte v36 = a1;
  void* v37 = g0;
  }
  void* v15 = 0;
  *r34 = b0;
  ;
  ;
  c_long* r39 = &d0;
  }
  a1 = a1;
  c0 = c1;
  ;
  }
  }
  xlo[4] = a0;
  xlo[5] = a1;
  xlo[6] = b1;
  xlo[7] = b0;
  xlo[8] = c1;
  xlo[9] = c0;
  xlo[10] = d0;
  xlo[11] = d1;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f1;
  xdd[4] = f0;
  xdd[5] = v3;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p38) { c_double f1 = sym_double("f1"); c_double f0 = sym_double("f0"); c_long d0 = sym_long("d0"); c_float e1 = sym_float("e1"); c_float e0 = sym_float("e0"); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); c_long d1 = sym_long("d1"); c_int c1 = sym_int("c1"); void* g0 = spv_str(s, "g0", 2); c_short b0 = sym_short("b0"); c_int c0 = sym_int("c0"); void* g1 = spv_str(s, "g1", 2); c_byte a1 = sym_byte("a1"); c_long xlo[12] = {0}; c_double xdd[6] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_double(0, f1); set_double(1, f0); set_long(2, d0); set_float(3, e1); set_float(4, e0); set_short(5, b1); set_byte(6, a0); set_long(7, d1); set_int(8, c1); ST[9].oval = g0; set_short(10, b0); set_int(11, c0); ST[12].oval = g1; set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p38", 17)); ref_p38(f1, f0, d0, e1, e0, b1, a0, d1, c1, g0, b0, c0, g1, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p39(c_int c1, c_double f1, c_int c0, c_float e1, c_float e0, c_long d1, c_long d0, void* g0, c_byte a0, c_byte a1, c_short b1, c_short b0, void* g1, c_double f0, c_long* xlo, c_double* xdd, void** xoo) {
  c_byte v0 = a1;
  xdd[0] = f1;
  c_long* r1 = &d1;
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_byte* r2 = &v0;
  if (c1 > 3) {
  a0 = a0;
  if (c1 > 3) {
  ;
  ;
  c_byte v3 = 0;
  *r1 = (c_long)(d1 + d0);
  void* v4 = 0;
  }
  else {
  c_byte v5 = v0;
  g0 = g1;
  f1 = f1;
  *r1 = d0;
  b0 = b1;
  }
  c_double v6 = f1;
  xdd[1] = f1;
  {
  c0 = c1;
  ;
  c_long v7 = 0;
  f1 = v6;
  ;
  }
  {
  ;
  v6 = v6;
  c0 = c0;
  xdd[2] = f1;
  xlo[0] = b1;
  ;
  }
  }
  else {
  xlo[1] = a1;
  c_float* r8 = &e1;
  c1 = c0;
  c_byte v9 = 0;
  }
  c_short v10 = 0;
  }
  c1 = c1;
  }
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = v0;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = c1;
  xlo[8] = c0;
  xlo[9] = d1;
  xlo[10] = d0;
  xdd[3] = e1;
  xdd[4] = e0;
  xdd[5] = f1;
  xdd[6] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p39) { c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_int c0 = sym_int("c0"); c_float e1 = sym_float("e1"); c_float e0 = sym_float("e0"); c_long d1 = sym_long("d1"); c_long d0 = sym_long("d0"); void* g0 = spv_str(s, "g0", 2); c_byte a0 = sym_byte("a0"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_short b0 = sym_short("b0"); void* g1 = spv_str(s, "g1", 2); c_double f0 = sym_double("f0"); c_long xlo[11] = {0}; c_double xdd[7] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_int(0, c1); set_double(1, f1); set_int(2, c0); set_float(3, e1); set_float(4, e0); set_long(5, d1); set_long(6, d0); ST[7].oval = g0; set_byte(8, a0); set_byte(9, a1); set_short(10, b1); set_short(11, b0); ST[12].oval = g1; set_double(13, f0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p39", 17)); ref_p39(c1, f1, c0, e1, e0, d1, d0, g0, a0, a1, b1, b0, g1, f0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p40(c_double f0, c_long d1, c_byte a1, c_double f1, c_float e0, void* g0, c_long d0, c_byte a0, void* g1, c_int c1, c_short b1, c_float e1, c_short b0, c_int c0, c_long* xlo, c_double* xdd, void** xoo) {
  f1 = f0;
  c1 = c0;
  d0 = d1;
  c_float v0 = e1;
  c0 = (c_int)(c0 + c0);
  c0 = (c_int)(c1 + c1);
  {
  c_short v1 = b0;
  xlo[0] = v1;
  c1 = c1;
  }
  {
  g1 = g1;
  xlo[1] = b0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  v0 = e1;
  d1 = d0;
  xlo[2] = (c_int)(c0 + c1);
  ;
  }
  c_float* r2 = &v0;
  c_int v3 = c1;
  *r2 = *r2;
  *r2 = v0;
  {
  c1 = (c_int)(v3 + v3);
  *r2 = e1;
  f1 = f0;
  c_int v4 = (c_int)(v3 + c0);
  f0 = f1;
  }
  }
  ;
  }
  v0 = e0;
  f0 = f0;
  a1 = a0;
  c_byte v5 = a0;
  c_byte* r6 = &v5;
  g0 = g0;
  c_int v7 = 0;
  c_byte v8 = v5;
  *r6 = a0;
  if (c1 > 3) {
  c_int v9 = 0;
  void* v10 = g1;
  {
  c_short v11 = 0;
  c_int v12 = c1;
  }
  {
  c_short* r13 = &b0;
  v5 = *r6;
  {
  f1 = f0;
  c_short v14 = 0;
  g1 = v10;
  c_long v15 = 0;
  v15 = v15;
  c_long* r16 = &v15;
  if (v9 > 3) {
  a0 = v5;
  }
  else {
  ;
  c_double v0 = f0;
  void* v18 = g0;
  c_float v19 = e1;
  c_short v20 = 0;
  }
  ;
  }
  }
  void* v21 = g0;
  ;
  }
  c_byte v22 = 0;
  xlo[3] = a1;
  xlo[4] = a0;
  xlo[5] = v5;
  xlo[6] = v8;
  xlo[7] = v22;
  xlo[8] = b1;
  xlo[9] = b0;
  xlo[10] = c1;
  xlo[11] = c0;
  xlo[12] = v7;
  xlo[13] = d1;
  xlo[14] = d0;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = v0;
  xdd[3] = f0;
  xdd[4] = f1;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p40) { c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_byte a1 = sym_byte("a1"); c_double f1 = sym_double("f1"); c_float e0 = sym_float("e0"); void* g0 = vp_choice(2, "g0") ? spv_str(s, "g0", 2) : 0; c_long d0 = sym_long("d0"); c_byte a0 = sym_byte("a0"); void* g1 = spv_str(s, "g1", 2); c_int c1 = sym_int("c1"); c_short b1 = sym_short("b1"); c_float e1 = sym_float("e1"); c_short b0 = sym_short("b0"); c_int c0 = sym_int("c0"); c_long xlo[15] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 15); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_double(0, f0); set_long(1, d1); set_byte(2, a1); set_double(3, f1); set_float(4, e0); ST[5].oval = g0; set_long(6, d0); set_byte(7, a0); ST[8].oval = g1; set_int(9, c1); set_short(10, b1); set_float(11, e1); set_short(12, b0); set_int(13, c0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p40", 17)); ref_p40(f0, d1, a1, f1, e0, g0, d0, a0, g1, c1, b1, e1, b0, c0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 15; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p41(c_double f0, c_int c0, void* g0, c_float e0, c_float e1, c_int c1, c_double f1, c_byte a1, c_short b1, c_byte a0, c_long d0, void* g1, c_short b0, c_long d1, c_long* xlo, c_double* xdd, void** xoo) {
  if (c1 > 3) {
  c_float v0 = 0;
  {
  {
  c_byte v1 = 0;
  e1 = e1;
  xlo[0] = v1;
  f0 = f1;
  c_short v2 = b0;
  xlo[1] = c1;
  c_int v3 = 0;
  }
  {
  {
  ;
  c_short v4 = 0;
  xlo[2] = d1;
  f0 = f0;
  void* v5 = g1;
  }
  g1 = g1;
  c_long v0 = 0;
  void* v7 = 0;
  {
  v7 = g1;
  ;
  ;
  c_int v8 = c1;
  c_long v9 = 0;
  e0 = e1;
  }
  }
  f0 = f0;
  }
  void* v10 = 0;
  }
  else {
  {
  {
  a1 = a0;
  {
  f1 = f1;
  c_short v11 = 0;
  c_int* r12 = &c1;
  c_int v13 = 0;
  xlo[3] = v11;
  }
  if (c0 > 3) {
  d0 = (c_long)(d0 - 1);
  c_double v14 = 0;
  }
  else {
  c1 = (c_int)(c1 - 1);
  c_long v15 = d1;
  c_long v16 = (c_long)(d1 + v15);
  ;
  }
  {
  xlo[4] = b1;
  c0 = c1;
  c_int v17 = c0;
  b1 = b0;
  }
  c_byte v18 = 0;
  ;
  }
  {
  c_byte* r19 = &a1;
  c_int v20 = c0;
  *r19 = *r19;
  b0 = b1;
  g0 = g1;
  c_int* r21 = &c0;
  }
  a0 = a0;
  }
  {
  c_long v22 = d1;
  ;
  }
  }
  c_byte v23 = a0;
  c_long v24 = (c_long)(d1 + d1);
  c_long v25 = v24;
  c0 = (c_int)(c0 - 1);
  d0 = (c_long)(d0 + 1);
  c_byte v26 = a0;
  c_long* r27 = &d1;
  xlo[5] = b1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  a1 = v26;
  *r27 = d1;
  c_float v28 = e1;
  {
  c_long v26 = (c_long)(v24 + d0);
  {
  {
  xdd[0] = e1;
  ;
  ;
  ;
  v26 = d0;
  }
  {
  c0 = c1;
  ;
  }
  ;
  }
  xlo[6] = b0;
  g0 = g1;
  ;
  }
  b0 = b0;
  }
  c_double v30 = f0;
  c_long v31 = *r27;
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_float v32 = e1;
  c_short v33 = 0;
  {
  xoo[0] = g0;
  v25 = (c_long)(v25 - 1);
  ;
  }
  ;
  }
  ;
  c_long v31 = 0;
  f0 = f0;
  c_float v35 = 0;
  }
  xlo[7] = a1;
  xlo[8] = a0;
  xlo[9] = v23;
  xlo[10] = v26;
  xlo[11] = b1;
  xlo[12] = b0;
  xlo[13] = c0;
  xlo[14] = c1;
  xlo[15] = d0;
  xlo[16] = d1;
  xlo[17] = v24;
  xlo[18] = v25;
  xlo[19] = v31;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = f0;
  xdd[4] = f1;
  xdd[5] = v30;
  xoo[1] = g0;
  xoo[2] = g1;
}
JOB2(p41) { c_double f0 = sym_double("f0"); c_int c0 = sym_int("c0"); void* g0 = spv_str(s, "g0", 2); c_float e0 = sym_float("e0"); c_float e1 = sym_float("e1"); c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); c_long d0 = sym_long("d0"); void* g1 = spv_str(s, "g1", 2); c_short b0 = sym_short("b0"); c_long d1 = sym_long("d1"); c_long xlo[20] = {0}; c_double xdd[6] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 20); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_double(0, f0); set_int(1, c0); ST[2].oval = g0; set_float(3, e0); set_float(4, e1); set_int(5, c1); set_double(6, f1); set_byte(7, a1); set_short(8, b1); set_byte(9, a0); set_long(10, d0); ST[11].oval = g1; set_short(12, b0); set_long(13, d1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p41", 17)); ref_p41(f0, c0, g0, e0, e1, c1, f1, a1, b1, a0, d0, g1, b0, d1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 20; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p42(c_float e1, c_double f0, c_float e0, c_long d0, c_byte a1, void* g0, void* g1, c_long d1, c_int c0, c_double f1, c_byte a0, c_int c1, c_short b0, c_short b1, c_long* xlo, c_double* xdd, void** xoo) {
  c_short* r0 = &b1;
  *r0 = b1;
  xdd[0] = e1;
  c_byte v1 = 0;
  c_float* r2 = &e0;
  b1 = b1;
  if (c0 > 3) {
  xdd[1] = e1;
  {
  b0 = b0;
  c1 = c0;
  }
  if (c1 > 3) {
  xlo[0] = v1;
  {
  c_int v3 = c1;
  b0 = b1;
  c_short* r4 = &b1;
  c_short v5 = *r0;
  *r2 = e1;
  d0 = d0;
  c_float v6 = 0;
  }
  c_long* r7 = &d1;
  }
  else {
  c_int v1 = 0;
  c_double v9 = f1;
  xdd[2] = v9;
  {
  d1 = d0;
  e0 = e1;
  {
  xdd[3] = v9;
  a0 = a0;
  *r2 = e0;
  d0 = (c_long)(d1 + d0);
  ;
  }
  {
  ;
  xdd[4] = e1;
  ;
  void* v1 = g1;
  ;
  ;
  }
  ;
  c_long v11 = d0;
  }
  }
  c_long v12 = 0;
  ;
  d1 = v12;
  }
  xlo[1] = a1;
  xlo[2] = a0;
  xlo[3] = v1;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c0;
  xlo[7] = c1;
  xlo[8] = d0;
  xlo[9] = d1;
  xdd[5] = e1;
  xdd[6] = e0;
  xdd[7] = f0;
  xdd[8] = f1;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p42) { c_float e1 = sym_float("e1"); c_double f0 = sym_double("f0"); c_float e0 = sym_float("e0"); c_long d0 = sym_long("d0"); c_byte a1 = sym_byte("a1"); void* g0 = spv_str(s, "g0", 2); void* g1 = spv_str(s, "g1", 2); c_long d1 = sym_long("d1"); c_int c0 = sym_int("c0"); c_double f1 = sym_double("f1"); c_byte a0 = sym_byte("a0"); c_int c1 = sym_int("c1"); c_short b0 = sym_short("b0"); c_short b1 = sym_short("b1"); c_long xlo[10] = {0}; c_double xdd[9] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 10); void* dd = ENV->new_double_array(ENV, ST, 9); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_float(0, e1); set_double(1, f0); set_float(2, e0); set_long(3, d0); set_byte(4, a1); ST[5].oval = g0; ST[6].oval = g1; set_long(7, d1); set_int(8, c0); set_double(9, f1); set_byte(10, a0); set_int(11, c1); set_short(12, b0); set_short(13, b1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p42", 17)); ref_p42(e1, f0, e0, d0, a1, g0, g1, d1, c0, f1, a0, c1, b0, b1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 10; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 9; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p43(c_float e0, c_double f0, c_int c0, c_byte a1, c_long d0, c_double f1, c_short b0, c_byte a0, void* g1, c_short b1, c_long d1, void* g0, c_int c1, c_float e1, c_long* xlo, c_double* xdd, void** xoo) {
  c1 = c1;
  c0 = (c_int)(c0 - 1);
  {
  if (c1 > 3) {
  f1 = f0;
  c_double v0 = f1;
  }
  else {
  {
  c_int* r1 = &c0;
  void* v2 = g1;
  xlo[0] = a0;
  {
  c_float* r3 = &e1;
  xdd[0] = f1;
  c_long* r4 = &d1;
  g0 = v2;
  a0 = a0;
  ;
  }
  }
  a0 = a0;
  c_double v5 = f1;
  e1 = e0;
  c_float v6 = e0;
  g0 = g0;
  }
  c_byte* r7 = &a0;
  c1 = c0;
  b1 = b1;
  void* v8 = 0;
  e1 = e0;
  }
  {
  a0 = a1;
  xlo[1] = (c_int)(c0 + c0);
  c_short v9 = b0;
  f1 = f1;
  ;
  }
  c_long v10 = d1;
  g1 = g0;
  c1 = (c_int)(c1 + 1);
  {
  c_int v11 = c1;
  c_short v12 = 0;
  }
  a0 = a0;
  void* v13 = g0;
  c_byte v14 = 0;
  {
  d1 = (c_long)(d0 + d1);
  {
  {
  c_int* r15 = &c1;
  void* v16 = 0;
  }
  {
  v13 = g0;
  c_int v17 = 0;
  ;
  }
  }
  {
  {
  d0 = v10;
  if (c0 > 3) {
  ;
  c0 = c1;
  }
  else {
  c_short v18 = 0;
  }
  }
  c_short v19 = b1;
  void* v20 = 0;
  d0 = d0;
  a0 = a0;
  }
  ;
  c_double v10 = 0;
  }
  ;
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = v14;
  xlo[5] = b0;
  xlo[6] = b1;
  xlo[7] = c0;
  xlo[8] = c1;
  xlo[9] = d0;
  xlo[10] = d1;
  xlo[11] = v10;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = f0;
  xdd[4] = f1;
  xoo[0] = g1;
  xoo[1] = g0;
  xoo[2] = v13;
}
JOB2(p43) { c_float e0 = sym_float("e0"); c_double f0 = sym_double("f0"); c_int c0 = sym_int("c0"); c_byte a1 = sym_byte("a1"); c_long d0 = sym_long("d0"); c_double f1 = sym_double("f1"); c_short b0 = sym_short("b0"); c_byte a0 = sym_byte("a0"); void* g1 = spv_str(s, "g1", 2); c_short b1 = sym_short("b1"); c_long d1 = sym_long("d1"); void* g0 = spv_str(s, "g0", 2); c_int c1 = sym_int("c1"); c_float e1 = sym_float("e1"); c_long xlo[12] = {0}; c_double xdd[5] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_float(0, e0); set_double(1, f0); set_int(2, c0); set_byte(3, a1); set_long(4, d0); set_double(5, f1); set_short(6, b0); set_byte(7, a0); ST[8].oval = g1; set_short(9, b1); set_long(10, d1); ST[11].oval = g0; set_int(12, c1); set_float(13, e1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p43", 17)); ref_p43(e0, f0, c0, a1, d0, f1, b0, a0, g1, b1, d1, g0, c1, e1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p44(c_short b0, c_float e0, c_float e1, c_int c0, c_long d0, c_byte a1, c_double f1, void* g1, c_byte a0, c_double f0, c_long d1, c_int c1, c_short b1, void* g0, c_long* xlo, c_double* xdd, void** xoo) {
  c_int v0 = c1;
  c_double* r1 = &f0;
  {
  c_short v2 = b1;
  c_short v3 = 0;
  *r1 = f1;
  }
  e0 = e1;
  c_int v4 = (c_int)(v0 + c0);
  {
  *r1 = f1;
  if (c0 > 3) {
  {
  {
  c_int v0 = c1;
  ;
  c_short v6 = 0;
  }
  if (c0 > 3) {
  c_byte v7 = a0;
  ;
  *r1 = *r1;
  a0 = v7;
  }
  *r1 = f0;
  e1 = e1;
  d1 = (c_long)(d0 + d1);
  c_double* r8 = &f1;
  ;
  }
  c_long v0 = (c_long)(d1 + d0);
  c_double v10 = *r1;
  c_short* r11 = &b0;
  c_long v12 = 0;
  *r1 = v10;
  }
  else {
  {
  {
  void* v0 = g1;
  v0 = v0;
  e1 = e0;
  }
  void* v14 = g0;
  }
  {
  c_byte v15 = a0;
  void* v16 = 0;
  {
  c_short v17 = b1;
  ;
  }
  c_float v18 = e0;
  *r1 = f1;
  g0 = g0;
  void* v19 = g1;
  }
  *r1 = *r1;
  *r1 = f1;
  }
  g0 = g0;
  c_short v0 = b1;
  }
  xdd[0] = f0;
  e0 = e0;
  {
  c_byte v21 = 0;
  void* v22 = g0;
  c_short v4 = b1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  e1 = e0;
  d0 = (c_long)(d0 - 1);
  c_byte v24 = 0;
  c_long v25 = 0;
  c_short v26 = b1;
  c_float v27 = e1;
  c_short v28 = v26;
  }
  }
  {
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  c_double v29 = 0;
  c_int* r30 = &c1;
  g0 = g1;
  {
  xlo[0] = d1;
  c_byte v0 = 0;
  b1 = b0;
  c_byte v32 = 0;
  v29 = f1;
  ;
  }
  }
  {
  void* v33 = 0;
  {
  ;
  ;
  v33 = g0;
  }
  v4 = (c_int)(v4 + v0);
  void* v34 = 0;
  f0 = f1;
  {
  xlo[1] = (c_int)(v0 + c1);
  void* v35 = v33;
  c_byte v36 = 0;
  c_double v37 = f1;
  *r1 = f1;
  }
  c_float v38 = 0;
  ;
  }
  {
  a1 = a0;
  c_double* r39 = &f1;
  {
  void* v40 = g1;
  ;
  a1 = a1;
  void* v4 = g0;
  c_int* r42 = &v0;
  b1 = b1;
  v40 = v4;
  }
  ;
  }
  }
  c_byte* r43 = &a0;
  }
  ;
  c0 = c1;
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c0;
  xlo[7] = c1;
  xlo[8] = v0;
  xlo[9] = v4;
  xlo[10] = d0;
  xlo[11] = d1;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = f1;
  xdd[4] = f0;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p44) { c_short b0 = sym_short("b0"); c_float e0 = sym_float("e0"); c_float e1 = sym_float("e1"); c_int c0 = sym_int("c0"); c_long d0 = sym_long("d0"); c_byte a1 = sym_byte("a1"); c_double f1 = sym_double("f1"); void* g1 = spv_str(s, "g1", 2); c_byte a0 = sym_byte("a0"); c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_int c1 = sym_int("c1"); c_short b1 = sym_short("b1"); void* g0 = spv_str(s, "g0", 2); c_long xlo[12] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_short(0, b0); set_float(1, e0); set_float(2, e1); set_int(3, c0); set_long(4, d0); set_byte(5, a1); set_double(6, f1); ST[7].oval = g1; set_byte(8, a0); set_double(9, f0); set_long(10, d1); set_int(11, c1); set_short(12, b1); ST[13].oval = g0; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p44", 17)); ref_p44(b0, e0, e1, c0, d0, a1, f1, g1, a0, f0, d1, c1, b1, g0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p45(c_int c1, c_short b0, c_int c0, c_byte a1, c_short b1, void* g0, c_float e1, c_float e0, c_long d1, c_long d0, void* g1, c_double f1, c_byte a0, c_double f0, c_long* xlo, c_double* xdd, void** xoo) {
  if (c1 > 3) {
  xdd[0] = e1;
  c1 = c1;
  {
  {
  g0 = g0;
  c_long v0 = (c_long)(d0 + d1);
  c_double* r1 = &f1;
  {
  ;
  ;
  ;
  ;
  c_float v2 = 0;
  ;
  }
  {
  ;
  c_byte v3 = a0;
  ;
  }
  f0 = *r1;
  }
  {
  if (c1 > 3) {
  c_int v4 = c1;
  g0 = g0;
  ;
  c_float v5 = e0;
  c_int v6 = 0;
  }
  else {
  c_int v7 = 0;
  f1 = f0;
  e1 = e1;
  b0 = b1;
  c_double v8 = f1;
  }
  g1 = g1;
  ;
  }
  c_double v9 = 0;
  c_byte v10 = 0;
  c_byte v11 = v10;
  c_float v12 = e0;
  }
  ;
  c_float v13 = e1;
  ;
  }
  else {
  ;
  }
  xlo[0] = a1;
  xlo[1] = a0;
  xlo[2] = b0;
  xlo[3] = b1;
  xlo[4] = c1;
  xlo[5] = c0;
  xlo[6] = d1;
  xlo[7] = d0;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f1;
  xdd[4] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p45) { c_int c1 = sym_int("c1"); c_short b0 = sym_short("b0"); c_int c0 = sym_int("c0"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); void* g0 = spv_str(s, "g0", 2); c_float e1 = sym_float("e1"); c_float e0 = sym_float("e0"); c_long d1 = sym_long("d1"); c_long d0 = sym_long("d0"); void* g1 = spv_str(s, "g1", 2); c_double f1 = sym_double("f1"); c_byte a0 = sym_byte("a0"); c_double f0 = sym_double("f0"); c_long xlo[8] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 8); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_int(0, c1); set_short(1, b0); set_int(2, c0); set_byte(3, a1); set_short(4, b1); ST[5].oval = g0; set_float(6, e1); set_float(7, e0); set_long(8, d1); set_long(9, d0); ST[10].oval = g1; set_double(11, f1); set_byte(12, a0); set_double(13, f0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p45", 17)); ref_p45(c1, b0, c0, a1, b1, g0, e1, e0, d1, d0, g1, f1, a0, f0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 8; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p46(c_double f1, c_short b0, c_int c0, c_float e0, c_long d0, c_byte a0, c_double f0, c_short b1, void* g0, c_int c1, c_byte a1, void* g1, c_float e1, c_long d1, c_long* xlo, c_double* xdd, void** xoo) {
  c_long v0 = d1;
  c_short v1 = b0;
  c_int v2 = 0;
  void* v3 = g0;
  e0 = e1;
  if (c1 > 3) {
  v2 = v2;
  c_double v1 = f0;
  }
  else {
  f1 = f1;
  c_float v5 = e1;
  {
  if (v2 > 3) {
  void* v6 = 0;
  g0 = g0;
  c_double v7 = 0;
  c_long v3 = d0;
  c_long v1 = 0;
  }
  else {
  {
  c_byte v2 = 0;
  ;
  }
  b1 = b0;
  v3 = g1;
  a0 = a0;
  {
  ;
  c_int v5 = 0;
  }
  {
  c_short* r12 = &b0;
  ;
  }
  }
  c_long* r13 = &d0;
  }
  xlo[0] = a0;
  c_int v14 = c1;
  e1 = e1;
  }
  v1 = b0;
  c0 = v2;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_int* r15 = &v2;
  {
  c1 = *r15;
  c_float v16 = 0;
  {
  {
  ;
  ;
  c_short v17 = 0;
  xlo[1] = *r15;
  v17 = v17;
  c_double v18 = 0;
  ;
  }
  {
  c_byte v19 = 0;
  ;
  c_long v20 = (c_long)(d0 + d0);
  e0 = v16;
  a1 = a0;
  *r15 = c1;
  ;
  }
  }
  xlo[2] = v2;
  }
  c_int v21 = 0;
  }
  {
  c0 = (c_int)(c1 + v2);
  void* v22 = g0;
  }
  xlo[3] = a0;
  xlo[4] = a1;
  xlo[5] = b0;
  xlo[6] = b1;
  xlo[7] = v1;
  xlo[8] = c0;
  xlo[9] = c1;
  xlo[10] = v2;
  xlo[11] = d0;
  xlo[12] = d1;
  xlo[13] = v0;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = f1;
  xdd[3] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
  xoo[2] = v3;
}
JOB2(p46) { c_double f1 = sym_double("f1"); c_short b0 = sym_short("b0"); c_int c0 = sym_int("c0"); c_float e0 = sym_float("e0"); c_long d0 = sym_long("d0"); c_byte a0 = sym_byte("a0"); c_double f0 = sym_double("f0"); c_short b1 = sym_short("b1"); void* g0 = spv_str(s, "g0", 2); c_int c1 = sym_int("c1"); c_byte a1 = sym_byte("a1"); void* g1 = spv_str(s, "g1", 2); c_float e1 = sym_float("e1"); c_long d1 = sym_long("d1"); c_long xlo[14] = {0}; c_double xdd[4] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 14); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_double(0, f1); set_short(1, b0); set_int(2, c0); set_float(3, e0); set_long(4, d0); set_byte(5, a0); set_double(6, f0); set_short(7, b1); ST[8].oval = g0; set_int(9, c1); set_byte(10, a1); ST[11].oval = g1; set_float(12, e1); set_long(13, d1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p46", 17)); ref_p46(f1, b0, c0, e0, d0, a0, f0, b1, g0, c1, a1, g1, e1, d1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 14; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p47(c_short b1, c_int c1, c_byte a0, c_float e0, c_double f0, c_short b0, void* g1, c_float e1, c_double f1, c_long d1, void* g0, c_long d0, c_int c0, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  c_float v0 = e1;
  a1 = a0;
  f1 = f1;
  {
  c_short* r1 = &b0;
  c_float v2 = 0;
  *r1 = b0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  e1 = e1;
  c_byte v2 = a0;
  if (c1 > 3) {
  {
  c0 = (c_int)(c1 + c0);
  *r1 = b1;
  void* v4 = g1;
  }
  c0 = c1;
  c_double v5 = f0;
  b0 = b1;
  xdd[0] = e1;
  c_byte v6 = a1;
  *r1 = *r1;
  }
  b1 = b0;
  if (c1 > 3) {
  {
  c_int* r7 = &c1;
  ;
  f1 = f0;
  c_byte v0 = 0;
  ;
  ;
  }
  f1 = f1;
  }
  else {
  *r1 = b0;
  v0 = v0;
  }
  a0 = v2;
  c_byte v9 = a1;
  }
  *r1 = *r1;
  b1 = b1;
  ;
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  void* v10 = g0;
  {
  {
  a1 = a0;
  ;
  c_float* r11 = &e0;
  }
  c_float v12 = e0;
  ;
  }
  {
  c_double v13 = 0;
  a0 = a1;
  c_byte v14 = a1;
  {
  c_long v15 = 0;
  c_float v16 = 0;
  c_int v17 = c1;
  xdd[1] = v13;
  c1 = c1;
  ;
  }
  b0 = b0;
  xlo[0] = (c_int)(c0 + c1);
  }
  c_double v18 = 0;
  c_int v19 = 0;
  {
  {
  ;
  c_long v20 = d0;
  c_int v21 = v19;
  ;
  ;
  ;
  }
  a1 = a0;
  }
  ;
  }
  c_long* r22 = &d0;
  c_int v23 = (c_int)(c0 + c1);
  {
  {
  {
  a0 = a1;
  *r22 = d0;
  ;
  f1 = f1;
  a0 = a1;
  xlo[1] = b0;
  }
  {
  xoo[0] = g0;
  c_double v24 = 0;
  }
  ;
  }
  c_short v25 = b1;
  {
  {
  *r22 = d0;
  ;
  ;
  a0 = a1;
  ;
  d1 = (c_long)(d1 - 1);
  }
  c_short v26 = v25;
  ;
  }
  }
  c_double v27 = f0;
  xlo[2] = c1;
  c1 = c1;
  }
  c_long* r28 = &d1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  *r28 = d1;
  c_double v29 = f1;
  c_short v30 = b0;
  }
  b0 = b1;
  c_byte* r31 = &a1;
  ;
  b0 = b1;
  c_int v32 = (c_int)(c0 + c1);
  xoo[1] = g1;
  xlo[3] = a0;
  xlo[4] = a1;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = c1;
  xlo[8] = c0;
  xlo[9] = v32;
  xlo[10] = d1;
  xlo[11] = d0;
  xdd[2] = e0;
  xdd[3] = e1;
  xdd[4] = v0;
  xdd[5] = f0;
  xdd[6] = f1;
  xoo[2] = g1;
  xoo[3] = g0;
}
JOB2(p47) { c_short b1 = sym_short("b1"); c_int c1 = sym_int("c1"); c_byte a0 = sym_byte("a0"); c_float e0 = sym_float("e0"); c_double f0 = sym_double("f0"); c_short b0 = sym_short("b0"); void* g1 = spv_str(s, "g1", 2); c_float e1 = sym_float("e1"); c_double f1 = sym_double("f1"); c_long d1 = sym_long("d1"); void* g0 = spv_str(s, "g0", 2); c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_byte a1 = sym_byte("a1"); c_long xlo[12] = {0}; c_double xdd[7] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_short(0, b1); set_int(1, c1); set_byte(2, a0); set_float(3, e0); set_double(4, f0); set_short(5, b0); ST[6].oval = g1; set_float(7, e1); set_double(8, f1); set_long(9, d1); ST[10].oval = g0; set_long(11, d0); set_int(12, c0); set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p47", 17)); ref_p47(b1, c1, a0, e0, f0, b0, g1, e1, f1, d1, g0, d0, c0, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p48(c_double f1, c_long d1, c_long d0, c_int c1, c_float e1, c_double f0, c_float e0, void* g0, c_byte a1, c_byte a0, c_short b1, c_short b0, void* g1, c_int c0, c_long* xlo, c_double* xdd, void** xoo) {
  c_byte v0 = a1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  {
  c1 = c0;
  }
  c_double v1 = f1;
  }
  c_long v2 = d1;
  xoo[0] = g1;
  }
  c_long v3 = d0;
  {
  c_byte v4 = v0;
  {
  g0 = g1;
  c_long v5 = 0;
  xlo[0] = c1;
  {
  v5 = (c_long)(d1 + d1);
  c_short* r6 = &b1;
  *r6 = *r6;
  {
  ;
  void* v7 = 0;
  c_short v8 = 0;
  void* v5 = v7;
  ;
  }
  ;
  }
  }
  c_byte v10 = 0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  g0 = g1;
  xdd[0] = e0;
  d1 = d1;
  c_short* r11 = &b1;
  e0 = e0;
  xdd[1] = f1;
  }
  ;
  }
  ;
  c_byte v12 = 0;
  xlo[1] = a1;
  xlo[2] = a0;
  xlo[3] = v0;
  xlo[4] = v12;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = c1;
  xlo[8] = c0;
  xlo[9] = d1;
  xlo[10] = d0;
  xlo[11] = v3;
  xdd[2] = e1;
  xdd[3] = e0;
  xdd[4] = f1;
  xdd[5] = f0;
  xoo[1] = g0;
  xoo[2] = g1;
}
JOB2(p48) { c_double f1 = sym_double("f1"); c_long d1 = sym_long("d1"); c_long d0 = sym_long("d0"); c_int c1 = sym_int("c1"); c_float e1 = sym_float("e1"); c_double f0 = sym_double("f0"); c_float e0 = sym_float("e0"); void* g0 = vp_choice(2, "g0") ? spv_str(s, "g0", 2) : 0; c_byte a1 = sym_byte("a1"); c_byte a0 = sym_byte("a0"); c_short b1 = sym_short("b1"); c_short b0 = sym_short("b0"); void* g1 = spv_str(s, "g1", 2); c_int c0 = sym_int("c0"); c_long xlo[12] = {0}; c_double xdd[6] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_double(0, f1); set_long(1, d1); set_long(2, d0); set_int(3, c1); set_float(4, e1); set_double(5, f0); set_float(6, e0); ST[7].oval = g0; set_byte(8, a1); set_byte(9, a0); set_short(10, b1); set_short(11, b0); ST[12].oval = g1; set_int(13, c0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p48", 17)); ref_p48(f1, d1, d0, c1, e1, f0, e0, g0, a1, a0, b1, b0, g1, c0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p49(c_float e0, c_int c1, c_double f1, c_byte a1, c_long d0, c_int c0, c_short b0, void* g0, c_short b1, c_byte a0, c_long d1, c_float e1, void* g1, c_double f0, c_long* xlo, c_double* xdd, void** xoo) {
  c_int v0 = 0;
  {
  {
  f1 = f1;
  b0 = b1;
  c0 = v0;
  {
  c_byte v0 = a0;
  c_float v2 = 0;
  c_byte v3 = 0;
  {
  e1 = e0;
  c_long v4 = 0;
  a0 = a0;
  }
  c_float v5 = 0;
  v3 = v0;
  ;
  }
  xlo[0] = d1;
  {
  if (c0 > 3) {
  ;
  e0 = e1;
  f1 = f0;
  }
  else {
  b1 = b0;
  d1 = d0;
  }
  c_byte* r6 = &a0;
  v0 = (c_int)(c0 + v0);
  c_short v7 = 0;
  *r6 = a0;
  g0 = g0;
  }
  ;
  }
  c_short v8 = b1;
  c_float v9 = e0;
  d0 = d0;
  {
  c_byte v10 = 0;
  xdd[0] = v9;
  void* v11 = g1;
  {
  c1 = v0;
  b0 = b1;
  c_long v12 = 0;
  {
  c_double v13 = f0;
  xlo[1] = d0;
  v11 = g1;
  ;
  c_short* r14 = &b1;
  }
  {
  ;
  v8 = v8;
  xdd[1] = f1;
  ;
  c_long v15 = (c_long)(d1 + v12);
  c_short v16 = 0;
  ;
  }
  c_short v17 = b0;
  }
  {
  v11 = g1;
  void* v18 = g0;
  ;
  }
  ;
  }
  c_double v19 = f1;
  ;
  }
  g0 = g0;
  g0 = g0;
  ;
  v0 = c1;
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c1;
  xlo[7] = c0;
  xlo[8] = v0;
  xlo[9] = d0;
  xlo[10] = d1;
  xdd[2] = e0;
  xdd[3] = e1;
  xdd[4] = f1;
  xdd[5] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p49) { c_float e0 = sym_float("e0"); c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_byte a1 = sym_byte("a1"); c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_short b0 = sym_short("b0"); void* g0 = spv_str(s, "g0", 2); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); c_long d1 = sym_long("d1"); c_float e1 = sym_float("e1"); void* g1 = spv_str(s, "g1", 2); c_double f0 = sym_double("f0"); c_long xlo[11] = {0}; c_double xdd[6] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_float(0, e0); set_int(1, c1); set_double(2, f1); set_byte(3, a1); set_long(4, d0); set_int(5, c0); set_short(6, b0); ST[7].oval = g0; set_short(8, b1); set_byte(9, a0); set_long(10, d1); set_float(11, e1); ST[12].oval = g1; set_double(13, f0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p49", 17)); ref_p49(e0, c1, f1, a1, d0, c0, b0, g0, b1, a0, d1, e1, g1, f0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p50(c_int c0, c_short b0, c_double f1, void* g0, c_double f0, c_short b1, c_float e0, c_byte a0, c_byte a1, void* g1, c_long d1, c_long d0, c_float e1, c_int c1, c_long* xlo, c_double* xdd, void** xoo) {
  a0 = a1;
  d0 = (c_long)(d0 - 1);
  {
  void* v0 = g1;
  e1 = e0;
  f0 = f0;
  }
  g1 = g1;
  c_long v1 = d1;
  b0 = b0;
  c_short v2 = 0;
  e1 = e0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  a0 = a0;
  {
  c_double v3 = 0;
  if (c0 > 3) {
  e0 = e0;
  {
  v2 = b1;
  xlo[0] = d1;
  }
  c1 = (c_int)(c1 + c0);
  {
  v1 = (c_long)(d0 + d1);
  ;
  ;
  xlo[1] = v2;
  c_float v4 = e1;
  c_double v5 = 0;
  }
  d1 = (c_long)(d1 - 1);
  if (c0 > 3) {
  c_short v6 = b0;
  c_byte v7 = 0;
  ;
  c_double* r8 = &f1;
  }
  else {
  ;
  xlo[2] = a0;
  }
  }
  {
  c_double v9 = 0;
  c_byte v2 = a0;
  f0 = f0;
  c_short* r11 = &b1;
  }
  c_double v1 = f1;
  {
  c_byte* r13 = &a1;
  c_double v14 = 0;
  ;
  }
  }
  c_int v15 = 0;
  {
  v1 = (c_long)(v1 + 1);
  xlo[3] = a0;
  g0 = g1;
  {
  {
  c_byte v16 = a0;
  v15 = (c_int)(c0 + v15);
  c_int* r17 = &v15;
  c_long* r18 = &d0;
  ;
  ;
  c_float* r19 = &e1;
  ;
  }
  g1 = g0;
  void* v20 = g1;
  c_double v21 = f0;
  {
  ;
  ;
  }
  {
  g0 = g0;
  ;
  c_long v22 = v1;
  void* v23 = 0;
  c_int v24 = (c_int)(c0 + v15);
  xdd[0] = e1;
  }
  ;
  }
  c1 = (c_int)(c1 + 1);
  c_float v25 = e1;
  }
  c_short* r26 = &v2;
  }
  f1 = f0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_int v2 = (c_int)(c0 + c1);
  void* v28 = 0;
  {
  {
  c_float v28 = e0;
  v1 = v1;
  b0 = b1;
  }
  e1 = e1;
  c_short v30 = 0;
  g0 = v28;
  {
  ;
  c_long v31 = 0;
  ;
  b1 = b1;
  a1 = a0;
  ;
  ;
  }
  ;
  c_long v32 = 0;
  }
  ;
  c_int v33 = c0;
  ;
  void* v34 = g0;
  }
  c_short v35 = b0;
  c_double v36 = f1;
  ;
  ;
  e1 = e0;
  ;
  }
  xlo[4] = a0;
  xlo[5] = a1;
  xlo[6] = b0;
  xlo[7] = b1;
  xlo[8] = v2;
  xlo[9] = c0;
  xlo[10] = c1;
  xlo[11] = d1;
  xlo[12] = d0;
  xlo[13] = v1;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = f1;
  xdd[4] = f0;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p50) { c_int c0 = sym_int("c0"); c_short b0 = sym_short("b0"); c_double f1 = sym_double("f1"); void* g0 = spv_str(s, "g0", 2); c_double f0 = sym_double("f0"); c_short b1 = sym_short("b1"); c_float e0 = sym_float("e0"); c_byte a0 = sym_byte("a0"); c_byte a1 = sym_byte("a1"); void* g1 = spv_str(s, "g1", 2); c_long d1 = sym_long("d1"); c_long d0 = sym_long("d0"); c_float e1 = sym_float("e1"); c_int c1 = sym_int("c1"); c_long xlo[14] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 14); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_int(0, c0); set_short(1, b0); set_double(2, f1); ST[3].oval = g0; set_double(4, f0); set_short(5, b1); set_float(6, e0); set_byte(7, a0); set_byte(8, a1); ST[9].oval = g1; set_long(10, d1); set_long(11, d0); set_float(12, e1); set_int(13, c1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p50", 17)); ref_p50(c0, b0, f1, g0, f0, b1, e0, a0, a1, g1, d1, d0, e1, c1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 14; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p51(c_int c1, c_double f1, c_float e0, c_float e1, void* g1, c_short b1, c_long d0, void* g0, c_short b0, c_long d1, c_int c0, c_byte a1, c_double f0, c_byte a0, c_long* xlo, c_double* xdd, void** xoo) {
  void* v0 = 0;
  d0 = d1;
  if (c0 > 3) {
  c_short v1 = b1;
  c_short v2 = v1;
  {
  {
  if (c1 > 3) {
  a0 = a1;
  ;
  }
  void* v3 = v0;
  {
  c_double v4 = f1;
  ;
  ;
  ;
  }
  c_double* r5 = &f1;
  a1 = a1;
  }
  c_float v6 = e0;
  a0 = a0;
  c_float v7 = 0;
  ;
  }
  c0 = (c_int)(c0 - 1);
  c_short v0 = b0;
  c1 = c0;
  }
  else {
  c_float v9 = e0;
  a1 = a1;
  }
  c_double v10 = 0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_float v11 = e1;
  xlo[0] = b1;
  a0 = a1;
  f0 = f0;
  f1 = v10;
  }
  c_byte* r12 = &a0;
  c_int v13 = c0;
  xlo[1] = *r12;
  void* v14 = 0;
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = b1;
  xlo[5] = b0;
  xlo[6] = c1;
  xlo[7] = c0;
  xlo[8] = v13;
  xlo[9] = d0;
  xlo[10] = d1;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = f1;
  xdd[3] = f0;
  xdd[4] = v10;
  xoo[0] = g1;
  xoo[1] = g0;
  xoo[2] = v0;
  xoo[3] = v14;
}
JOB2(p51) { c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_float e0 = sym_float("e0"); c_float e1 = sym_float("e1"); void* g1 = spv_str(s, "g1", 2); c_short b1 = sym_short("b1"); c_long d0 = sym_long("d0"); void* g0 = spv_str(s, "g0", 2); c_short b0 = sym_short("b0"); c_long d1 = sym_long("d1"); c_int c0 = sym_int("c0"); c_byte a1 = sym_byte("a1"); c_double f0 = sym_double("f0"); c_byte a0 = sym_byte("a0"); c_long xlo[11] = {0}; c_double xdd[5] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_int(0, c1); set_double(1, f1); set_float(2, e0); set_float(3, e1); ST[4].oval = g1; set_short(5, b1); set_long(6, d0); ST[7].oval = g0; set_short(8, b0); set_long(9, d1); set_int(10, c0); set_byte(11, a1); set_double(12, f0); set_byte(13, a0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p51", 17)); ref_p51(c1, f1, e0, e1, g1, b1, d0, g0, b0, d1, c0, a1, f0, a0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p52(void* g0, c_long d0, c_int c0, c_short b1, c_byte a0, c_float e1, c_double f1, c_float e0, c_long d1, void* g1, c_int c1, c_byte a1, c_double f0, c_short b0, c_long* xlo, c_double* xdd, void** xoo) {
  c_long v0 = (c_long)(d1 + d1);
  c_int v1 = 0;
  c_double v2 = 0;
  g1 = g1;
  c_double v3 = f1;
  c_double v4 = f1;
  if (c1 > 3) {
  c_short v5 = 0;
  xlo[0] = v5;
  c_long v0 = 0;
  c_long v7 = 0;
  {
  d0 = (c_long)(v7 + v7);
  c_long v8 = d0;
  {
  c_int v9 = 0;
  e1 = e1;
  }
  c_float* r10 = &e0;
  c_int v11 = c1;
  c_double v12 = v4;
  ;
  }
  }
  else {
  {
  c_float v13 = 0;
  v4 = f1;
  {
  c_float v14 = e1;
  v14 = v13;
  f1 = v2;
  c1 = c1;
  g0 = g0;
  }
  c_int v3 = (c_int)(c0 + c0);
  }
  c_double v16 = 0;
  {
  if (c0 > 3) {
  xlo[1] = v0;
  e0 = e1;
  c_int v17 = (c_int)(v1 + c1);
  {
  ;
  d1 = d0;
  c_double v0 = v2;
  ;
  ;
  }
  xlo[2] = b0;
  c_float* r19 = &e1;
  }
  else {
  xlo[3] = b0;
  {
  c_long v20 = 0;
  ;
  c_float v21 = e0;
  xlo[4] = b1;
  d1 = (c_long)(d1 + 1);
  ;
  ;
  }
  c_byte v4 = 0;
  xdd[0] = e0;
  }
  c_float* r23 = &e0;
  xdd[1] = v3;
  void* v16 = 0;
  c_long v25 = 0;
  {
  e0 = e0;
  c_int v26 = 0;
  c_short v27 = b0;
  v16 = v16;
  ;
  void* v28 = 0;
  *r23 = e1;
  }
  }
  }
  xlo[5] = a0;
  xlo[6] = a1;
  xlo[7] = b1;
  xlo[8] = b0;
  xlo[9] = c0;
  xlo[10] = c1;
  xlo[11] = v1;
  xlo[12] = d0;
  xlo[13] = d1;
  xlo[14] = v0;
  xdd[2] = e1;
  xdd[3] = e0;
  xdd[4] = f1;
  xdd[5] = f0;
  xdd[6] = v2;
  xdd[7] = v3;
  xdd[8] = v4;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p52) { void* g0 = spv_str(s, "g0", 2); c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); c_float e1 = sym_float("e1"); c_double f1 = sym_double("f1"); c_float e0 = sym_float("e0"); c_long d1 = sym_long("d1"); void* g1 = spv_str(s, "g1", 2); c_int c1 = sym_int("c1"); c_byte a1 = sym_byte("a1"); c_double f0 = sym_double("f0"); c_short b0 = sym_short("b0"); c_long xlo[15] = {0}; c_double xdd[9] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 15); void* dd = ENV->new_double_array(ENV, ST, 9); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  ST[0].oval = g0; set_long(1, d0); set_int(2, c0); set_short(3, b1); set_byte(4, a0); set_float(5, e1); set_double(6, f1); set_float(7, e0); set_long(8, d1); ST[9].oval = g1; set_int(10, c1); set_byte(11, a1); set_double(12, f0); set_short(13, b0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p52", 17)); ref_p52(g0, d0, c0, b1, a0, e1, f1, e0, d1, g1, c1, a1, f0, b0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 15; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 9; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p53(c_byte a1, c_long d1, c_byte a0, c_short b0, c_int c0, c_float e0, c_long d0, c_float e1, c_short b1, c_double f1, c_double f0, void* g1, c_int c1, void* g0, c_long* xlo, c_double* xdd, void** xoo) {
  if (c0 > 3) {
  c_double v0 = f1;
  g0 = g0;
  e0 = e0;
  }
  else {
  c_byte v1 = 0;
  c_short v2 = b0;
  c_long* r3 = &d0;
  c_float v4 = e1;
  {
  c_float v5 = e0;
  if (c1 > 3) {
  c_long v6 = 0;
  *r3 = d0;
  *r3 = (c_long)(v6 + d0);
  {
  v4 = v4;
  void* v1 = g0;
  ;
  d0 = (c_long)(d0 + d1);
  }
  c_float v8 = v5;
  }
  else {
  c0 = c1;
  {
  c_long* r9 = &d1;
  void* v10 = 0;
  c_float v11 = v5;
  c_long v12 = *r3;
  c_long v13 = *r9;
  ;
  *r9 = v13;
  }
  }
  {
  xoo[0] = g0;
  {
  ;
  c_double v4 = f1;
  xdd[0] = f1;
  *r3 = d0;
  }
  d1 = (c_long)(d1 - 1);
  {
  ;
  xlo[0] = (c_int)(c1 + c0);
  ;
  ;
  ;
  ;
  }
  {
  g1 = g1;
  ;
  }
  c_long v15 = d1;
  c_int v16 = 0;
  }
  g1 = g1;
  }
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_int v17 = c1;
  v17 = (c_int)(v17 + c0);
  c_long v18 = *r3;
  {
  {
  ;
  c_long v17 = 0;
  *r3 = (c_long)(v17 + d1);
  c_long* r20 = &v17;
  c_long v21 = *r20;
  c_double v4 = 0;
  c_float v23 = e1;
  }
  d0 = (c_long)(v18 + d0);
  f1 = f1;
  ;
  }
  }
  {
  xlo[1] = c0;
  {
  c_float* r24 = &e1;
  c_byte v25 = 0;
  d1 = (c_long)(d1 + 1);
  c_long v26 = d1;
  c_short v27 = v2;
  xlo[2] = c0;
  }
  {
  f1 = f0;
  {
  c_long v28 = d0;
  c_byte* r29 = &v1;
  void* v2 = g0;
  c_double v31 = f1;
  xlo[3] = b0;
  c1 = c0;
  v31 = f0;
  ;
  }
  c_long v2 = 0;
  {
  a0 = a1;
  c_long v33 = 0;
  c_int* r34 = &c1;
  ;
  }
  xlo[4] = b1;
  g0 = g0;
  }
  d0 = d1;
  *r3 = d1;
  {
  {
  ;
  *r3 = d1;
  *r3 = *r3;
  f1 = f1;
  f0 = f0;
  c_int v2 = c1;
  ;
  ;
  }
  xlo[5] = c0;
  f0 = f0;
  c_long v36 = (c_long)(d1 + d0);
  c_double v37 = 0;
  }
  c1 = (c_int)(c1 + c1);
  }
  }
  void* v38 = g1;
  c_double v39 = f0;
  xlo[6] = a1;
  xlo[7] = a0;
  xlo[8] = b0;
  xlo[9] = b1;
  xlo[10] = c0;
  xlo[11] = c1;
  xlo[12] = d1;
  xlo[13] = d0;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = f1;
  xdd[4] = f0;
  xdd[5] = v39;
  xoo[1] = g1;
  xoo[2] = g0;
  xoo[3] = v38;
}
JOB2(p53) { c_byte a1 = sym_byte("a1"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); c_short b0 = sym_short("b0"); c_int c0 = sym_int("c0"); c_float e0 = sym_float("e0"); c_long d0 = sym_long("d0"); c_float e1 = sym_float("e1"); c_short b1 = sym_short("b1"); c_double f1 = sym_double("f1"); c_double f0 = sym_double("f0"); void* g1 = spv_str(s, "g1", 2); c_int c1 = sym_int("c1"); void* g0 = spv_str(s, "g0", 2); c_long xlo[14] = {0}; c_double xdd[6] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 14); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_byte(0, a1); set_long(1, d1); set_byte(2, a0); set_short(3, b0); set_int(4, c0); set_float(5, e0); set_long(6, d0); set_float(7, e1); set_short(8, b1); set_double(9, f1); set_double(10, f0); ST[11].oval = g1; set_int(12, c1); ST[13].oval = g0; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p53", 17)); ref_p53(a1, d1, a0, b0, c0, e0, d0, e1, b1, f1, f0, g1, c1, g0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 14; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p54(void* g1, c_double f1, c_int c1, c_long d0, c_int c0, c_double f0, c_long d1, c_short b0, c_short b1, void* g0, c_float e1, c_byte a0, c_float e0, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  {
  {
  c_byte* r0 = &a1;
  b1 = b1;
  c0 = c0;
  c_long* r1 = &d0;
  e1 = e1;
  }
  {
  g0 = g0;
  {
  xoo[0] = g1;
  {
  e0 = e0;
  e0 = e1;
  c1 = (c_int)(c1 + c0);
  ;
  c_short v2 = b1;
  ;
  ;
  }
  c1 = (c_int)(c1 - 1);
  ;
  }
  f0 = f0;
  }
  c_int v3 = (c_int)(c1 + c1);
  ;
  }
  c_byte v4 = 0;
  c_double v5 = f0;
  c_long* r6 = &d0;
  b0 = b0;
  c_short v7 = b1;
  *r6 = d0;
  b1 = b1;
  c_byte v8 = 0;
  a0 = v8;
  void* v9 = g0;
  c_float v10 = e1;
  c_double v11 = 0;
  c_float v12 = e1;
  c_long v13 = 0;
  c_byte v14 = v8;
  c0 = c0;
  c0 = (c_int)(c1 + c0);
  xlo[0] = a0;
  xlo[1] = a1;
  xlo[2] = v4;
  xlo[3] = v8;
  xlo[4] = v14;
  xlo[5] = b0;
  xlo[6] = b1;
  xlo[7] = v7;
  xlo[8] = c1;
  xlo[9] = c0;
  xlo[10] = d0;
  xlo[11] = d1;
  xlo[12] = v13;
  xdd[0] = e1;
  xdd[1] = e0;
  xdd[2] = v10;
  xdd[3] = v12;
  xdd[4] = f1;
  xdd[5] = f0;
  xdd[6] = v5;
  xdd[7] = v11;
  xoo[1] = g1;
  xoo[2] = g0;
  xoo[3] = v9;
}
JOB2(p54) { void* g1 = spv_str(s, "g1", 2); c_double f1 = sym_double("f1"); c_int c1 = sym_int("c1"); c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_short b0 = sym_short("b0"); c_short b1 = sym_short("b1"); void* g0 = spv_str(s, "g0", 2); c_float e1 = sym_float("e1"); c_byte a0 = sym_byte("a0"); c_float e0 = sym_float("e0"); c_byte a1 = sym_byte("a1"); c_long xlo[13] = {0}; c_double xdd[8] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 13); void* dd = ENV->new_double_array(ENV, ST, 8); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  ST[0].oval = g1; set_double(1, f1); set_int(2, c1); set_long(3, d0); set_int(4, c0); set_double(5, f0); set_long(6, d1); set_short(7, b0); set_short(8, b1); ST[9].oval = g0; set_float(10, e1); set_byte(11, a0); set_float(12, e0); set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p54", 17)); ref_p54(g1, f1, c1, d0, c0, f0, d1, b0, b1, g0, e1, a0, e0, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 13; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 8; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p55(c_short b0, void* g0, c_byte a0, c_int c0, c_double f0, c_float e0, c_double f1, c_long d1, c_long d0, c_short b1, c_float e1, c_int c1, void* g1, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  xdd[0] = f0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  {
  {
  void* v0 = 0;
  d0 = d0;
  ;
  void* v1 = 0;
  }
  {
  c_float v2 = e1;
  a0 = a1;
  c_long* r3 = &d1;
  g1 = g0;
  *r3 = *r3;
  }
  c_double v4 = f1;
  ;
  }
  {
  {
  b1 = b0;
  ;
  ;
  d1 = d1;
  e1 = e0;
  ;
  }
  if (c0 > 3) {
  c_int* r5 = &c0;
  ;
  *r5 = c1;
  void* v6 = 0;
  c_long* r7 = &d1;
  }
  else {
  c_int v8 = 0;
  e1 = e0;
  c_short* r9 = &b1;
  }
  e1 = e1;
  ;
  }
  {
  b1 = b0;
  xdd[1] = e0;
  }
  f1 = f0;
  }
  xlo[0] = a1;
  c_float* r10 = &e0;
  c_byte v11 = 0;
  xlo[1] = b0;
  }
  c_short* r12 = &b0;
  c_long v13 = d0;
  if (c1 > 3) {
  c_byte v14 = a0;
  c_short v15 = b0;
  c_short v16 = v15;
  e0 = e0;
  v13 = (c_long)(v13 + v13);
  c0 = (c_int)(c0 - 1);
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  b1 = *r12;
  {
  c_int v17 = 0;
  *r12 = b1;
  ;
  }
  }
  void* v18 = g0;
  c_long v19 = (c_long)(d1 + d0);
  g1 = v18;
  }
  c_long v20 = (c_long)(d1 + d0);
  ;
  xdd[2] = e1;
  v13 = v20;
  void* v21 = 0;
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c0;
  xlo[7] = c1;
  xlo[8] = d1;
  xlo[9] = d0;
  xlo[10] = v13;
  xlo[11] = v20;
  xdd[3] = e0;
  xdd[4] = e1;
  xdd[5] = f0;
  xdd[6] = f1;
  xoo[0] = g0;
  xoo[1] = g1;
  xoo[2] = v21;
}
JOB2(p55) { c_short b0 = sym_short("b0"); void* g0 = spv_str(s, "g0", 2); c_byte a0 = sym_byte("a0"); c_int c0 = sym_int("c0"); c_double f0 = sym_double("f0"); c_float e0 = sym_float("e0"); c_double f1 = sym_double("f1"); c_long d1 = sym_long("d1"); c_long d0 = sym_long("d0"); c_short b1 = sym_short("b1"); c_float e1 = sym_float("e1"); c_int c1 = sym_int("c1"); void* g1 = spv_str(s, "g1", 2); c_byte a1 = sym_byte("a1"); c_long xlo[12] = {0}; c_double xdd[7] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_short(0, b0); ST[1].oval = g0; set_byte(2, a0); set_int(3, c0); set_double(4, f0); set_float(5, e0); set_double(6, f1); set_long(7, d1); set_long(8, d0); set_short(9, b1); set_float(10, e1); set_int(11, c1); ST[12].oval = g1; set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p55", 17)); ref_p55(b0, g0, a0, c0, f0, e0, f1, d1, d0, b1, e1, c1, g1, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p56(c_float e1, void* g1, void* g0, c_byte a0, c_float e0, c_long d0, c_int c0, c_double f0, c_long d1, c_double f1, c_short b1, c_int c1, c_short b0, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  c_double v0 = 0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  xlo[0] = a1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  c_long v1 = 0;
  {
  ;
  c_short v2 = b1;
  ;
  ;
  }
  {
  c_short v3 = b1;
  v0 = f1;
  c_short* r4 = &b0;
  ;
  xlo[1] = c0;
  c_byte* r5 = &a0;
  d0 = d0;
  ;
  }
  ;
  }
  d1 = (c_long)(d1 + 1);
  c_byte* r6 = &a1;
  {
  f1 = v0;
  *r6 = a1;
  }
  }
  {
  c_float* r7 = &e0;
  c_byte* r8 = &a1;
  c_float v9 = e1;
  void* v10 = 0;
  c_int* r11 = &c1;
  }
  c_int v12 = 0;
  }
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_byte v13 = 0;
  c_byte* r14 = &a0;
  {
  *r14 = a0;
  {
  c_double* r15 = &v0;
  ;
  ;
  }
  c_long v13 = (c_long)(d0 + d0);
  c_int v17 = c1;
  *r14 = a1;
  {
  ;
  c_short v17 = 0;
  ;
  *r14 = *r14;
  c_double* r19 = &v0;
  ;
  }
  ;
  }
  {
  xdd[0] = f1;
  {
  *r14 = a1;
  c_float v20 = e1;
  f1 = v0;
  ;
  void* v21 = g0;
  *r14 = v13;
  }
  c_int v22 = c1;
  d0 = d0;
  xdd[1] = e1;
  *r14 = a0;
  }
  {
  v0 = v0;
  g1 = g0;
  }
  {
  e1 = e1;
  {
  c_float* r23 = &e0;
  v13 = v13;
  c_float v24 = e0;
  ;
  }
  {
  ;
  c_short v25 = 0;
  ;
  f1 = f1;
  e0 = e0;
  f0 = v0;
  }
  c_long v26 = d0;
  }
  }
  {
  c_float* r27 = &e1;
  e0 = *r27;
  *r27 = e1;
  c_int v28 = 0;
  if (v28 > 3) {
  c1 = v28;
  {
  ;
  void* v29 = g1;
  }
  {
  ;
  *r27 = e1;
  c1 = (c_int)(c1 + 1);
  *r27 = e0;
  b0 = b1;
  }
  }
  else {
  {
  ;
  e1 = *r27;
  }
  d1 = d1;
  {
  ;
  *r27 = e0;
  f1 = v0;
  c_int v28 = 0;
  c_double v0 = 0;
  c_double v32 = v0;
  }
  c_float v0 = e0;
  ;
  f0 = f0;
  }
  c_float* r34 = &e0;
  }
  c_float* r35 = &e1;
  ;
  c_long v0 = (c_long)(d1 + d0);
  c_short* r37 = &b1;
  xlo[2] = d0;
  }
  xlo[3] = a0;
  xlo[4] = a1;
  xlo[5] = b1;
  xlo[6] = b0;
  xlo[7] = c0;
  xlo[8] = c1;
  xlo[9] = d0;
  xlo[10] = d1;
  xdd[2] = e1;
  xdd[3] = e0;
  xdd[4] = f0;
  xdd[5] = f1;
  xdd[6] = v0;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p56) { c_float e1 = sym_float("e1"); void* g1 = spv_str(s, "g1", 2); void* g0 = vp_choice(2, "g0") ? spv_str(s, "g0", 2) : 0; c_byte a0 = sym_byte("a0"); c_float e0 = sym_float("e0"); c_long d0 = sym_long("d0"); c_int c0 = sym_int("c0"); c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_double f1 = sym_double("f1"); c_short b1 = sym_short("b1"); c_int c1 = sym_int("c1"); c_short b0 = sym_short("b0"); c_byte a1 = sym_byte("a1"); c_long xlo[11] = {0}; c_double xdd[7] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 11); void* dd = ENV->new_double_array(ENV, ST, 7); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_float(0, e1); ST[1].oval = g1; ST[2].oval = g0; set_byte(3, a0); set_float(4, e0); set_long(5, d0); set_int(6, c0); set_double(7, f0); set_long(8, d1); set_double(9, f1); set_short(10, b1); set_int(11, c1); set_short(12, b0); set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p56", 17)); ref_p56(e1, g1, g0, a0, e0, d0, c0, f0, d1, f1, b1, c1, b0, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 11; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 7; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p57(c_double f1, c_float e1, c_byte a0, c_double f0, c_long d1, c_int c0, c_byte a1, c_short b1, c_int c1, c_long d0, c_short b0, void* g0, c_float e0, void* g1, c_long* xlo, c_double* xdd, void** xoo) {
  d0 = d0;
  void* v0 = 0;
  c_int v1 = c0;
  c_int v2 = v1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  {
  g1 = v0;
  e1 = e0;
  c_byte v3 = a0;
  v0 = g0;
  c_float v1 = e1;
  ;
  }
  if (c0 > 3) {
  c_long v2 = d1;
  c_short* r6 = &b1;
  xlo[0] = a0;
  {
  {
  c_int v7 = 0;
  c_double v2 = 0;
  *r6 = b1;
  ;
  }
  {
  ;
  ;
  void* v0 = g1;
  }
  *r6 = b1;
  c1 = (c_int)(c1 - 1);
  xoo[0] = v0;
  c_long v10 = v2;
  }
  }
  {
  c_int v11 = (c_int)(c1 + c1);
  d0 = d0;
  if (v11 > 3) {
  ;
  ;
  xlo[1] = a0;
  }
  else {
  c_float v12 = e1;
  }
  ;
  }
  a0 = a0;
  c_long v1 = d0;
  }
  xlo[2] = a0;
  xlo[3] = a1;
  xlo[4] = b1;
  xlo[5] = b0;
  xlo[6] = c0;
  xlo[7] = c1;
  xlo[8] = v1;
  xlo[9] = v2;
  xlo[10] = d1;
  xlo[11] = d0;
  xdd[0] = e1;
  xdd[1] = e0;
  xdd[2] = f1;
  xdd[3] = f0;
  xoo[1] = g0;
  xoo[2] = g1;
  xoo[3] = v0;
}
JOB2(p57) { c_double f1 = sym_double("f1"); c_float e1 = sym_float("e1"); c_byte a0 = sym_byte("a0"); c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_int c0 = sym_int("c0"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_int c1 = sym_int("c1"); c_long d0 = sym_long("d0"); c_short b0 = sym_short("b0"); void* g0 = spv_str(s, "g0", 2); c_float e0 = sym_float("e0"); void* g1 = spv_str(s, "g1", 2); c_long xlo[12] = {0}; c_double xdd[4] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 12); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_double(0, f1); set_float(1, e1); set_byte(2, a0); set_double(3, f0); set_long(4, d1); set_int(5, c0); set_byte(6, a1); set_short(7, b1); set_int(8, c1); set_long(9, d0); set_short(10, b0); ST[11].oval = g0; set_float(12, e0); ST[13].oval = g1; ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p57", 17)); ref_p57(f1, e1, a0, f0, d1, c0, a1, b1, c1, d0, b0, g0, e0, g1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 12; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p58(c_int c1, c_double f1, c_double f0, void* g1, c_byte a0, c_long d0, void* g0, c_long d1, c_float e0, c_byte a1, c_short b1, c_short b0, c_float e1, c_int c0, c_long* xlo, c_double* xdd, void** xoo) {
  for (c_int i0 = 0; i0 < 2; i0++) {
  void* v0 = g1;
  {
  {
  c_int* r1 = &c0;
  e0 = e0;
  c_int v2 = 0;
  *r1 = c1;
  {
  ;
  ;
  c_long* r3 = &d0;
  c0 = (c_int)(c0 - 1);
  }
  xlo[0] = a1;
  }
  {
  c_short v4 = 0;
  c_float* r5 = &e0;
  {
  *r5 = *r5;
  c_short v6 = 0;
  f0 = f1;
  *r5 = e0;
  ;
  c1 = c1;
  }
  d1 = d1;
  {
  c_double v4 = 0;
  a1 = a0;
  c_byte v8 = a0;
  ;
  c_short v9 = b0;
  ;
  v4 = f1;
  }
  *r5 = e0;
  }
  {
  if (c0 > 3) {
  void* v10 = g0;
  c_long v11 = d1;
  ;
  ;
  v11 = v11;
  d0 = (c_long)(d1 + d1);
  }
  void* v12 = g1;
  ;
  }
  {
  g1 = g0;
  c0 = c0;
  if (c0 > 3) {
  c_float v13 = 0;
  d0 = (c_long)(d0 + d1);
  f0 = f0;
  c_short v14 = b1;
  ;
  }
  else {
  f1 = f1;
  c_short v15 = b1;
  c_byte v0 = a1;
  c_float v17 = 0;
  c_float v18 = e1;
  }
  c_int* r19 = &c1;
  d1 = (c_long)(d1 + 1);
  c_long v20 = 0;
  {
  ;
  c_long v21 = 0;
  g1 = g1;
  ;
  *r19 = *r19;
  c1 = c1;
  }
  }
  ;
  f0 = f0;
  ;
  }
  }
  xlo[1] = a0;
  xlo[2] = a1;
  xlo[3] = b1;
  xlo[4] = b0;
  xlo[5] = c1;
  xlo[6] = c0;
  xlo[7] = d0;
  xlo[8] = d1;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = f1;
  xdd[3] = f0;
  xoo[0] = g1;
  xoo[1] = g0;
}
JOB2(p58) { c_int c1 = sym_int("c1"); c_double f1 = sym_double("f1"); c_double f0 = sym_double("f0"); void* g1 = spv_str(s, "g1", 2); c_byte a0 = sym_byte("a0"); c_long d0 = sym_long("d0"); void* g0 = spv_str(s, "g0", 2); c_long d1 = sym_long("d1"); c_float e0 = sym_float("e0"); c_byte a1 = sym_byte("a1"); c_short b1 = sym_short("b1"); c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); c_int c0 = sym_int("c0"); c_long xlo[9] = {0}; c_double xdd[4] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 9); void* dd = ENV->new_double_array(ENV, ST, 4); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_int(0, c1); set_double(1, f1); set_double(2, f0); ST[3].oval = g1; set_byte(4, a0); set_long(5, d0); ST[6].oval = g0; set_long(7, d1); set_float(8, e0); set_byte(9, a1); set_short(10, b1); set_short(11, b0); set_float(12, e1); set_int(13, c0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p58", 17)); ref_p58(c1, f1, f0, g1, a0, d0, g0, d1, e0, a1, b1, b0, e1, c0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 9; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p59(c_double f0, c_double f1, c_int c0, c_float e0, c_short b0, c_long d1, c_int c1, c_long d0, void* g1, c_short b1, void* g0, c_float e1, c_byte a1, c_byte a0, c_long* xlo, c_double* xdd, void** xoo) {
  a1 = a0;
  {
  c_float v0 = 0;
  c1 = c0;
  {
  c_short v1 = b1;
  if (c0 > 3) {
  d1 = d0;
  c_byte* r2 = &a1;
  }
  else {
  b0 = b0;
  c_double* r3 = &f0;
  if (c0 > 3) {
  ;
  *r3 = f0;
  }
  else {
  e0 = v0;
  g1 = g0;
  c_float v4 = e1;
  ;
  }
  *r3 = *r3;
  {
  a0 = a1;
  v0 = v0;
  xlo[0] = b0;
  c_byte v5 = 0;
  }
  c_int v6 = (c_int)(c0 + c1);
  {
  void* v7 = g1;
  v7 = v7;
  ;
  c0 = c1;
  a1 = a1;
  ;
  a0 = a1;
  }
  }
  {
  c_int v8 = (c_int)(c1 + c1);
  {
  v8 = (c_int)(v8 - 1);
  v0 = e1;
  c_double v8 = f0;
  xlo[1] = d1;
  c_int v10 = 0;
  }
  c_double v11 = f0;
  d1 = d0;
  c_float v1 = e0;
  c_int* r13 = &c0;
  a1 = a0;
  ;
  }
  xoo[0] = g0;
  {
  {
  a1 = a0;
  ;
  ;
  }
  v0 = e0;
  {
  ;
  g1 = g1;
  c_int v1 = c0;
  }
  c_byte v15 = 0;
  c1 = (c_int)(c1 + c0);
  c0 = (c_int)(c0 + c0);
  ;
  }
  ;
  }
  }
  c_int v16 = c0;
  xlo[2] = b0;
  c0 = (c_int)(c1 + v16);
  v16 = (c_int)(v16 + 1);
  c_int v17 = 0;
  c_float v18 = e0;
  g0 = g1;
  c_float v19 = e1;
  b0 = b0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_byte* r20 = &a0;
  d0 = (c_long)(d1 + d0);
  {
  e1 = v19;
  {
  ;
  g1 = g0;
  c_short v21 = b0;
  }
  c_int v22 = c1;
  ;
  }
  }
  }
  c_float* r23 = &v18;
  c_short* r24 = &b0;
  void* v25 = g1;
  for (c_int i0 = 0; i0 < 2; i0++) {
  for (c_int i1 = 0; i1 < 2; i1++) {
  v19 = e0;
  {
  {
  ;
  c_int v26 = v16;
  g1 = v25;
  c_float v27 = v18;
  ;
  ;
  }
  f1 = f0;
  *r24 = b1;
  c_byte v28 = a1;
  ;
  }
  a0 = a0;
  a1 = a1;
  *r23 = e0;
  {
  {
  c_double v29 = 0;
  g1 = g1;
  c_long* r30 = &d1;
  b0 = *r24;
  }
  c_byte v31 = a1;
  c_byte v32 = a0;
  c_short* r33 = &b1;
  }
  }
  c_short v34 = 0;
  void* v35 = 0;
  }
  xlo[3] = a1;
  xlo[4] = a0;
  xlo[5] = b0;
  xlo[6] = b1;
  xlo[7] = c0;
  xlo[8] = c1;
  xlo[9] = v16;
  xlo[10] = v17;
  xlo[11] = d1;
  xlo[12] = d0;
  xdd[0] = e0;
  xdd[1] = e1;
  xdd[2] = v18;
  xdd[3] = v19;
  xdd[4] = f0;
  xdd[5] = f1;
  xoo[1] = g1;
  xoo[2] = g0;
  xoo[3] = v25;
}
JOB2(p59) { c_double f0 = sym_double("f0"); c_double f1 = sym_double("f1"); c_int c0 = sym_int("c0"); c_float e0 = sym_float("e0"); c_short b0 = sym_short("b0"); c_long d1 = sym_long("d1"); c_int c1 = sym_int("c1"); c_long d0 = sym_long("d0"); void* g1 = spv_str(s, "g1", 2); c_short b1 = sym_short("b1"); void* g0 = spv_str(s, "g0", 2); c_float e1 = sym_float("e1"); c_byte a1 = sym_byte("a1"); c_byte a0 = sym_byte("a0"); c_long xlo[13] = {0}; c_double xdd[6] = {0}; void* xoo[4] = {0}; void* lo = ENV->new_long_array(ENV, ST, 13); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 4);
  set_double(0, f0); set_double(1, f1); set_int(2, c0); set_float(3, e0); set_short(4, b0); set_long(5, d1); set_int(6, c1); set_long(7, d0); ST[8].oval = g1; set_short(9, b1); ST[10].oval = g0; set_float(11, e1); set_byte(12, a1); set_byte(13, a0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p59", 17)); ref_p59(f0, f1, c0, e0, b0, d1, c1, d0, g1, b1, g0, e1, a1, a0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 13; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 4; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p60(void* g0, c_int c1, c_double f0, c_float e0, c_long d1, c_int c0, c_long d0, c_byte a1, c_float e1, c_short b0, c_double f1, c_byte a0, void* g1, c_short b1, c_long* xlo, c_double* xdd, void** xoo) {
  xlo[0] = a1;
  b0 = b0;
  {
  {
  {
  c_short* r0 = &b0;
  {
  c_int v1 = c0;
  c_float v2 = e0;
  ;
  c_short v3 = *r0;
  c_long v4 = d0;
  c_long v5 = (c_long)(v4 + v4);
  ;
  }
  c1 = c0;
  {
  xlo[1] = c0;
  c_float v6 = 0;
  ;
  c_byte v7 = a1;
  xdd[0] = e1;
  }
  e0 = e1;
  c_short v8 = 0;
  }
  c_int* r9 = &c0;
  c_double v10 = f0;
  c_int v11 = c1;
  ;
  }
  c_short v12 = b1;
  c_int v13 = c0;
  e1 = e1;
  }
  void* v14 = g0;
  if (c1 > 3) {
  c_float v15 = e1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_int v16 = 0;
  ;
  c_byte v17 = a0;
  v16 = c1;
  }
  ;
  c_double v18 = f0;
  }
  xlo[2] = a1;
  xlo[3] = a0;
  xlo[4] = b0;
  xlo[5] = b1;
  xlo[6] = c1;
  xlo[7] = c0;
  xlo[8] = d1;
  xlo[9] = d0;
  xdd[1] = e0;
  xdd[2] = e1;
  xdd[3] = f0;
  xdd[4] = f1;
  xoo[0] = g0;
  xoo[1] = g1;
  xoo[2] = v14;
}
JOB2(p60) { void* g0 = spv_str(s, "g0", 2); c_int c1 = sym_int("c1"); c_double f0 = sym_double("f0"); c_float e0 = sym_float("e0"); c_long d1 = sym_long("d1"); c_int c0 = sym_int("c0"); c_long d0 = sym_long("d0"); c_byte a1 = sym_byte("a1"); c_float e1 = sym_float("e1"); c_short b0 = sym_short("b0"); c_double f1 = sym_double("f1"); c_byte a0 = sym_byte("a0"); void* g1 = spv_str(s, "g1", 2); c_short b1 = sym_short("b1"); c_long xlo[10] = {0}; c_double xdd[5] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 10); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  ST[0].oval = g0; set_int(1, c1); set_double(2, f0); set_float(3, e0); set_long(4, d1); set_int(5, c0); set_long(6, d0); set_byte(7, a1); set_float(8, e1); set_short(9, b0); set_double(10, f1); set_byte(11, a0); ST[12].oval = g1; set_short(13, b1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p60", 17)); ref_p60(g0, c1, f0, e0, d1, c0, d0, a1, e1, b0, f1, a0, g1, b1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 10; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p61(c_float e1, void* g1, c_int c0, c_double f0, c_long d1, c_short b1, c_byte a0, c_byte a1, c_double f1, c_long d0, c_short b0, void* g0, c_int c1, c_float e0, c_long* xlo, c_double* xdd, void** xoo) {
  e0 = e0;
  {
  c_byte v0 = a1;
  {
  c_long v0 = d0;
  g1 = g0;
  c_float v2 = e1;
  c_long v3 = (c_long)(v0 + v0);
  }
  f1 = f0;
  a1 = a0;
  c_int v4 = c1;
  {
  g0 = g0;
  {
  g1 = g0;
  xlo[0] = c0;
  {
  ;
  }
  c_byte v5 = 0;
  if (c1 > 3) {
  xoo[0] = g1;
  b0 = b1;
  }
  {
  d0 = d0;
  d1 = (c_long)(d1 + d1);
  c0 = c1;
  }
  }
  xdd[0] = e1;
  {
  c_float v6 = 0;
  if (c0 > 3) {
  c_float v7 = e1;
  b0 = b1;
  ;
  }
  else {
  c_byte v8 = 0;
  ;
  ;
  d0 = (c_long)(d1 + d1);
  }
  {
  c_long v9 = (c_long)(d1 + d1);
  c_long* r10 = &d0;
  ;
  ;
  v0 = a1;
  ;
  *r10 = d1;
  }
  {
  ;
  ;
  ;
  }
  ;
  }
  {
  {
  g1 = g0;
  ;
  f1 = f1;
  }
  {
  ;
  d1 = d0;
  }
  f1 = f0;
  c_int v11 = v4;
  c1 = c1;
  void* v4 = g0;
  }
  c_int v13 = (c_int)(v4 + c0);
  }
  c_int v14 = (c_int)(c0 + c0);
  }
  xlo[1] = a0;
  xlo[2] = a1;
  xlo[3] = b1;
  xlo[4] = b0;
  xlo[5] = c0;
  xlo[6] = c1;
  xlo[7] = d1;
  xlo[8] = d0;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f0;
  xdd[4] = f1;
  xoo[1] = g1;
  xoo[2] = g0;
}
JOB2(p61) { c_float e1 = sym_float("e1"); void* g1 = spv_str(s, "g1", 2); c_int c0 = sym_int("c0"); c_double f0 = sym_double("f0"); c_long d1 = sym_long("d1"); c_short b1 = sym_short("b1"); c_byte a0 = sym_byte("a0"); c_byte a1 = sym_byte("a1"); c_double f1 = sym_double("f1"); c_long d0 = sym_long("d0"); c_short b0 = sym_short("b0"); void* g0 = spv_str(s, "g0", 2); c_int c1 = sym_int("c1"); c_float e0 = sym_float("e0"); c_long xlo[9] = {0}; c_double xdd[5] = {0}; void* xoo[3] = {0}; void* lo = ENV->new_long_array(ENV, ST, 9); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 3);
  set_float(0, e1); ST[1].oval = g1; set_int(2, c0); set_double(3, f0); set_long(4, d1); set_short(5, b1); set_byte(6, a0); set_byte(7, a1); set_double(8, f1); set_long(9, d0); set_short(10, b0); ST[11].oval = g0; set_int(12, c1); set_float(13, e0); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p61", 17)); ref_p61(e1, g1, c0, f0, d1, b1, a0, a1, f1, d0, b0, g0, c1, e0, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 9; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 3; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p62(c_short b0, c_float e1, void* g0, c_int c0, c_double f1, c_double f0, c_long d0, c_long d1, c_byte a0, void* g1, c_float e0, c_int c1, c_short b1, c_byte a1, c_long* xlo, c_double* xdd, void** xoo) {
  c1 = c0;
  {
  {
  xlo[0] = c1;
  {
  {
  f1 = f1;
  xlo[1] = b1;
  g1 = g1;
  c_int* r0 = &c0;
  }
  b1 = b1;
  c_short v1 = 0;
  ;
  }
  d0 = d1;
  ;
  }
  {
  b0 = b1;
  c_double v2 = f0;
  xlo[2] = a0;
  c_int v3 = (c_int)(c1 + c1);
  c_short v4 = b1;
  void* v5 = 0;
  }
  }
  c_double v6 = 0;
  c_byte v7 = a0;
  xlo[3] = b1;
  {
  c_double v8 = f0;
  b0 = b1;
  c_long v9 = (c_long)(d1 + d1);
  xlo[4] = b1;
  {
  {
  c_byte* r10 = &a1;
  if (c0 > 3) {
  ;
  xlo[5] = (c_int)(c1 + c0);
  c_short v9 = b1;
  c_float v12 = e1;
  }
  else {
  v7 = a0;
  ;
  }
  c0 = c0;
  if (c1 > 3) {
  c_float v13 = e0;
  d0 = (c_long)(d0 - 1);
  d1 = d1;
  d0 = v9;
  ;
  ;
  }
  else {
  v9 = (c_long)(v9 + 1);
  f1 = v6;
  *r10 = a1;
  ;
  c_long v7 = d1;
  c_float v15 = 0;
  ;
  }
  ;
  }
  c_long* r16 = &d1;
  *r16 = (c_long)(v9 + v9);
  a1 = a0;
  {
  xdd[0] = v6;
  c0 = c0;
  v9 = (c_long)(v9 - 1);
  c_short v17 = 0;
  v17 = b0;
  c_float v18 = e1;
  ;
  }
  }
  void* v19 = 0;
  }
  e1 = e0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_float v20 = 0;
  {
  e0 = e1;
  {
  d0 = d0;
  b1 = b0;
  v7 = a0;
  }
  c_byte v20 = 0;
  {
  {
  xlo[6] = a1;
  ;
  }
  c_short v7 = b0;
  d1 = d0;
  ;
  }
  }
  c_byte* r23 = &a1;
  c_long* r24 = &d1;
  for (c_int i1 = 0; i1 < 2; i1++) {
  {
  b1 = b1;
  {
  v6 = v6;
  c1 = c0;
  d1 = d0;
  c_double v25 = f1;
  c_float* r26 = &v20;
  }
  *r24 = d1;
  b1 = b0;
  ;
  }
  *r23 = a1;
  c_short v27 = b1;
  c_double v28 = f0;
  g1 = g0;
  c_float v29 = e1;
  c_short v30 = 0;
  }
  c_short v31 = 0;
  }
  ;
  xlo[7] = a0;
  xlo[8] = a1;
  xlo[9] = v7;
  xlo[10] = b0;
  xlo[11] = b1;
  xlo[12] = c0;
  xlo[13] = c1;
  xlo[14] = d0;
  xlo[15] = d1;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f1;
  xdd[4] = f0;
  xdd[5] = v6;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p62) { c_short b0 = sym_short("b0"); c_float e1 = sym_float("e1"); void* g0 = spv_str(s, "g0", 2); c_int c0 = sym_int("c0"); c_double f1 = sym_double("f1"); c_double f0 = sym_double("f0"); c_long d0 = sym_long("d0"); c_long d1 = sym_long("d1"); c_byte a0 = sym_byte("a0"); void* g1 = spv_str(s, "g1", 2); c_float e0 = sym_float("e0"); c_int c1 = sym_int("c1"); c_short b1 = sym_short("b1"); c_byte a1 = sym_byte("a1"); c_long xlo[16] = {0}; c_double xdd[6] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 16); void* dd = ENV->new_double_array(ENV, ST, 6); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_short(0, b0); set_float(1, e1); ST[2].oval = g0; set_int(3, c0); set_double(4, f1); set_double(5, f0); set_long(6, d0); set_long(7, d1); set_byte(8, a0); ST[9].oval = g1; set_float(10, e0); set_int(11, c1); set_short(12, b1); set_byte(13, a1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p62", 17)); ref_p62(b0, e1, g0, c0, f1, f0, d0, d1, a0, g1, e0, c1, b1, a1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 16; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 6; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
static void ref_p63(c_byte a0, c_byte a1, c_float e1, c_int c1, c_long d1, void* g0, c_int c0, void* g1, c_double f0, c_long d0, c_float e0, c_double f1, c_short b0, c_short b1, c_long* xlo, c_double* xdd, void** xoo) {
  {
  if (c0 > 3) {
  xlo[0] = c1;
  xlo[1] = (c_int)(c1 + c0);
  c_long v0 = d1;
  {
  e1 = e0;
  c_int v1 = (c_int)(c1 + c0);
  }
  }
  c_byte v2 = 0;
  }
  xdd[0] = f0;
  for (c_int i0 = 0; i0 < 2; i0++) {
  c_long v3 = d0;
  xlo[2] = c1;
  c_long v4 = d0;
  b0 = b0;
  c_float v5 = e0;
  c_long v6 = v3;
  }
  if (c0 > 3) {
  c_byte v7 = a0;
  for (c_int i1 = 0; i1 < 2; i1++) {
  c_byte v7 = a1;
  {
  {
  a1 = a1;
  e0 = e1;
  xlo[3] = d1;
  c_float* r9 = &e1;
  c_int v10 = 0;
  c_double v11 = 0;
  c1 = c0;
  ;
  }
  c_short* r12 = &b1;
  c_byte v13 = a0;
  }
  c_double v14 = 0;
  {
  c_byte v15 = a1;
  e1 = e0;
  xlo[4] = d1;
  b0 = b0;
  }
  }
  c_int v16 = (c_int)(c0 + c0);
  }
  else {
  ;
  g1 = g0;
  c_float v17 = e1;
  b0 = b1;
  }
  xlo[5] = a0;
  xlo[6] = a1;
  xlo[7] = b0;
  xlo[8] = b1;
  xlo[9] = c1;
  xlo[10] = c0;
  xlo[11] = d1;
  xlo[12] = d0;
  xdd[1] = e1;
  xdd[2] = e0;
  xdd[3] = f0;
  xdd[4] = f1;
  xoo[0] = g0;
  xoo[1] = g1;
}
JOB2(p63) { c_byte a0 = sym_byte("a0"); c_byte a1 = sym_byte("a1"); c_float e1 = sym_float("e1"); c_int c1 = sym_int("c1"); c_long d1 = sym_long("d1"); void* g0 = spv_str(s, "g0", 2); c_int c0 = sym_int("c0"); void* g1 = spv_str(s, "g1", 2); c_double f0 = sym_double("f0"); c_long d0 = sym_long("d0"); c_float e0 = sym_float("e0"); c_double f1 = sym_double("f1"); c_short b0 = sym_short("b0"); c_short b1 = sym_short("b1"); c_long xlo[13] = {0}; c_double xdd[5] = {0}; void* xoo[2] = {0}; void* lo = ENV->new_long_array(ENV, ST, 13); void* dd = ENV->new_double_array(ENV, ST, 5); void* oo = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 2);
  set_byte(0, a0); set_byte(1, a1); set_float(2, e1); set_int(3, c1); set_long(4, d1); ST[5].oval = g0; set_int(6, c0); ST[7].oval = g1; set_double(8, f0); set_long(9, d0); set_float(10, e0); set_double(11, f1); set_short(12, b0); set_short(13, b1); ST[14].oval = lo; ST[15].oval = dd; ST[16].oval = oo; OK(CALL(s, "p63", 17)); ref_p63(a0, a1, e1, c1, d1, g0, c0, g1, f0, d0, e0, f1, b0, b1, xlo, xdd, xoo);
  c_long* pl = ENV->get_elems_long(ENV, ST, lo); c_double* pd = ENV->get_elems_double(ENV, ST, dd); for (int i = 0; i < 13; i++) vp_assert(pl[i] == xlo[i], "integer variables hold the values last assigned"); for (int i = 0; i < 5; i++) vp_assert(same_double(pd[i], xdd[i]), "floating variables hold the values last assigned"); for (int i = 0; i < 2; i++) vp_assert(ENV->get_elem_object(ENV, ST, oo, i) == xoo[i], "object variables hold the values last assigned"); }
JOB2(many_int) { c_int a = sym_int("a"), b = sym_int("b"); void* o = ENV->new_int_array(ENV, ST, 300); c_int* p = ENV->get_elems_int(ENV, ST, o); set_int(0, a); set_int(1, b); ST[2].oval = o; OK(CALL(s, "many_int", 3)); for (int k = 0; k < 300; k++) vp_assert(same_int(p[k], (k % 3 == 0 ? 0 : k % 3 == 1 ? a : b)), "each of many variables keeps its value"); }
JOB2(many_double) { c_double a = sym_double("a"), b = sym_double("b"); void* o = ENV->new_double_array(ENV, ST, 300); c_double* p = ENV->get_elems_double(ENV, ST, o); set_double(0, a); set_double(1, b); ST[2].oval = o; OK(CALL(s, "many_double", 3)); for (int k = 0; k < 300; k++) vp_assert(same_double(p[k], (k % 3 == 0 ? 0 : k % 3 == 1 ? a : b)), "each of many variables keeps its value"); }
JOB2(many_byte) { c_byte a = sym_byte("a"), b = sym_byte("b"); void* o = ENV->new_byte_array(ENV, ST, 300); c_byte* p = ENV->get_elems_byte(ENV, ST, o); set_byte(0, a); set_byte(1, b); ST[2].oval = o; OK(CALL(s, "many_byte", 3)); for (int k = 0; k < 300; k++) vp_assert(same_byte(p[k], (k % 3 == 0 ? 0 : k % 3 == 1 ? a : b)), "each of many variables keeps its value"); }
JOB2(many_string) { void* a = spv_str(s, "a", 1); void* b = spv_str(s, "b", 1); void* o = ENV->new_object_array(ENV, ST, ENV->get_basic_type_by_id(ENV, ST, SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT), 300); ST[0].oval = a; ST[1].oval = b; ST[2].oval = o; OK(CALL(s, "many_string", 3)); for (int k = 0; k < 300; k++) vp_assert(ENV->get_elem_object(ENV, ST, o, k) == (k % 3 == 0 ? 0 : k % 3 == 1 ? a : b), "each of many variables keeps its value"); }
JOB2(decl_byte) { c_byte x = sym_byte("x"); set_byte(0, x); ST[1].ival = 3; OK(CALL(s, "decl_byte", 2)); vp_assert(get_byte() == 0, "a declaration without initialiser starts at zero each time"); }
JOB2(decl_short) { c_short x = sym_short("x"); set_short(0, x); ST[1].ival = 3; OK(CALL(s, "decl_short", 2)); vp_assert(get_short() == 0, "a declaration without initialiser starts at zero each time"); }
JOB2(decl_int) { c_int x = sym_int("x"); set_int(0, x); ST[1].ival = 3; OK(CALL(s, "decl_int", 2)); vp_assert(get_int() == 0, "a declaration without initialiser starts at zero each time"); }
JOB2(decl_long) { c_long x = sym_long("x"); set_long(0, x); ST[1].ival = 3; OK(CALL(s, "decl_long", 2)); vp_assert(get_long() == 0, "a declaration without initialiser starts at zero each time"); }
JOB2(decl_float) { c_float x = sym_float("x"); set_float(0, x); ST[1].ival = 3; OK(CALL(s, "decl_float", 2)); vp_assert(get_float() == 0, "a declaration without initialiser starts at zero each time"); }
JOB2(decl_double) { c_double x = sym_double("x"); set_double(0, x); ST[1].ival = 3; OK(CALL(s, "decl_double", 2)); vp_assert(get_double() == 0, "a declaration without initialiser starts at zero each time"); }
JOB2(decl_o) { ST[0].oval = spv_str(s, "x", 1); ST[1].ival = 4; OK(CALL(s, "decl_o", 2)); vp_assert(get_int() == 0, "object declarations start undef each time"); }
JOB2(rec) { c_int x = sym_int("x"); c_long y = sym_long("y"); for (int d = 0; d < 5; d++) { ST[0].ival = x; ST[1].lval = y; ST[2].ival = d; OK(CALL(s, "rec", 3)); vp_assert(get_long() == (c_long)((uint64_t)y + 10 * d + (int64_t)(int32_t)((uint32_t)x + d)), "recursion keeps each frame"); } }
JOB2(swap) { c_int c = sym_int("c"); ST[0].oval = spv_str(s, "A", 1); ST[1].oval = spv_str(s, "B", 1); ST[2].ival = c; OK(CALL(s, "swap", 3)); vp_assert(get_int() == (c ? 1 : 2), "object variables swap and shadow correctly"); }
