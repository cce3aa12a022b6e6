/*vp {"pc":"VP","time":150,"bounds":["five classes in two inheritance chains (5..26 fields of mixed types), 24 class variables in two classes, multi-numeric types of 2..4 fields of every numeric type","every stored value; each member in turn is stored while all others hold known values"]} */
// generated by tools/gen_*.py
#include "lang.h"

#define set_obj(i, v) (ST[i].oval = (v))
#define get_obj() (ST[0].oval)
#define same_obj(a, b) ((a) == (b))
typedef void* c_obj;
static void threw(SPV* s, int e) { vp_assert(e != 0, "access through undef throws"); vp_assert(spv_exc(s) != 0, "with an exception"); spv_clear_exc(s); }
static void* keep(SPV* s, void* o) { ENV->push_mortal(ENV, ST, o); return o; }
static void* mk(SPV* s, const char* m) { OK(CALL(s, m, 0)); return keep(s, ST[0].oval); }
static void* mko(SPV* s, const char* t) { if (!strcmp(t, "string")) return spv_str(s, "v", 1); if (!strcmp(t, "int[]")) return ENV->new_int_array(ENV, ST, 1); if (!strcmp(t, "Fa")) return mk(s, "new_Fa"); return mk(s, "new_Int"); }
static const struct { const char* n; const char* t; } T_Fa[] = { {"b1", "byte"}, {"d1", "double"}, {"s1", "short"}, {"o1", "string"}, {"i1", "int"}, {"b2", "byte"}, {"l1", "long"}, {"s2", "short"}, {"f1", "float"}, {"o2", "Int"}, {"i2", "int"}, {"b3", "byte"}, {"d2", "double"}, {"o3", "int[]"}, {"f2", "float"} };
static void fill_Fa(SPV* s, void* o, void** ov, int d) { set_obj(0, o); set_byte(1, (c_byte)(1 * 3 + d)); OK(CALL(s, "set_Fa_b1", 2)); set_obj(0, o); set_double(1, (c_double)(2 * 3 + d)); OK(CALL(s, "set_Fa_d1", 2)); set_obj(0, o); set_short(1, (c_short)(3 * 3 + d)); OK(CALL(s, "set_Fa_s1", 2)); set_obj(0, o); set_obj(1, ov[3]); OK(CALL(s, "set_Fa_o1", 2)); set_obj(0, o); set_int(1, (c_int)(5 * 3 + d)); OK(CALL(s, "set_Fa_i1", 2)); set_obj(0, o); set_byte(1, (c_byte)(6 * 3 + d)); OK(CALL(s, "set_Fa_b2", 2)); set_obj(0, o); set_long(1, (c_long)(7 * 3 + d)); OK(CALL(s, "set_Fa_l1", 2)); set_obj(0, o); set_short(1, (c_short)(8 * 3 + d)); OK(CALL(s, "set_Fa_s2", 2)); set_obj(0, o); set_float(1, (c_float)(9 * 3 + d)); OK(CALL(s, "set_Fa_f1", 2)); set_obj(0, o); set_obj(1, ov[9]); OK(CALL(s, "set_Fa_o2", 2)); set_obj(0, o); set_int(1, (c_int)(11 * 3 + d)); OK(CALL(s, "set_Fa_i2", 2)); set_obj(0, o); set_byte(1, (c_byte)(12 * 3 + d)); OK(CALL(s, "set_Fa_b3", 2)); set_obj(0, o); set_double(1, (c_double)(13 * 3 + d)); OK(CALL(s, "set_Fa_d2", 2)); set_obj(0, o); set_obj(1, ov[13]); OK(CALL(s, "set_Fa_o3", 2)); set_obj(0, o); set_float(1, (c_float)(15 * 3 + d)); OK(CALL(s, "set_Fa_f2", 2));  }
static void verify_Fa(SPV* s, void* o, void** ov, int k, int d) { if (k != 0) { set_obj(0, o); OK(CALL(s, "get_Fa_b1", 1)); vp_assert(same_byte(get_byte(), (c_byte)(1 * 3 + d)), "field b1 keeps its value"); } if (k != 1) { set_obj(0, o); OK(CALL(s, "get_Fa_d1", 1)); vp_assert(same_double(get_double(), (c_double)(2 * 3 + d)), "field d1 keeps its value"); } if (k != 2) { set_obj(0, o); OK(CALL(s, "get_Fa_s1", 1)); vp_assert(same_short(get_short(), (c_short)(3 * 3 + d)), "field s1 keeps its value"); } if (k != 3) { set_obj(0, o); OK(CALL(s, "get_Fa_o1", 1)); vp_assert(same_obj(get_obj(), ov[3]), "field o1 keeps its value"); } if (k != 4) { set_obj(0, o); OK(CALL(s, "get_Fa_i1", 1)); vp_assert(same_int(get_int(), (c_int)(5 * 3 + d)), "field i1 keeps its value"); } if (k != 5) { set_obj(0, o); OK(CALL(s, "get_Fa_b2", 1)); vp_assert(same_byte(get_byte(), (c_byte)(6 * 3 + d)), "field b2 keeps its value"); } if (k != 6) { set_obj(0, o); OK(CALL(s, "get_Fa_l1", 1)); vp_assert(same_long(get_long(), (c_long)(7 * 3 + d)), "field l1 keeps its value"); } if (k != 7) { set_obj(0, o); OK(CALL(s, "get_Fa_s2", 1)); vp_assert(same_short(get_short(), (c_short)(8 * 3 + d)), "field s2 keeps its value"); } if (k != 8) { set_obj(0, o); OK(CALL(s, "get_Fa_f1", 1)); vp_assert(same_float(get_float(), (c_float)(9 * 3 + d)), "field f1 keeps its value"); } if (k != 9) { set_obj(0, o); OK(CALL(s, "get_Fa_o2", 1)); vp_assert(same_obj(get_obj(), ov[9]), "field o2 keeps its value"); } if (k != 10) { set_obj(0, o); OK(CALL(s, "get_Fa_i2", 1)); vp_assert(same_int(get_int(), (c_int)(11 * 3 + d)), "field i2 keeps its value"); } if (k != 11) { set_obj(0, o); OK(CALL(s, "get_Fa_b3", 1)); vp_assert(same_byte(get_byte(), (c_byte)(12 * 3 + d)), "field b3 keeps its value"); } if (k != 12) { set_obj(0, o); OK(CALL(s, "get_Fa_d2", 1)); vp_assert(same_double(get_double(), (c_double)(13 * 3 + d)), "field d2 keeps its value"); } if (k != 13) { set_obj(0, o); OK(CALL(s, "get_Fa_o3", 1)); vp_assert(same_obj(get_obj(), ov[13]), "field o3 keeps its value"); } if (k != 14) { set_obj(0, o); OK(CALL(s, "get_Fa_f2", 1)); vp_assert(same_float(get_float(), (c_float)(15 * 3 + d)), "field f2 keeps its value"); }  }
JOB2(zero_Fa) { void* o = mk(s, "new_Fa"); set_obj(0, o); OK(CALL(s, "get_Fa_b1", 1)); vp_assert(same_byte(get_byte(), 0), "field b1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_d1", 1)); vp_assert(same_double(get_double(), 0), "field d1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_s1", 1)); vp_assert(same_short(get_short(), 0), "field s1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_o1", 1)); vp_assert(same_obj(get_obj(), 0), "field o1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_i1", 1)); vp_assert(same_int(get_int(), 0), "field i1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_b2", 1)); vp_assert(same_byte(get_byte(), 0), "field b2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_l1", 1)); vp_assert(same_long(get_long(), 0), "field l1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_s2", 1)); vp_assert(same_short(get_short(), 0), "field s2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_f1", 1)); vp_assert(same_float(get_float(), 0), "field f1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_o2", 1)); vp_assert(same_obj(get_obj(), 0), "field o2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_i2", 1)); vp_assert(same_int(get_int(), 0), "field i2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_b3", 1)); vp_assert(same_byte(get_byte(), 0), "field b3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_d2", 1)); vp_assert(same_double(get_double(), 0), "field d2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_o3", 1)); vp_assert(same_obj(get_obj(), 0), "field o3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fa_f2", 1)); vp_assert(same_float(get_float(), 0), "field f2 starts as zero or undef");  set_obj(0, 0); threw(s, CALL(s, "get_Fa_b1", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fa_b1", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fa_b1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_d1", 1)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "set_Fa_d1", 2)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "viaref_Fa_d1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_s1", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fa_s1", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fa_s1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_o1", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fa_o1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_i1", 1)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "set_Fa_i1", 2)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "viaref_Fa_i1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_b2", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fa_b2", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fa_b2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_l1", 1)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "set_Fa_l1", 2)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "viaref_Fa_l1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_s2", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fa_s2", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fa_s2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_f1", 1)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "set_Fa_f1", 2)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "viaref_Fa_f1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_o2", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fa_o2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_i2", 1)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "set_Fa_i2", 2)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "viaref_Fa_i2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_b3", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fa_b3", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fa_b3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_d2", 1)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "set_Fa_d2", 2)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "viaref_Fa_d2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_o3", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fa_o3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fa_f2", 1)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "set_Fa_f2", 2)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "viaref_Fa_f2", 2));  }
JOB2(f_Fa_b1) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fa_b1", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_b1", 1)); vp_assert(same_byte(get_byte(), v), "field b1 reads back"); verify_Fa(s, o, ov, 0, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b1", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fa_b1", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_b1", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fa(s, o, ov, 0, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_d1) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_double v = sym_double("v");
  set_obj(0, o); set_double(1, v); OK(CALL(s, "set_Fa_d1", 2)); vp_assert(same_double(get_double(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_d1", 1)); vp_assert(same_double(get_double(), v), "field d1 reads back"); verify_Fa(s, o, ov, 1, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, o, "d1", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_double(1, v); OK(CALL(s, "viaref_Fa_d1", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_d1", 1)); vp_assert(same_double(get_double(), v), "field stored through a reference"); verify_Fa(s, o, ov, 1, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_s1) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fa_s1", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_s1", 1)); vp_assert(same_short(get_short(), v), "field s1 reads back"); verify_Fa(s, o, ov, 2, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s1", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fa_s1", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_s1", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fa(s, o, ov, 2, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_o1) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "string");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fa_o1", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_o1", 1)); vp_assert(same_obj(get_obj(), v), "field o1 reads back"); verify_Fa(s, o, ov, 3, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o1", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fa_i1) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_int v = sym_int("v");
  set_obj(0, o); set_int(1, v); OK(CALL(s, "set_Fa_i1", 2)); vp_assert(same_int(get_int(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_i1", 1)); vp_assert(same_int(get_int(), v), "field i1 reads back"); verify_Fa(s, o, ov, 4, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_int(ENV->get_field_int_by_name(ENV, ST, o, "i1", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_int(1, v); OK(CALL(s, "viaref_Fa_i1", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_i1", 1)); vp_assert(same_int(get_int(), v), "field stored through a reference"); verify_Fa(s, o, ov, 4, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_b2) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fa_b2", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_b2", 1)); vp_assert(same_byte(get_byte(), v), "field b2 reads back"); verify_Fa(s, o, ov, 5, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b2", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fa_b2", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_b2", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fa(s, o, ov, 5, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_l1) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_long v = sym_long("v");
  set_obj(0, o); set_long(1, v); OK(CALL(s, "set_Fa_l1", 2)); vp_assert(same_long(get_long(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_l1", 1)); vp_assert(same_long(get_long(), v), "field l1 reads back"); verify_Fa(s, o, ov, 6, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_long(ENV->get_field_long_by_name(ENV, ST, o, "l1", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_long(1, v); OK(CALL(s, "viaref_Fa_l1", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_l1", 1)); vp_assert(same_long(get_long(), v), "field stored through a reference"); verify_Fa(s, o, ov, 6, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_s2) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fa_s2", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_s2", 1)); vp_assert(same_short(get_short(), v), "field s2 reads back"); verify_Fa(s, o, ov, 7, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s2", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fa_s2", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_s2", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fa(s, o, ov, 7, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_f1) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_float v = sym_float("v");
  set_obj(0, o); set_float(1, v); OK(CALL(s, "set_Fa_f1", 2)); vp_assert(same_float(get_float(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_f1", 1)); vp_assert(same_float(get_float(), v), "field f1 reads back"); verify_Fa(s, o, ov, 8, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_float(ENV->get_field_float_by_name(ENV, ST, o, "f1", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_float(1, v); OK(CALL(s, "viaref_Fa_f1", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_f1", 1)); vp_assert(same_float(get_float(), v), "field stored through a reference"); verify_Fa(s, o, ov, 8, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_o2) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "Int");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fa_o2", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_o2", 1)); vp_assert(same_obj(get_obj(), v), "field o2 reads back"); verify_Fa(s, o, ov, 9, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o2", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fa_i2) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_int v = sym_int("v");
  set_obj(0, o); set_int(1, v); OK(CALL(s, "set_Fa_i2", 2)); vp_assert(same_int(get_int(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_i2", 1)); vp_assert(same_int(get_int(), v), "field i2 reads back"); verify_Fa(s, o, ov, 10, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_int(ENV->get_field_int_by_name(ENV, ST, o, "i2", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_int(1, v); OK(CALL(s, "viaref_Fa_i2", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_i2", 1)); vp_assert(same_int(get_int(), v), "field stored through a reference"); verify_Fa(s, o, ov, 10, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_b3) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fa_b3", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_b3", 1)); vp_assert(same_byte(get_byte(), v), "field b3 reads back"); verify_Fa(s, o, ov, 11, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b3", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fa_b3", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_b3", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fa(s, o, ov, 11, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_d2) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_double v = sym_double("v");
  set_obj(0, o); set_double(1, v); OK(CALL(s, "set_Fa_d2", 2)); vp_assert(same_double(get_double(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_d2", 1)); vp_assert(same_double(get_double(), v), "field d2 reads back"); verify_Fa(s, o, ov, 12, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, o, "d2", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_double(1, v); OK(CALL(s, "viaref_Fa_d2", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_d2", 1)); vp_assert(same_double(get_double(), v), "field stored through a reference"); verify_Fa(s, o, ov, 12, 0); verify_Fa(s, o2, ov, -1, 50); }
JOB2(f_Fa_o3) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "int[]");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fa_o3", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_o3", 1)); vp_assert(same_obj(get_obj(), v), "field o3 reads back"); verify_Fa(s, o, ov, 13, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o3", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fa_f2) { void* ov[15]; for (int q = 0; q < 15; q++) ov[q] = strchr("bsilfd", T_Fa[q].t[0]) && strcmp(T_Fa[q].t, "string") && strcmp(T_Fa[q].t, "int[]") ? 0 : mko(s, T_Fa[q].t); void* o = mk(s, "new_Fa"); void* o2 = mk(s, "new_Fa"); fill_Fa(s, o, ov, 0); fill_Fa(s, o2, ov, 50); verify_Fa(s, o, ov, -1, 0); c_float v = sym_float("v");
  set_obj(0, o); set_float(1, v); OK(CALL(s, "set_Fa_f2", 2)); vp_assert(same_float(get_float(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fa_f2", 1)); vp_assert(same_float(get_float(), v), "field f2 reads back"); verify_Fa(s, o, ov, 14, 0); verify_Fa(s, o2, ov, -1, 50); int err = 0; vp_assert(same_float(ENV->get_field_float_by_name(ENV, ST, o, "f2", &err, "", "", 0), v) && !err, "native read"); fill_Fa(s, o, ov, 0); set_obj(0, o); set_float(1, v); OK(CALL(s, "viaref_Fa_f2", 2)); set_obj(0, o); OK(CALL(s, "get_Fa_f2", 1)); vp_assert(same_float(get_float(), v), "field stored through a reference"); verify_Fa(s, o, ov, 14, 0); verify_Fa(s, o2, ov, -1, 50); }
static const struct { const char* n; const char* t; } T_Fb[] = { {"b1", "byte"}, {"d1", "double"}, {"s1", "short"}, {"o1", "string"}, {"i1", "int"}, {"b2", "byte"}, {"l1", "long"}, {"s2", "short"}, {"f1", "float"}, {"o2", "Int"}, {"i2", "int"}, {"b3", "byte"}, {"d2", "double"}, {"o3", "int[]"}, {"f2", "float"}, {"b4", "byte"}, {"l2", "long"}, {"o4", "object"}, {"s3", "short"}, {"b5", "byte"}, {"i3", "int"} };
static void fill_Fb(SPV* s, void* o, void** ov, int d) { set_obj(0, o); set_byte(1, (c_byte)(1 * 3 + d)); OK(CALL(s, "set_Fb_b1", 2)); set_obj(0, o); set_double(1, (c_double)(2 * 3 + d)); OK(CALL(s, "set_Fb_d1", 2)); set_obj(0, o); set_short(1, (c_short)(3 * 3 + d)); OK(CALL(s, "set_Fb_s1", 2)); set_obj(0, o); set_obj(1, ov[3]); OK(CALL(s, "set_Fb_o1", 2)); set_obj(0, o); set_int(1, (c_int)(5 * 3 + d)); OK(CALL(s, "set_Fb_i1", 2)); set_obj(0, o); set_byte(1, (c_byte)(6 * 3 + d)); OK(CALL(s, "set_Fb_b2", 2)); set_obj(0, o); set_long(1, (c_long)(7 * 3 + d)); OK(CALL(s, "set_Fb_l1", 2)); set_obj(0, o); set_short(1, (c_short)(8 * 3 + d)); OK(CALL(s, "set_Fb_s2", 2)); set_obj(0, o); set_float(1, (c_float)(9 * 3 + d)); OK(CALL(s, "set_Fb_f1", 2)); set_obj(0, o); set_obj(1, ov[9]); OK(CALL(s, "set_Fb_o2", 2)); set_obj(0, o); set_int(1, (c_int)(11 * 3 + d)); OK(CALL(s, "set_Fb_i2", 2)); set_obj(0, o); set_byte(1, (c_byte)(12 * 3 + d)); OK(CALL(s, "set_Fb_b3", 2)); set_obj(0, o); set_double(1, (c_double)(13 * 3 + d)); OK(CALL(s, "set_Fb_d2", 2)); set_obj(0, o); set_obj(1, ov[13]); OK(CALL(s, "set_Fb_o3", 2)); set_obj(0, o); set_float(1, (c_float)(15 * 3 + d)); OK(CALL(s, "set_Fb_f2", 2)); set_obj(0, o); set_byte(1, (c_byte)(16 * 3 + d)); OK(CALL(s, "set_Fb_b4", 2)); set_obj(0, o); set_long(1, (c_long)(17 * 3 + d)); OK(CALL(s, "set_Fb_l2", 2)); set_obj(0, o); set_obj(1, ov[17]); OK(CALL(s, "set_Fb_o4", 2)); set_obj(0, o); set_short(1, (c_short)(19 * 3 + d)); OK(CALL(s, "set_Fb_s3", 2)); set_obj(0, o); set_byte(1, (c_byte)(20 * 3 + d)); OK(CALL(s, "set_Fb_b5", 2)); set_obj(0, o); set_int(1, (c_int)(21 * 3 + d)); OK(CALL(s, "set_Fb_i3", 2));  }
static void verify_Fb(SPV* s, void* o, void** ov, int k, int d) { if (k != 0) { set_obj(0, o); OK(CALL(s, "get_Fb_b1", 1)); vp_assert(same_byte(get_byte(), (c_byte)(1 * 3 + d)), "field b1 keeps its value"); } if (k != 1) { set_obj(0, o); OK(CALL(s, "get_Fb_d1", 1)); vp_assert(same_double(get_double(), (c_double)(2 * 3 + d)), "field d1 keeps its value"); } if (k != 2) { set_obj(0, o); OK(CALL(s, "get_Fb_s1", 1)); vp_assert(same_short(get_short(), (c_short)(3 * 3 + d)), "field s1 keeps its value"); } if (k != 3) { set_obj(0, o); OK(CALL(s, "get_Fb_o1", 1)); vp_assert(same_obj(get_obj(), ov[3]), "field o1 keeps its value"); } if (k != 4) { set_obj(0, o); OK(CALL(s, "get_Fb_i1", 1)); vp_assert(same_int(get_int(), (c_int)(5 * 3 + d)), "field i1 keeps its value"); } if (k != 5) { set_obj(0, o); OK(CALL(s, "get_Fb_b2", 1)); vp_assert(same_byte(get_byte(), (c_byte)(6 * 3 + d)), "field b2 keeps its value"); } if (k != 6) { set_obj(0, o); OK(CALL(s, "get_Fb_l1", 1)); vp_assert(same_long(get_long(), (c_long)(7 * 3 + d)), "field l1 keeps its value"); } if (k != 7) { set_obj(0, o); OK(CALL(s, "get_Fb_s2", 1)); vp_assert(same_short(get_short(), (c_short)(8 * 3 + d)), "field s2 keeps its value"); } if (k != 8) { set_obj(0, o); OK(CALL(s, "get_Fb_f1", 1)); vp_assert(same_float(get_float(), (c_float)(9 * 3 + d)), "field f1 keeps its value"); } if (k != 9) { set_obj(0, o); OK(CALL(s, "get_Fb_o2", 1)); vp_assert(same_obj(get_obj(), ov[9]), "field o2 keeps its value"); } if (k != 10) { set_obj(0, o); OK(CALL(s, "get_Fb_i2", 1)); vp_assert(same_int(get_int(), (c_int)(11 * 3 + d)), "field i2 keeps its value"); } if (k != 11) { set_obj(0, o); OK(CALL(s, "get_Fb_b3", 1)); vp_assert(same_byte(get_byte(), (c_byte)(12 * 3 + d)), "field b3 keeps its value"); } if (k != 12) { set_obj(0, o); OK(CALL(s, "get_Fb_d2", 1)); vp_assert(same_double(get_double(), (c_double)(13 * 3 + d)), "field d2 keeps its value"); } if (k != 13) { set_obj(0, o); OK(CALL(s, "get_Fb_o3", 1)); vp_assert(same_obj(get_obj(), ov[13]), "field o3 keeps its value"); } if (k != 14) { set_obj(0, o); OK(CALL(s, "get_Fb_f2", 1)); vp_assert(same_float(get_float(), (c_float)(15 * 3 + d)), "field f2 keeps its value"); } if (k != 15) { set_obj(0, o); OK(CALL(s, "get_Fb_b4", 1)); vp_assert(same_byte(get_byte(), (c_byte)(16 * 3 + d)), "field b4 keeps its value"); } if (k != 16) { set_obj(0, o); OK(CALL(s, "get_Fb_l2", 1)); vp_assert(same_long(get_long(), (c_long)(17 * 3 + d)), "field l2 keeps its value"); } if (k != 17) { set_obj(0, o); OK(CALL(s, "get_Fb_o4", 1)); vp_assert(same_obj(get_obj(), ov[17]), "field o4 keeps its value"); } if (k != 18) { set_obj(0, o); OK(CALL(s, "get_Fb_s3", 1)); vp_assert(same_short(get_short(), (c_short)(19 * 3 + d)), "field s3 keeps its value"); } if (k != 19) { set_obj(0, o); OK(CALL(s, "get_Fb_b5", 1)); vp_assert(same_byte(get_byte(), (c_byte)(20 * 3 + d)), "field b5 keeps its value"); } if (k != 20) { set_obj(0, o); OK(CALL(s, "get_Fb_i3", 1)); vp_assert(same_int(get_int(), (c_int)(21 * 3 + d)), "field i3 keeps its value"); }  }
JOB2(zero_Fb) { void* o = mk(s, "new_Fb"); set_obj(0, o); OK(CALL(s, "get_Fb_b1", 1)); vp_assert(same_byte(get_byte(), 0), "field b1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_d1", 1)); vp_assert(same_double(get_double(), 0), "field d1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_s1", 1)); vp_assert(same_short(get_short(), 0), "field s1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_o1", 1)); vp_assert(same_obj(get_obj(), 0), "field o1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_i1", 1)); vp_assert(same_int(get_int(), 0), "field i1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_b2", 1)); vp_assert(same_byte(get_byte(), 0), "field b2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_l1", 1)); vp_assert(same_long(get_long(), 0), "field l1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_s2", 1)); vp_assert(same_short(get_short(), 0), "field s2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_f1", 1)); vp_assert(same_float(get_float(), 0), "field f1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_o2", 1)); vp_assert(same_obj(get_obj(), 0), "field o2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_i2", 1)); vp_assert(same_int(get_int(), 0), "field i2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_b3", 1)); vp_assert(same_byte(get_byte(), 0), "field b3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_d2", 1)); vp_assert(same_double(get_double(), 0), "field d2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_o3", 1)); vp_assert(same_obj(get_obj(), 0), "field o3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_f2", 1)); vp_assert(same_float(get_float(), 0), "field f2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_b4", 1)); vp_assert(same_byte(get_byte(), 0), "field b4 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_l2", 1)); vp_assert(same_long(get_long(), 0), "field l2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_o4", 1)); vp_assert(same_obj(get_obj(), 0), "field o4 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_s3", 1)); vp_assert(same_short(get_short(), 0), "field s3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_b5", 1)); vp_assert(same_byte(get_byte(), 0), "field b5 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fb_i3", 1)); vp_assert(same_int(get_int(), 0), "field i3 starts as zero or undef");  set_obj(0, 0); threw(s, CALL(s, "get_Fb_b1", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fb_b1", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fb_b1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_d1", 1)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "set_Fb_d1", 2)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "viaref_Fb_d1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_s1", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fb_s1", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fb_s1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_o1", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fb_o1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_i1", 1)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "set_Fb_i1", 2)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "viaref_Fb_i1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_b2", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fb_b2", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fb_b2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_l1", 1)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "set_Fb_l1", 2)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "viaref_Fb_l1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_s2", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fb_s2", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fb_s2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_f1", 1)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "set_Fb_f1", 2)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "viaref_Fb_f1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_o2", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fb_o2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_i2", 1)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "set_Fb_i2", 2)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "viaref_Fb_i2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_b3", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fb_b3", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fb_b3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_d2", 1)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "set_Fb_d2", 2)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "viaref_Fb_d2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_o3", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fb_o3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_f2", 1)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "set_Fb_f2", 2)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "viaref_Fb_f2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_b4", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fb_b4", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fb_b4", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_l2", 1)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "set_Fb_l2", 2)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "viaref_Fb_l2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_o4", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fb_o4", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_s3", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fb_s3", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fb_s3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_b5", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fb_b5", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fb_b5", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fb_i3", 1)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "set_Fb_i3", 2)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "viaref_Fb_i3", 2));  }
JOB2(f_Fb_b1) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fb_b1", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_b1", 1)); vp_assert(same_byte(get_byte(), v), "field b1 reads back"); verify_Fb(s, o, ov, 0, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b1", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fb_b1", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_b1", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fb(s, o, ov, 0, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_d1) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_double v = sym_double("v");
  set_obj(0, o); set_double(1, v); OK(CALL(s, "set_Fb_d1", 2)); vp_assert(same_double(get_double(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_d1", 1)); vp_assert(same_double(get_double(), v), "field d1 reads back"); verify_Fb(s, o, ov, 1, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, o, "d1", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_double(1, v); OK(CALL(s, "viaref_Fb_d1", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_d1", 1)); vp_assert(same_double(get_double(), v), "field stored through a reference"); verify_Fb(s, o, ov, 1, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_s1) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fb_s1", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_s1", 1)); vp_assert(same_short(get_short(), v), "field s1 reads back"); verify_Fb(s, o, ov, 2, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s1", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fb_s1", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_s1", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fb(s, o, ov, 2, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_o1) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "string");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fb_o1", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_o1", 1)); vp_assert(same_obj(get_obj(), v), "field o1 reads back"); verify_Fb(s, o, ov, 3, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o1", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fb_i1) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_int v = sym_int("v");
  set_obj(0, o); set_int(1, v); OK(CALL(s, "set_Fb_i1", 2)); vp_assert(same_int(get_int(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_i1", 1)); vp_assert(same_int(get_int(), v), "field i1 reads back"); verify_Fb(s, o, ov, 4, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_int(ENV->get_field_int_by_name(ENV, ST, o, "i1", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_int(1, v); OK(CALL(s, "viaref_Fb_i1", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_i1", 1)); vp_assert(same_int(get_int(), v), "field stored through a reference"); verify_Fb(s, o, ov, 4, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_b2) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fb_b2", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_b2", 1)); vp_assert(same_byte(get_byte(), v), "field b2 reads back"); verify_Fb(s, o, ov, 5, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b2", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fb_b2", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_b2", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fb(s, o, ov, 5, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_l1) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_long v = sym_long("v");
  set_obj(0, o); set_long(1, v); OK(CALL(s, "set_Fb_l1", 2)); vp_assert(same_long(get_long(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_l1", 1)); vp_assert(same_long(get_long(), v), "field l1 reads back"); verify_Fb(s, o, ov, 6, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_long(ENV->get_field_long_by_name(ENV, ST, o, "l1", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_long(1, v); OK(CALL(s, "viaref_Fb_l1", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_l1", 1)); vp_assert(same_long(get_long(), v), "field stored through a reference"); verify_Fb(s, o, ov, 6, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_s2) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fb_s2", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_s2", 1)); vp_assert(same_short(get_short(), v), "field s2 reads back"); verify_Fb(s, o, ov, 7, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s2", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fb_s2", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_s2", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fb(s, o, ov, 7, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_f1) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_float v = sym_float("v");
  set_obj(0, o); set_float(1, v); OK(CALL(s, "set_Fb_f1", 2)); vp_assert(same_float(get_float(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_f1", 1)); vp_assert(same_float(get_float(), v), "field f1 reads back"); verify_Fb(s, o, ov, 8, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_float(ENV->get_field_float_by_name(ENV, ST, o, "f1", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_float(1, v); OK(CALL(s, "viaref_Fb_f1", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_f1", 1)); vp_assert(same_float(get_float(), v), "field stored through a reference"); verify_Fb(s, o, ov, 8, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_o2) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "Int");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fb_o2", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_o2", 1)); vp_assert(same_obj(get_obj(), v), "field o2 reads back"); verify_Fb(s, o, ov, 9, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o2", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fb_i2) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_int v = sym_int("v");
  set_obj(0, o); set_int(1, v); OK(CALL(s, "set_Fb_i2", 2)); vp_assert(same_int(get_int(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_i2", 1)); vp_assert(same_int(get_int(), v), "field i2 reads back"); verify_Fb(s, o, ov, 10, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_int(ENV->get_field_int_by_name(ENV, ST, o, "i2", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_int(1, v); OK(CALL(s, "viaref_Fb_i2", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_i2", 1)); vp_assert(same_int(get_int(), v), "field stored through a reference"); verify_Fb(s, o, ov, 10, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_b3) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fb_b3", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_b3", 1)); vp_assert(same_byte(get_byte(), v), "field b3 reads back"); verify_Fb(s, o, ov, 11, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b3", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fb_b3", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_b3", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fb(s, o, ov, 11, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_d2) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_double v = sym_double("v");
  set_obj(0, o); set_double(1, v); OK(CALL(s, "set_Fb_d2", 2)); vp_assert(same_double(get_double(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_d2", 1)); vp_assert(same_double(get_double(), v), "field d2 reads back"); verify_Fb(s, o, ov, 12, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, o, "d2", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_double(1, v); OK(CALL(s, "viaref_Fb_d2", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_d2", 1)); vp_assert(same_double(get_double(), v), "field stored through a reference"); verify_Fb(s, o, ov, 12, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_o3) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "int[]");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fb_o3", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_o3", 1)); vp_assert(same_obj(get_obj(), v), "field o3 reads back"); verify_Fb(s, o, ov, 13, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o3", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fb_f2) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_float v = sym_float("v");
  set_obj(0, o); set_float(1, v); OK(CALL(s, "set_Fb_f2", 2)); vp_assert(same_float(get_float(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_f2", 1)); vp_assert(same_float(get_float(), v), "field f2 reads back"); verify_Fb(s, o, ov, 14, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_float(ENV->get_field_float_by_name(ENV, ST, o, "f2", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_float(1, v); OK(CALL(s, "viaref_Fb_f2", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_f2", 1)); vp_assert(same_float(get_float(), v), "field stored through a reference"); verify_Fb(s, o, ov, 14, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_b4) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fb_b4", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_b4", 1)); vp_assert(same_byte(get_byte(), v), "field b4 reads back"); verify_Fb(s, o, ov, 15, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b4", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fb_b4", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_b4", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fb(s, o, ov, 15, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_l2) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_long v = sym_long("v");
  set_obj(0, o); set_long(1, v); OK(CALL(s, "set_Fb_l2", 2)); vp_assert(same_long(get_long(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_l2", 1)); vp_assert(same_long(get_long(), v), "field l2 reads back"); verify_Fb(s, o, ov, 16, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_long(ENV->get_field_long_by_name(ENV, ST, o, "l2", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_long(1, v); OK(CALL(s, "viaref_Fb_l2", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_l2", 1)); vp_assert(same_long(get_long(), v), "field stored through a reference"); verify_Fb(s, o, ov, 16, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_o4) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "object");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fb_o4", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_o4", 1)); vp_assert(same_obj(get_obj(), v), "field o4 reads back"); verify_Fb(s, o, ov, 17, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o4", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fb_s3) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fb_s3", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_s3", 1)); vp_assert(same_short(get_short(), v), "field s3 reads back"); verify_Fb(s, o, ov, 18, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s3", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fb_s3", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_s3", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fb(s, o, ov, 18, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_b5) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fb_b5", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_b5", 1)); vp_assert(same_byte(get_byte(), v), "field b5 reads back"); verify_Fb(s, o, ov, 19, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b5", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fb_b5", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_b5", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fb(s, o, ov, 19, 0); verify_Fb(s, o2, ov, -1, 50); }
JOB2(f_Fb_i3) { void* ov[21]; for (int q = 0; q < 21; q++) ov[q] = strchr("bsilfd", T_Fb[q].t[0]) && strcmp(T_Fb[q].t, "string") && strcmp(T_Fb[q].t, "int[]") ? 0 : mko(s, T_Fb[q].t); void* o = mk(s, "new_Fb"); void* o2 = mk(s, "new_Fb"); fill_Fb(s, o, ov, 0); fill_Fb(s, o2, ov, 50); verify_Fb(s, o, ov, -1, 0); c_int v = sym_int("v");
  set_obj(0, o); set_int(1, v); OK(CALL(s, "set_Fb_i3", 2)); vp_assert(same_int(get_int(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fb_i3", 1)); vp_assert(same_int(get_int(), v), "field i3 reads back"); verify_Fb(s, o, ov, 20, 0); verify_Fb(s, o2, ov, -1, 50); int err = 0; vp_assert(same_int(ENV->get_field_int_by_name(ENV, ST, o, "i3", &err, "", "", 0), v) && !err, "native read"); fill_Fb(s, o, ov, 0); set_obj(0, o); set_int(1, v); OK(CALL(s, "viaref_Fb_i3", 2)); set_obj(0, o); OK(CALL(s, "get_Fb_i3", 1)); vp_assert(same_int(get_int(), v), "field stored through a reference"); verify_Fb(s, o, ov, 20, 0); verify_Fb(s, o2, ov, -1, 50); }
static const struct { const char* n; const char* t; } T_Fc[] = { {"b1", "byte"}, {"d1", "double"}, {"s1", "short"}, {"o1", "string"}, {"i1", "int"}, {"b2", "byte"}, {"l1", "long"}, {"s2", "short"}, {"f1", "float"}, {"o2", "Int"}, {"i2", "int"}, {"b3", "byte"}, {"d2", "double"}, {"o3", "int[]"}, {"f2", "float"}, {"b4", "byte"}, {"l2", "long"}, {"o4", "object"}, {"s3", "short"}, {"b5", "byte"}, {"i3", "int"}, {"o5", "Fa"}, {"b6", "byte"}, {"f3", "float"}, {"s4", "short"}, {"d3", "double"} };
static void fill_Fc(SPV* s, void* o, void** ov, int d) { set_obj(0, o); set_byte(1, (c_byte)(1 * 3 + d)); OK(CALL(s, "set_Fc_b1", 2)); set_obj(0, o); set_double(1, (c_double)(2 * 3 + d)); OK(CALL(s, "set_Fc_d1", 2)); set_obj(0, o); set_short(1, (c_short)(3 * 3 + d)); OK(CALL(s, "set_Fc_s1", 2)); set_obj(0, o); set_obj(1, ov[3]); OK(CALL(s, "set_Fc_o1", 2)); set_obj(0, o); set_int(1, (c_int)(5 * 3 + d)); OK(CALL(s, "set_Fc_i1", 2)); set_obj(0, o); set_byte(1, (c_byte)(6 * 3 + d)); OK(CALL(s, "set_Fc_b2", 2)); set_obj(0, o); set_long(1, (c_long)(7 * 3 + d)); OK(CALL(s, "set_Fc_l1", 2)); set_obj(0, o); set_short(1, (c_short)(8 * 3 + d)); OK(CALL(s, "set_Fc_s2", 2)); set_obj(0, o); set_float(1, (c_float)(9 * 3 + d)); OK(CALL(s, "set_Fc_f1", 2)); set_obj(0, o); set_obj(1, ov[9]); OK(CALL(s, "set_Fc_o2", 2)); set_obj(0, o); set_int(1, (c_int)(11 * 3 + d)); OK(CALL(s, "set_Fc_i2", 2)); set_obj(0, o); set_byte(1, (c_byte)(12 * 3 + d)); OK(CALL(s, "set_Fc_b3", 2)); set_obj(0, o); set_double(1, (c_double)(13 * 3 + d)); OK(CALL(s, "set_Fc_d2", 2)); set_obj(0, o); set_obj(1, ov[13]); OK(CALL(s, "set_Fc_o3", 2)); set_obj(0, o); set_float(1, (c_float)(15 * 3 + d)); OK(CALL(s, "set_Fc_f2", 2)); set_obj(0, o); set_byte(1, (c_byte)(16 * 3 + d)); OK(CALL(s, "set_Fc_b4", 2)); set_obj(0, o); set_long(1, (c_long)(17 * 3 + d)); OK(CALL(s, "set_Fc_l2", 2)); set_obj(0, o); set_obj(1, ov[17]); OK(CALL(s, "set_Fc_o4", 2)); set_obj(0, o); set_short(1, (c_short)(19 * 3 + d)); OK(CALL(s, "set_Fc_s3", 2)); set_obj(0, o); set_byte(1, (c_byte)(20 * 3 + d)); OK(CALL(s, "set_Fc_b5", 2)); set_obj(0, o); set_int(1, (c_int)(21 * 3 + d)); OK(CALL(s, "set_Fc_i3", 2)); set_obj(0, o); set_obj(1, ov[21]); OK(CALL(s, "set_Fc_o5", 2)); set_obj(0, o); set_byte(1, (c_byte)(23 * 3 + d)); OK(CALL(s, "set_Fc_b6", 2)); set_obj(0, o); set_float(1, (c_float)(24 * 3 + d)); OK(CALL(s, "set_Fc_f3", 2)); set_obj(0, o); set_short(1, (c_short)(25 * 3 + d)); OK(CALL(s, "set_Fc_s4", 2)); set_obj(0, o); set_double(1, (c_double)(26 * 3 + d)); OK(CALL(s, "set_Fc_d3", 2));  }
static void verify_Fc(SPV* s, void* o, void** ov, int k, int d) { if (k != 0) { set_obj(0, o); OK(CALL(s, "get_Fc_b1", 1)); vp_assert(same_byte(get_byte(), (c_byte)(1 * 3 + d)), "field b1 keeps its value"); } if (k != 1) { set_obj(0, o); OK(CALL(s, "get_Fc_d1", 1)); vp_assert(same_double(get_double(), (c_double)(2 * 3 + d)), "field d1 keeps its value"); } if (k != 2) { set_obj(0, o); OK(CALL(s, "get_Fc_s1", 1)); vp_assert(same_short(get_short(), (c_short)(3 * 3 + d)), "field s1 keeps its value"); } if (k != 3) { set_obj(0, o); OK(CALL(s, "get_Fc_o1", 1)); vp_assert(same_obj(get_obj(), ov[3]), "field o1 keeps its value"); } if (k != 4) { set_obj(0, o); OK(CALL(s, "get_Fc_i1", 1)); vp_assert(same_int(get_int(), (c_int)(5 * 3 + d)), "field i1 keeps its value"); } if (k != 5) { set_obj(0, o); OK(CALL(s, "get_Fc_b2", 1)); vp_assert(same_byte(get_byte(), (c_byte)(6 * 3 + d)), "field b2 keeps its value"); } if (k != 6) { set_obj(0, o); OK(CALL(s, "get_Fc_l1", 1)); vp_assert(same_long(get_long(), (c_long)(7 * 3 + d)), "field l1 keeps its value"); } if (k != 7) { set_obj(0, o); OK(CALL(s, "get_Fc_s2", 1)); vp_assert(same_short(get_short(), (c_short)(8 * 3 + d)), "field s2 keeps its value"); } if (k != 8) { set_obj(0, o); OK(CALL(s, "get_Fc_f1", 1)); vp_assert(same_float(get_float(), (c_float)(9 * 3 + d)), "field f1 keeps its value"); } if (k != 9) { set_obj(0, o); OK(CALL(s, "get_Fc_o2", 1)); vp_assert(same_obj(get_obj(), ov[9]), "field o2 keeps its value"); } if (k != 10) { set_obj(0, o); OK(CALL(s, "get_Fc_i2", 1)); vp_assert(same_int(get_int(), (c_int)(11 * 3 + d)), "field i2 keeps its value"); } if (k != 11) { set_obj(0, o); OK(CALL(s, "get_Fc_b3", 1)); vp_assert(same_byte(get_byte(), (c_byte)(12 * 3 + d)), "field b3 keeps its value"); } if (k != 12) { set_obj(0, o); OK(CALL(s, "get_Fc_d2", 1)); vp_assert(same_double(get_double(), (c_double)(13 * 3 + d)), "field d2 keeps its value"); } if (k != 13) { set_obj(0, o); OK(CALL(s, "get_Fc_o3", 1)); vp_assert(same_obj(get_obj(), ov[13]), "field o3 keeps its value"); } if (k != 14) { set_obj(0, o); OK(CALL(s, "get_Fc_f2", 1)); vp_assert(same_float(get_float(), (c_float)(15 * 3 + d)), "field f2 keeps its value"); } if (k != 15) { set_obj(0, o); OK(CALL(s, "get_Fc_b4", 1)); vp_assert(same_byte(get_byte(), (c_byte)(16 * 3 + d)), "field b4 keeps its value"); } if (k != 16) { set_obj(0, o); OK(CALL(s, "get_Fc_l2", 1)); vp_assert(same_long(get_long(), (c_long)(17 * 3 + d)), "field l2 keeps its value"); } if (k != 17) { set_obj(0, o); OK(CALL(s, "get_Fc_o4", 1)); vp_assert(same_obj(get_obj(), ov[17]), "field o4 keeps its value"); } if (k != 18) { set_obj(0, o); OK(CALL(s, "get_Fc_s3", 1)); vp_assert(same_short(get_short(), (c_short)(19 * 3 + d)), "field s3 keeps its value"); } if (k != 19) { set_obj(0, o); OK(CALL(s, "get_Fc_b5", 1)); vp_assert(same_byte(get_byte(), (c_byte)(20 * 3 + d)), "field b5 keeps its value"); } if (k != 20) { set_obj(0, o); OK(CALL(s, "get_Fc_i3", 1)); vp_assert(same_int(get_int(), (c_int)(21 * 3 + d)), "field i3 keeps its value"); } if (k != 21) { set_obj(0, o); OK(CALL(s, "get_Fc_o5", 1)); vp_assert(same_obj(get_obj(), ov[21]), "field o5 keeps its value"); } if (k != 22) { set_obj(0, o); OK(CALL(s, "get_Fc_b6", 1)); vp_assert(same_byte(get_byte(), (c_byte)(23 * 3 + d)), "field b6 keeps its value"); } if (k != 23) { set_obj(0, o); OK(CALL(s, "get_Fc_f3", 1)); vp_assert(same_float(get_float(), (c_float)(24 * 3 + d)), "field f3 keeps its value"); } if (k != 24) { set_obj(0, o); OK(CALL(s, "get_Fc_s4", 1)); vp_assert(same_short(get_short(), (c_short)(25 * 3 + d)), "field s4 keeps its value"); } if (k != 25) { set_obj(0, o); OK(CALL(s, "get_Fc_d3", 1)); vp_assert(same_double(get_double(), (c_double)(26 * 3 + d)), "field d3 keeps its value"); }  }
JOB2(zero_Fc) { void* o = mk(s, "new_Fc"); set_obj(0, o); OK(CALL(s, "get_Fc_b1", 1)); vp_assert(same_byte(get_byte(), 0), "field b1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_d1", 1)); vp_assert(same_double(get_double(), 0), "field d1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_s1", 1)); vp_assert(same_short(get_short(), 0), "field s1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_o1", 1)); vp_assert(same_obj(get_obj(), 0), "field o1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_i1", 1)); vp_assert(same_int(get_int(), 0), "field i1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_b2", 1)); vp_assert(same_byte(get_byte(), 0), "field b2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_l1", 1)); vp_assert(same_long(get_long(), 0), "field l1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_s2", 1)); vp_assert(same_short(get_short(), 0), "field s2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_f1", 1)); vp_assert(same_float(get_float(), 0), "field f1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_o2", 1)); vp_assert(same_obj(get_obj(), 0), "field o2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_i2", 1)); vp_assert(same_int(get_int(), 0), "field i2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_b3", 1)); vp_assert(same_byte(get_byte(), 0), "field b3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_d2", 1)); vp_assert(same_double(get_double(), 0), "field d2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_o3", 1)); vp_assert(same_obj(get_obj(), 0), "field o3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_f2", 1)); vp_assert(same_float(get_float(), 0), "field f2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_b4", 1)); vp_assert(same_byte(get_byte(), 0), "field b4 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_l2", 1)); vp_assert(same_long(get_long(), 0), "field l2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_o4", 1)); vp_assert(same_obj(get_obj(), 0), "field o4 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_s3", 1)); vp_assert(same_short(get_short(), 0), "field s3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_b5", 1)); vp_assert(same_byte(get_byte(), 0), "field b5 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_i3", 1)); vp_assert(same_int(get_int(), 0), "field i3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_o5", 1)); vp_assert(same_obj(get_obj(), 0), "field o5 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_b6", 1)); vp_assert(same_byte(get_byte(), 0), "field b6 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_f3", 1)); vp_assert(same_float(get_float(), 0), "field f3 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_s4", 1)); vp_assert(same_short(get_short(), 0), "field s4 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fc_d3", 1)); vp_assert(same_double(get_double(), 0), "field d3 starts as zero or undef");  set_obj(0, 0); threw(s, CALL(s, "get_Fc_b1", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fc_b1", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fc_b1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_d1", 1)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "set_Fc_d1", 2)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "viaref_Fc_d1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_s1", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fc_s1", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fc_s1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_o1", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fc_o1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_i1", 1)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "set_Fc_i1", 2)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "viaref_Fc_i1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_b2", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fc_b2", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fc_b2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_l1", 1)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "set_Fc_l1", 2)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "viaref_Fc_l1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_s2", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fc_s2", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fc_s2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_f1", 1)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "set_Fc_f1", 2)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "viaref_Fc_f1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_o2", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fc_o2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_i2", 1)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "set_Fc_i2", 2)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "viaref_Fc_i2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_b3", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fc_b3", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fc_b3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_d2", 1)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "set_Fc_d2", 2)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "viaref_Fc_d2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_o3", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fc_o3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_f2", 1)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "set_Fc_f2", 2)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "viaref_Fc_f2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_b4", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fc_b4", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fc_b4", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_l2", 1)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "set_Fc_l2", 2)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "viaref_Fc_l2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_o4", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fc_o4", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_s3", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fc_s3", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fc_s3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_b5", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fc_b5", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fc_b5", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_i3", 1)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "set_Fc_i3", 2)); set_obj(0, 0); set_int(1, 0); threw(s, CALL(s, "viaref_Fc_i3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_o5", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fc_o5", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_b6", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fc_b6", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fc_b6", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_f3", 1)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "set_Fc_f3", 2)); set_obj(0, 0); set_float(1, 0); threw(s, CALL(s, "viaref_Fc_f3", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_s4", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fc_s4", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fc_s4", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fc_d3", 1)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "set_Fc_d3", 2)); set_obj(0, 0); set_double(1, 0); threw(s, CALL(s, "viaref_Fc_d3", 2));  }
JOB2(f_Fc_b1) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fc_b1", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_b1", 1)); vp_assert(same_byte(get_byte(), v), "field b1 reads back"); verify_Fc(s, o, ov, 0, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b1", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fc_b1", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_b1", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fc(s, o, ov, 0, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_d1) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_double v = sym_double("v");
  set_obj(0, o); set_double(1, v); OK(CALL(s, "set_Fc_d1", 2)); vp_assert(same_double(get_double(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_d1", 1)); vp_assert(same_double(get_double(), v), "field d1 reads back"); verify_Fc(s, o, ov, 1, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, o, "d1", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_double(1, v); OK(CALL(s, "viaref_Fc_d1", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_d1", 1)); vp_assert(same_double(get_double(), v), "field stored through a reference"); verify_Fc(s, o, ov, 1, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_s1) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fc_s1", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_s1", 1)); vp_assert(same_short(get_short(), v), "field s1 reads back"); verify_Fc(s, o, ov, 2, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s1", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fc_s1", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_s1", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fc(s, o, ov, 2, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_o1) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "string");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fc_o1", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_o1", 1)); vp_assert(same_obj(get_obj(), v), "field o1 reads back"); verify_Fc(s, o, ov, 3, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o1", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fc_i1) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_int v = sym_int("v");
  set_obj(0, o); set_int(1, v); OK(CALL(s, "set_Fc_i1", 2)); vp_assert(same_int(get_int(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_i1", 1)); vp_assert(same_int(get_int(), v), "field i1 reads back"); verify_Fc(s, o, ov, 4, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_int(ENV->get_field_int_by_name(ENV, ST, o, "i1", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_int(1, v); OK(CALL(s, "viaref_Fc_i1", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_i1", 1)); vp_assert(same_int(get_int(), v), "field stored through a reference"); verify_Fc(s, o, ov, 4, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_b2) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fc_b2", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_b2", 1)); vp_assert(same_byte(get_byte(), v), "field b2 reads back"); verify_Fc(s, o, ov, 5, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b2", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fc_b2", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_b2", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fc(s, o, ov, 5, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_l1) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_long v = sym_long("v");
  set_obj(0, o); set_long(1, v); OK(CALL(s, "set_Fc_l1", 2)); vp_assert(same_long(get_long(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_l1", 1)); vp_assert(same_long(get_long(), v), "field l1 reads back"); verify_Fc(s, o, ov, 6, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_long(ENV->get_field_long_by_name(ENV, ST, o, "l1", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_long(1, v); OK(CALL(s, "viaref_Fc_l1", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_l1", 1)); vp_assert(same_long(get_long(), v), "field stored through a reference"); verify_Fc(s, o, ov, 6, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_s2) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fc_s2", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_s2", 1)); vp_assert(same_short(get_short(), v), "field s2 reads back"); verify_Fc(s, o, ov, 7, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s2", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fc_s2", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_s2", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fc(s, o, ov, 7, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_f1) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_float v = sym_float("v");
  set_obj(0, o); set_float(1, v); OK(CALL(s, "set_Fc_f1", 2)); vp_assert(same_float(get_float(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_f1", 1)); vp_assert(same_float(get_float(), v), "field f1 reads back"); verify_Fc(s, o, ov, 8, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_float(ENV->get_field_float_by_name(ENV, ST, o, "f1", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_float(1, v); OK(CALL(s, "viaref_Fc_f1", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_f1", 1)); vp_assert(same_float(get_float(), v), "field stored through a reference"); verify_Fc(s, o, ov, 8, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_o2) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "Int");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fc_o2", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_o2", 1)); vp_assert(same_obj(get_obj(), v), "field o2 reads back"); verify_Fc(s, o, ov, 9, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o2", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fc_i2) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_int v = sym_int("v");
  set_obj(0, o); set_int(1, v); OK(CALL(s, "set_Fc_i2", 2)); vp_assert(same_int(get_int(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_i2", 1)); vp_assert(same_int(get_int(), v), "field i2 reads back"); verify_Fc(s, o, ov, 10, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_int(ENV->get_field_int_by_name(ENV, ST, o, "i2", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_int(1, v); OK(CALL(s, "viaref_Fc_i2", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_i2", 1)); vp_assert(same_int(get_int(), v), "field stored through a reference"); verify_Fc(s, o, ov, 10, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_b3) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fc_b3", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_b3", 1)); vp_assert(same_byte(get_byte(), v), "field b3 reads back"); verify_Fc(s, o, ov, 11, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b3", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fc_b3", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_b3", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fc(s, o, ov, 11, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_d2) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_double v = sym_double("v");
  set_obj(0, o); set_double(1, v); OK(CALL(s, "set_Fc_d2", 2)); vp_assert(same_double(get_double(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_d2", 1)); vp_assert(same_double(get_double(), v), "field d2 reads back"); verify_Fc(s, o, ov, 12, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, o, "d2", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_double(1, v); OK(CALL(s, "viaref_Fc_d2", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_d2", 1)); vp_assert(same_double(get_double(), v), "field stored through a reference"); verify_Fc(s, o, ov, 12, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_o3) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "int[]");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fc_o3", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_o3", 1)); vp_assert(same_obj(get_obj(), v), "field o3 reads back"); verify_Fc(s, o, ov, 13, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o3", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fc_f2) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_float v = sym_float("v");
  set_obj(0, o); set_float(1, v); OK(CALL(s, "set_Fc_f2", 2)); vp_assert(same_float(get_float(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_f2", 1)); vp_assert(same_float(get_float(), v), "field f2 reads back"); verify_Fc(s, o, ov, 14, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_float(ENV->get_field_float_by_name(ENV, ST, o, "f2", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_float(1, v); OK(CALL(s, "viaref_Fc_f2", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_f2", 1)); vp_assert(same_float(get_float(), v), "field stored through a reference"); verify_Fc(s, o, ov, 14, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_b4) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fc_b4", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_b4", 1)); vp_assert(same_byte(get_byte(), v), "field b4 reads back"); verify_Fc(s, o, ov, 15, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b4", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fc_b4", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_b4", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fc(s, o, ov, 15, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_l2) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_long v = sym_long("v");
  set_obj(0, o); set_long(1, v); OK(CALL(s, "set_Fc_l2", 2)); vp_assert(same_long(get_long(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_l2", 1)); vp_assert(same_long(get_long(), v), "field l2 reads back"); verify_Fc(s, o, ov, 16, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_long(ENV->get_field_long_by_name(ENV, ST, o, "l2", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_long(1, v); OK(CALL(s, "viaref_Fc_l2", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_l2", 1)); vp_assert(same_long(get_long(), v), "field stored through a reference"); verify_Fc(s, o, ov, 16, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_o4) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "object");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fc_o4", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_o4", 1)); vp_assert(same_obj(get_obj(), v), "field o4 reads back"); verify_Fc(s, o, ov, 17, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o4", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fc_s3) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fc_s3", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_s3", 1)); vp_assert(same_short(get_short(), v), "field s3 reads back"); verify_Fc(s, o, ov, 18, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s3", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fc_s3", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_s3", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fc(s, o, ov, 18, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_b5) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fc_b5", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_b5", 1)); vp_assert(same_byte(get_byte(), v), "field b5 reads back"); verify_Fc(s, o, ov, 19, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b5", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fc_b5", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_b5", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fc(s, o, ov, 19, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_i3) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_int v = sym_int("v");
  set_obj(0, o); set_int(1, v); OK(CALL(s, "set_Fc_i3", 2)); vp_assert(same_int(get_int(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_i3", 1)); vp_assert(same_int(get_int(), v), "field i3 reads back"); verify_Fc(s, o, ov, 20, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_int(ENV->get_field_int_by_name(ENV, ST, o, "i3", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_int(1, v); OK(CALL(s, "viaref_Fc_i3", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_i3", 1)); vp_assert(same_int(get_int(), v), "field stored through a reference"); verify_Fc(s, o, ov, 20, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_o5) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "Fa");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fc_o5", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_o5", 1)); vp_assert(same_obj(get_obj(), v), "field o5 reads back"); verify_Fc(s, o, ov, 21, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "o5", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fc_b6) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fc_b6", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_b6", 1)); vp_assert(same_byte(get_byte(), v), "field b6 reads back"); verify_Fc(s, o, ov, 22, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "b6", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fc_b6", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_b6", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fc(s, o, ov, 22, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_f3) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_float v = sym_float("v");
  set_obj(0, o); set_float(1, v); OK(CALL(s, "set_Fc_f3", 2)); vp_assert(same_float(get_float(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_f3", 1)); vp_assert(same_float(get_float(), v), "field f3 reads back"); verify_Fc(s, o, ov, 23, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_float(ENV->get_field_float_by_name(ENV, ST, o, "f3", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_float(1, v); OK(CALL(s, "viaref_Fc_f3", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_f3", 1)); vp_assert(same_float(get_float(), v), "field stored through a reference"); verify_Fc(s, o, ov, 23, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_s4) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fc_s4", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_s4", 1)); vp_assert(same_short(get_short(), v), "field s4 reads back"); verify_Fc(s, o, ov, 24, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "s4", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fc_s4", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_s4", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fc(s, o, ov, 24, 0); verify_Fc(s, o2, ov, -1, 50); }
JOB2(f_Fc_d3) { void* ov[26]; for (int q = 0; q < 26; q++) ov[q] = strchr("bsilfd", T_Fc[q].t[0]) && strcmp(T_Fc[q].t, "string") && strcmp(T_Fc[q].t, "int[]") ? 0 : mko(s, T_Fc[q].t); void* o = mk(s, "new_Fc"); void* o2 = mk(s, "new_Fc"); fill_Fc(s, o, ov, 0); fill_Fc(s, o2, ov, 50); verify_Fc(s, o, ov, -1, 0); c_double v = sym_double("v");
  set_obj(0, o); set_double(1, v); OK(CALL(s, "set_Fc_d3", 2)); vp_assert(same_double(get_double(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fc_d3", 1)); vp_assert(same_double(get_double(), v), "field d3 reads back"); verify_Fc(s, o, ov, 25, 0); verify_Fc(s, o2, ov, -1, 50); int err = 0; vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, o, "d3", &err, "", "", 0), v) && !err, "native read"); fill_Fc(s, o, ov, 0); set_obj(0, o); set_double(1, v); OK(CALL(s, "viaref_Fc_d3", 2)); set_obj(0, o); OK(CALL(s, "get_Fc_d3", 1)); vp_assert(same_double(get_double(), v), "field stored through a reference"); verify_Fc(s, o, ov, 25, 0); verify_Fc(s, o2, ov, -1, 50); }
static const struct { const char* n; const char* t; } T_Fd[] = { {"x0", "byte"}, {"x1", "byte"}, {"x2", "byte"}, {"y", "long"}, {"z", "byte"} };
static void fill_Fd(SPV* s, void* o, void** ov, int d) { set_obj(0, o); set_byte(1, (c_byte)(1 * 3 + d)); OK(CALL(s, "set_Fd_x0", 2)); set_obj(0, o); set_byte(1, (c_byte)(2 * 3 + d)); OK(CALL(s, "set_Fd_x1", 2)); set_obj(0, o); set_byte(1, (c_byte)(3 * 3 + d)); OK(CALL(s, "set_Fd_x2", 2)); set_obj(0, o); set_long(1, (c_long)(4 * 3 + d)); OK(CALL(s, "set_Fd_y", 2)); set_obj(0, o); set_byte(1, (c_byte)(5 * 3 + d)); OK(CALL(s, "set_Fd_z", 2));  }
static void verify_Fd(SPV* s, void* o, void** ov, int k, int d) { if (k != 0) { set_obj(0, o); OK(CALL(s, "get_Fd_x0", 1)); vp_assert(same_byte(get_byte(), (c_byte)(1 * 3 + d)), "field x0 keeps its value"); } if (k != 1) { set_obj(0, o); OK(CALL(s, "get_Fd_x1", 1)); vp_assert(same_byte(get_byte(), (c_byte)(2 * 3 + d)), "field x1 keeps its value"); } if (k != 2) { set_obj(0, o); OK(CALL(s, "get_Fd_x2", 1)); vp_assert(same_byte(get_byte(), (c_byte)(3 * 3 + d)), "field x2 keeps its value"); } if (k != 3) { set_obj(0, o); OK(CALL(s, "get_Fd_y", 1)); vp_assert(same_long(get_long(), (c_long)(4 * 3 + d)), "field y keeps its value"); } if (k != 4) { set_obj(0, o); OK(CALL(s, "get_Fd_z", 1)); vp_assert(same_byte(get_byte(), (c_byte)(5 * 3 + d)), "field z keeps its value"); }  }
JOB2(zero_Fd) { void* o = mk(s, "new_Fd"); set_obj(0, o); OK(CALL(s, "get_Fd_x0", 1)); vp_assert(same_byte(get_byte(), 0), "field x0 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fd_x1", 1)); vp_assert(same_byte(get_byte(), 0), "field x1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fd_x2", 1)); vp_assert(same_byte(get_byte(), 0), "field x2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fd_y", 1)); vp_assert(same_long(get_long(), 0), "field y starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fd_z", 1)); vp_assert(same_byte(get_byte(), 0), "field z starts as zero or undef");  set_obj(0, 0); threw(s, CALL(s, "get_Fd_x0", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fd_x0", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fd_x0", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fd_x1", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fd_x1", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fd_x1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fd_x2", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fd_x2", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fd_x2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fd_y", 1)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "set_Fd_y", 2)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "viaref_Fd_y", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fd_z", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fd_z", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fd_z", 2));  }
JOB2(f_Fd_x0) { void* ov[5]; for (int q = 0; q < 5; q++) ov[q] = strchr("bsilfd", T_Fd[q].t[0]) && strcmp(T_Fd[q].t, "string") && strcmp(T_Fd[q].t, "int[]") ? 0 : mko(s, T_Fd[q].t); void* o = mk(s, "new_Fd"); void* o2 = mk(s, "new_Fd"); fill_Fd(s, o, ov, 0); fill_Fd(s, o2, ov, 50); verify_Fd(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fd_x0", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fd_x0", 1)); vp_assert(same_byte(get_byte(), v), "field x0 reads back"); verify_Fd(s, o, ov, 0, 0); verify_Fd(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "x0", &err, "", "", 0), v) && !err, "native read"); fill_Fd(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fd_x0", 2)); set_obj(0, o); OK(CALL(s, "get_Fd_x0", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fd(s, o, ov, 0, 0); verify_Fd(s, o2, ov, -1, 50); }
JOB2(f_Fd_x1) { void* ov[5]; for (int q = 0; q < 5; q++) ov[q] = strchr("bsilfd", T_Fd[q].t[0]) && strcmp(T_Fd[q].t, "string") && strcmp(T_Fd[q].t, "int[]") ? 0 : mko(s, T_Fd[q].t); void* o = mk(s, "new_Fd"); void* o2 = mk(s, "new_Fd"); fill_Fd(s, o, ov, 0); fill_Fd(s, o2, ov, 50); verify_Fd(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fd_x1", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fd_x1", 1)); vp_assert(same_byte(get_byte(), v), "field x1 reads back"); verify_Fd(s, o, ov, 1, 0); verify_Fd(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "x1", &err, "", "", 0), v) && !err, "native read"); fill_Fd(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fd_x1", 2)); set_obj(0, o); OK(CALL(s, "get_Fd_x1", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fd(s, o, ov, 1, 0); verify_Fd(s, o2, ov, -1, 50); }
JOB2(f_Fd_x2) { void* ov[5]; for (int q = 0; q < 5; q++) ov[q] = strchr("bsilfd", T_Fd[q].t[0]) && strcmp(T_Fd[q].t, "string") && strcmp(T_Fd[q].t, "int[]") ? 0 : mko(s, T_Fd[q].t); void* o = mk(s, "new_Fd"); void* o2 = mk(s, "new_Fd"); fill_Fd(s, o, ov, 0); fill_Fd(s, o2, ov, 50); verify_Fd(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fd_x2", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fd_x2", 1)); vp_assert(same_byte(get_byte(), v), "field x2 reads back"); verify_Fd(s, o, ov, 2, 0); verify_Fd(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "x2", &err, "", "", 0), v) && !err, "native read"); fill_Fd(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fd_x2", 2)); set_obj(0, o); OK(CALL(s, "get_Fd_x2", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fd(s, o, ov, 2, 0); verify_Fd(s, o2, ov, -1, 50); }
JOB2(f_Fd_y) { void* ov[5]; for (int q = 0; q < 5; q++) ov[q] = strchr("bsilfd", T_Fd[q].t[0]) && strcmp(T_Fd[q].t, "string") && strcmp(T_Fd[q].t, "int[]") ? 0 : mko(s, T_Fd[q].t); void* o = mk(s, "new_Fd"); void* o2 = mk(s, "new_Fd"); fill_Fd(s, o, ov, 0); fill_Fd(s, o2, ov, 50); verify_Fd(s, o, ov, -1, 0); c_long v = sym_long("v");
  set_obj(0, o); set_long(1, v); OK(CALL(s, "set_Fd_y", 2)); vp_assert(same_long(get_long(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fd_y", 1)); vp_assert(same_long(get_long(), v), "field y reads back"); verify_Fd(s, o, ov, 3, 0); verify_Fd(s, o2, ov, -1, 50); int err = 0; vp_assert(same_long(ENV->get_field_long_by_name(ENV, ST, o, "y", &err, "", "", 0), v) && !err, "native read"); fill_Fd(s, o, ov, 0); set_obj(0, o); set_long(1, v); OK(CALL(s, "viaref_Fd_y", 2)); set_obj(0, o); OK(CALL(s, "get_Fd_y", 1)); vp_assert(same_long(get_long(), v), "field stored through a reference"); verify_Fd(s, o, ov, 3, 0); verify_Fd(s, o2, ov, -1, 50); }
JOB2(f_Fd_z) { void* ov[5]; for (int q = 0; q < 5; q++) ov[q] = strchr("bsilfd", T_Fd[q].t[0]) && strcmp(T_Fd[q].t, "string") && strcmp(T_Fd[q].t, "int[]") ? 0 : mko(s, T_Fd[q].t); void* o = mk(s, "new_Fd"); void* o2 = mk(s, "new_Fd"); fill_Fd(s, o, ov, 0); fill_Fd(s, o2, ov, 50); verify_Fd(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fd_z", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fd_z", 1)); vp_assert(same_byte(get_byte(), v), "field z reads back"); verify_Fd(s, o, ov, 4, 0); verify_Fd(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "z", &err, "", "", 0), v) && !err, "native read"); fill_Fd(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fd_z", 2)); set_obj(0, o); OK(CALL(s, "get_Fd_z", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fd(s, o, ov, 4, 0); verify_Fd(s, o2, ov, -1, 50); }
static const struct { const char* n; const char* t; } T_Fe[] = { {"x0", "byte"}, {"x1", "byte"}, {"x2", "byte"}, {"y", "long"}, {"z", "byte"}, {"w", "short"}, {"v", "string"}, {"u", "byte"} };
static void fill_Fe(SPV* s, void* o, void** ov, int d) { set_obj(0, o); set_byte(1, (c_byte)(1 * 3 + d)); OK(CALL(s, "set_Fe_x0", 2)); set_obj(0, o); set_byte(1, (c_byte)(2 * 3 + d)); OK(CALL(s, "set_Fe_x1", 2)); set_obj(0, o); set_byte(1, (c_byte)(3 * 3 + d)); OK(CALL(s, "set_Fe_x2", 2)); set_obj(0, o); set_long(1, (c_long)(4 * 3 + d)); OK(CALL(s, "set_Fe_y", 2)); set_obj(0, o); set_byte(1, (c_byte)(5 * 3 + d)); OK(CALL(s, "set_Fe_z", 2)); set_obj(0, o); set_short(1, (c_short)(6 * 3 + d)); OK(CALL(s, "set_Fe_w", 2)); set_obj(0, o); set_obj(1, ov[6]); OK(CALL(s, "set_Fe_v", 2)); set_obj(0, o); set_byte(1, (c_byte)(8 * 3 + d)); OK(CALL(s, "set_Fe_u", 2));  }
static void verify_Fe(SPV* s, void* o, void** ov, int k, int d) { if (k != 0) { set_obj(0, o); OK(CALL(s, "get_Fe_x0", 1)); vp_assert(same_byte(get_byte(), (c_byte)(1 * 3 + d)), "field x0 keeps its value"); } if (k != 1) { set_obj(0, o); OK(CALL(s, "get_Fe_x1", 1)); vp_assert(same_byte(get_byte(), (c_byte)(2 * 3 + d)), "field x1 keeps its value"); } if (k != 2) { set_obj(0, o); OK(CALL(s, "get_Fe_x2", 1)); vp_assert(same_byte(get_byte(), (c_byte)(3 * 3 + d)), "field x2 keeps its value"); } if (k != 3) { set_obj(0, o); OK(CALL(s, "get_Fe_y", 1)); vp_assert(same_long(get_long(), (c_long)(4 * 3 + d)), "field y keeps its value"); } if (k != 4) { set_obj(0, o); OK(CALL(s, "get_Fe_z", 1)); vp_assert(same_byte(get_byte(), (c_byte)(5 * 3 + d)), "field z keeps its value"); } if (k != 5) { set_obj(0, o); OK(CALL(s, "get_Fe_w", 1)); vp_assert(same_short(get_short(), (c_short)(6 * 3 + d)), "field w keeps its value"); } if (k != 6) { set_obj(0, o); OK(CALL(s, "get_Fe_v", 1)); vp_assert(same_obj(get_obj(), ov[6]), "field v keeps its value"); } if (k != 7) { set_obj(0, o); OK(CALL(s, "get_Fe_u", 1)); vp_assert(same_byte(get_byte(), (c_byte)(8 * 3 + d)), "field u keeps its value"); }  }
JOB2(zero_Fe) { void* o = mk(s, "new_Fe"); set_obj(0, o); OK(CALL(s, "get_Fe_x0", 1)); vp_assert(same_byte(get_byte(), 0), "field x0 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fe_x1", 1)); vp_assert(same_byte(get_byte(), 0), "field x1 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fe_x2", 1)); vp_assert(same_byte(get_byte(), 0), "field x2 starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fe_y", 1)); vp_assert(same_long(get_long(), 0), "field y starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fe_z", 1)); vp_assert(same_byte(get_byte(), 0), "field z starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fe_w", 1)); vp_assert(same_short(get_short(), 0), "field w starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fe_v", 1)); vp_assert(same_obj(get_obj(), 0), "field v starts as zero or undef"); set_obj(0, o); OK(CALL(s, "get_Fe_u", 1)); vp_assert(same_byte(get_byte(), 0), "field u starts as zero or undef");  set_obj(0, 0); threw(s, CALL(s, "get_Fe_x0", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fe_x0", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fe_x0", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fe_x1", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fe_x1", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fe_x1", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fe_x2", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fe_x2", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fe_x2", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fe_y", 1)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "set_Fe_y", 2)); set_obj(0, 0); set_long(1, 0); threw(s, CALL(s, "viaref_Fe_y", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fe_z", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fe_z", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fe_z", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fe_w", 1)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "set_Fe_w", 2)); set_obj(0, 0); set_short(1, 0); threw(s, CALL(s, "viaref_Fe_w", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fe_v", 1)); set_obj(0, 0); set_obj(1, 0); threw(s, CALL(s, "set_Fe_v", 2)); set_obj(0, 0); threw(s, CALL(s, "get_Fe_u", 1)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "set_Fe_u", 2)); set_obj(0, 0); set_byte(1, 0); threw(s, CALL(s, "viaref_Fe_u", 2));  }
JOB2(f_Fe_x0) { void* ov[8]; for (int q = 0; q < 8; q++) ov[q] = strchr("bsilfd", T_Fe[q].t[0]) && strcmp(T_Fe[q].t, "string") && strcmp(T_Fe[q].t, "int[]") ? 0 : mko(s, T_Fe[q].t); void* o = mk(s, "new_Fe"); void* o2 = mk(s, "new_Fe"); fill_Fe(s, o, ov, 0); fill_Fe(s, o2, ov, 50); verify_Fe(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fe_x0", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fe_x0", 1)); vp_assert(same_byte(get_byte(), v), "field x0 reads back"); verify_Fe(s, o, ov, 0, 0); verify_Fe(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "x0", &err, "", "", 0), v) && !err, "native read"); fill_Fe(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fe_x0", 2)); set_obj(0, o); OK(CALL(s, "get_Fe_x0", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fe(s, o, ov, 0, 0); verify_Fe(s, o2, ov, -1, 50); }
JOB2(f_Fe_x1) { void* ov[8]; for (int q = 0; q < 8; q++) ov[q] = strchr("bsilfd", T_Fe[q].t[0]) && strcmp(T_Fe[q].t, "string") && strcmp(T_Fe[q].t, "int[]") ? 0 : mko(s, T_Fe[q].t); void* o = mk(s, "new_Fe"); void* o2 = mk(s, "new_Fe"); fill_Fe(s, o, ov, 0); fill_Fe(s, o2, ov, 50); verify_Fe(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fe_x1", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fe_x1", 1)); vp_assert(same_byte(get_byte(), v), "field x1 reads back"); verify_Fe(s, o, ov, 1, 0); verify_Fe(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "x1", &err, "", "", 0), v) && !err, "native read"); fill_Fe(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fe_x1", 2)); set_obj(0, o); OK(CALL(s, "get_Fe_x1", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fe(s, o, ov, 1, 0); verify_Fe(s, o2, ov, -1, 50); }
JOB2(f_Fe_x2) { void* ov[8]; for (int q = 0; q < 8; q++) ov[q] = strchr("bsilfd", T_Fe[q].t[0]) && strcmp(T_Fe[q].t, "string") && strcmp(T_Fe[q].t, "int[]") ? 0 : mko(s, T_Fe[q].t); void* o = mk(s, "new_Fe"); void* o2 = mk(s, "new_Fe"); fill_Fe(s, o, ov, 0); fill_Fe(s, o2, ov, 50); verify_Fe(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fe_x2", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fe_x2", 1)); vp_assert(same_byte(get_byte(), v), "field x2 reads back"); verify_Fe(s, o, ov, 2, 0); verify_Fe(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "x2", &err, "", "", 0), v) && !err, "native read"); fill_Fe(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fe_x2", 2)); set_obj(0, o); OK(CALL(s, "get_Fe_x2", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fe(s, o, ov, 2, 0); verify_Fe(s, o2, ov, -1, 50); }
JOB2(f_Fe_y) { void* ov[8]; for (int q = 0; q < 8; q++) ov[q] = strchr("bsilfd", T_Fe[q].t[0]) && strcmp(T_Fe[q].t, "string") && strcmp(T_Fe[q].t, "int[]") ? 0 : mko(s, T_Fe[q].t); void* o = mk(s, "new_Fe"); void* o2 = mk(s, "new_Fe"); fill_Fe(s, o, ov, 0); fill_Fe(s, o2, ov, 50); verify_Fe(s, o, ov, -1, 0); c_long v = sym_long("v");
  set_obj(0, o); set_long(1, v); OK(CALL(s, "set_Fe_y", 2)); vp_assert(same_long(get_long(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fe_y", 1)); vp_assert(same_long(get_long(), v), "field y reads back"); verify_Fe(s, o, ov, 3, 0); verify_Fe(s, o2, ov, -1, 50); int err = 0; vp_assert(same_long(ENV->get_field_long_by_name(ENV, ST, o, "y", &err, "", "", 0), v) && !err, "native read"); fill_Fe(s, o, ov, 0); set_obj(0, o); set_long(1, v); OK(CALL(s, "viaref_Fe_y", 2)); set_obj(0, o); OK(CALL(s, "get_Fe_y", 1)); vp_assert(same_long(get_long(), v), "field stored through a reference"); verify_Fe(s, o, ov, 3, 0); verify_Fe(s, o2, ov, -1, 50); }
JOB2(f_Fe_z) { void* ov[8]; for (int q = 0; q < 8; q++) ov[q] = strchr("bsilfd", T_Fe[q].t[0]) && strcmp(T_Fe[q].t, "string") && strcmp(T_Fe[q].t, "int[]") ? 0 : mko(s, T_Fe[q].t); void* o = mk(s, "new_Fe"); void* o2 = mk(s, "new_Fe"); fill_Fe(s, o, ov, 0); fill_Fe(s, o2, ov, 50); verify_Fe(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fe_z", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fe_z", 1)); vp_assert(same_byte(get_byte(), v), "field z reads back"); verify_Fe(s, o, ov, 4, 0); verify_Fe(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "z", &err, "", "", 0), v) && !err, "native read"); fill_Fe(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fe_z", 2)); set_obj(0, o); OK(CALL(s, "get_Fe_z", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fe(s, o, ov, 4, 0); verify_Fe(s, o2, ov, -1, 50); }
JOB2(f_Fe_w) { void* ov[8]; for (int q = 0; q < 8; q++) ov[q] = strchr("bsilfd", T_Fe[q].t[0]) && strcmp(T_Fe[q].t, "string") && strcmp(T_Fe[q].t, "int[]") ? 0 : mko(s, T_Fe[q].t); void* o = mk(s, "new_Fe"); void* o2 = mk(s, "new_Fe"); fill_Fe(s, o, ov, 0); fill_Fe(s, o2, ov, 50); verify_Fe(s, o, ov, -1, 0); c_short v = sym_short("v");
  set_obj(0, o); set_short(1, v); OK(CALL(s, "set_Fe_w", 2)); vp_assert(same_short(get_short(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fe_w", 1)); vp_assert(same_short(get_short(), v), "field w reads back"); verify_Fe(s, o, ov, 5, 0); verify_Fe(s, o2, ov, -1, 50); int err = 0; vp_assert(same_short(ENV->get_field_short_by_name(ENV, ST, o, "w", &err, "", "", 0), v) && !err, "native read"); fill_Fe(s, o, ov, 0); set_obj(0, o); set_short(1, v); OK(CALL(s, "viaref_Fe_w", 2)); set_obj(0, o); OK(CALL(s, "get_Fe_w", 1)); vp_assert(same_short(get_short(), v), "field stored through a reference"); verify_Fe(s, o, ov, 5, 0); verify_Fe(s, o2, ov, -1, 50); }
JOB2(f_Fe_v) { void* ov[8]; for (int q = 0; q < 8; q++) ov[q] = strchr("bsilfd", T_Fe[q].t[0]) && strcmp(T_Fe[q].t, "string") && strcmp(T_Fe[q].t, "int[]") ? 0 : mko(s, T_Fe[q].t); void* o = mk(s, "new_Fe"); void* o2 = mk(s, "new_Fe"); fill_Fe(s, o, ov, 0); fill_Fe(s, o2, ov, 50); verify_Fe(s, o, ov, -1, 0); void* v = vp_choice(2, "undef") ? 0 : mko(s, "string");
  set_obj(0, o); set_obj(1, v); OK(CALL(s, "set_Fe_v", 2)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fe_v", 1)); vp_assert(same_obj(get_obj(), v), "field v reads back"); verify_Fe(s, o, ov, 6, 0); verify_Fe(s, o2, ov, -1, 50); int err = 0; vp_assert(ENV->get_field_object_by_name(ENV, ST, o, "v", &err, "", "", 0) == v && !err, "native read");  }
JOB2(f_Fe_u) { void* ov[8]; for (int q = 0; q < 8; q++) ov[q] = strchr("bsilfd", T_Fe[q].t[0]) && strcmp(T_Fe[q].t, "string") && strcmp(T_Fe[q].t, "int[]") ? 0 : mko(s, T_Fe[q].t); void* o = mk(s, "new_Fe"); void* o2 = mk(s, "new_Fe"); fill_Fe(s, o, ov, 0); fill_Fe(s, o2, ov, 50); verify_Fe(s, o, ov, -1, 0); c_byte v = sym_byte("v");
  set_obj(0, o); set_byte(1, v); OK(CALL(s, "set_Fe_u", 2)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); set_obj(0, o); OK(CALL(s, "get_Fe_u", 1)); vp_assert(same_byte(get_byte(), v), "field u reads back"); verify_Fe(s, o, ov, 7, 0); verify_Fe(s, o2, ov, -1, 50); int err = 0; vp_assert(same_byte(ENV->get_field_byte_by_name(ENV, ST, o, "u", &err, "", "", 0), v) && !err, "native read"); fill_Fe(s, o, ov, 0); set_obj(0, o); set_byte(1, v); OK(CALL(s, "viaref_Fe_u", 2)); set_obj(0, o); OK(CALL(s, "get_Fe_u", 1)); vp_assert(same_byte(get_byte(), v), "field stored through a reference"); verify_Fe(s, o, ov, 7, 0); verify_Fe(s, o2, ov, -1, 50); }
static void cfill(SPV* s, void** ov) { set_byte(0, (c_byte)(0 * 5 + 2)); OK(CALL(s, "cset_V0", 1)); set_double(0, (c_double)(1 * 5 + 2)); OK(CALL(s, "cset_V1", 1)); set_int(0, (c_int)(2 * 5 + 2)); OK(CALL(s, "cset_V2", 1)); set_obj(0, ov[3]); OK(CALL(s, "cset_V3", 1)); set_float(0, (c_float)(4 * 5 + 2)); OK(CALL(s, "cset_V4", 1)); set_short(0, (c_short)(5 * 5 + 2)); OK(CALL(s, "cset_V5", 1)); set_obj(0, ov[2]); OK(CALL(s, "cset_V6", 1)); set_long(0, (c_long)(7 * 5 + 2)); OK(CALL(s, "cset_V7", 1)); set_short(0, (c_short)(8 * 5 + 2)); OK(CALL(s, "cset_V8", 1)); set_obj(0, ov[1]); OK(CALL(s, "cset_V9", 1)); set_long(0, (c_long)(10 * 5 + 2)); OK(CALL(s, "cset_V10", 1)); set_byte(0, (c_byte)(11 * 5 + 2)); OK(CALL(s, "cset_V11", 1)); set_double(0, (c_double)(12 * 5 + 2)); OK(CALL(s, "cset_V12", 1)); set_int(0, (c_int)(13 * 5 + 2)); OK(CALL(s, "cset_V13", 1)); set_obj(0, ov[2]); OK(CALL(s, "cset_V14", 1)); set_float(0, (c_float)(15 * 5 + 2)); OK(CALL(s, "cset_V15", 1)); set_byte(0, (c_byte)(16 * 5 + 2)); OK(CALL(s, "cset_W0", 1)); set_short(0, (c_short)(17 * 5 + 2)); OK(CALL(s, "cset_W1", 1)); set_int(0, (c_int)(18 * 5 + 2)); OK(CALL(s, "cset_W2", 1)); set_long(0, (c_long)(19 * 5 + 2)); OK(CALL(s, "cset_W3", 1)); set_float(0, (c_float)(20 * 5 + 2)); OK(CALL(s, "cset_W4", 1)); set_double(0, (c_double)(21 * 5 + 2)); OK(CALL(s, "cset_W5", 1)); set_obj(0, ov[2]); OK(CALL(s, "cset_W6", 1)); set_obj(0, ov[3]); OK(CALL(s, "cset_W7", 1));}
static void cver(SPV* s, void** ov, int k) { if (k != 0) { OK(CALL(s, "cget_V0", 0)); vp_assert(same_byte(get_byte(), (c_byte)(0 * 5 + 2)), "class variable $V0 keeps its value"); } if (k != 1) { OK(CALL(s, "cget_V1", 0)); vp_assert(same_double(get_double(), (c_double)(1 * 5 + 2)), "class variable $V1 keeps its value"); } if (k != 2) { OK(CALL(s, "cget_V2", 0)); vp_assert(same_int(get_int(), (c_int)(2 * 5 + 2)), "class variable $V2 keeps its value"); } if (k != 3) { OK(CALL(s, "cget_V3", 0)); vp_assert(same_obj(get_obj(), ov[3]), "class variable $V3 keeps its value"); } if (k != 4) { OK(CALL(s, "cget_V4", 0)); vp_assert(same_float(get_float(), (c_float)(4 * 5 + 2)), "class variable $V4 keeps its value"); } if (k != 5) { OK(CALL(s, "cget_V5", 0)); vp_assert(same_short(get_short(), (c_short)(5 * 5 + 2)), "class variable $V5 keeps its value"); } if (k != 6) { OK(CALL(s, "cget_V6", 0)); vp_assert(same_obj(get_obj(), ov[2]), "class variable $V6 keeps its value"); } if (k != 7) { OK(CALL(s, "cget_V7", 0)); vp_assert(same_long(get_long(), (c_long)(7 * 5 + 2)), "class variable $V7 keeps its value"); } if (k != 8) { OK(CALL(s, "cget_V8", 0)); vp_assert(same_short(get_short(), (c_short)(8 * 5 + 2)), "class variable $V8 keeps its value"); } if (k != 9) { OK(CALL(s, "cget_V9", 0)); vp_assert(same_obj(get_obj(), ov[1]), "class variable $V9 keeps its value"); } if (k != 10) { OK(CALL(s, "cget_V10", 0)); vp_assert(same_long(get_long(), (c_long)(10 * 5 + 2)), "class variable $V10 keeps its value"); } if (k != 11) { OK(CALL(s, "cget_V11", 0)); vp_assert(same_byte(get_byte(), (c_byte)(11 * 5 + 2)), "class variable $V11 keeps its value"); } if (k != 12) { OK(CALL(s, "cget_V12", 0)); vp_assert(same_double(get_double(), (c_double)(12 * 5 + 2)), "class variable $V12 keeps its value"); } if (k != 13) { OK(CALL(s, "cget_V13", 0)); vp_assert(same_int(get_int(), (c_int)(13 * 5 + 2)), "class variable $V13 keeps its value"); } if (k != 14) { OK(CALL(s, "cget_V14", 0)); vp_assert(same_obj(get_obj(), ov[2]), "class variable $V14 keeps its value"); } if (k != 15) { OK(CALL(s, "cget_V15", 0)); vp_assert(same_float(get_float(), (c_float)(15 * 5 + 2)), "class variable $V15 keeps its value"); } if (k != 16) { OK(CALL(s, "cget_W0", 0)); vp_assert(same_byte(get_byte(), (c_byte)(16 * 5 + 2)), "class variable $W0 keeps its value"); } if (k != 17) { OK(CALL(s, "cget_W1", 0)); vp_assert(same_short(get_short(), (c_short)(17 * 5 + 2)), "class variable $W1 keeps its value"); } if (k != 18) { OK(CALL(s, "cget_W2", 0)); vp_assert(same_int(get_int(), (c_int)(18 * 5 + 2)), "class variable $W2 keeps its value"); } if (k != 19) { OK(CALL(s, "cget_W3", 0)); vp_assert(same_long(get_long(), (c_long)(19 * 5 + 2)), "class variable $W3 keeps its value"); } if (k != 20) { OK(CALL(s, "cget_W4", 0)); vp_assert(same_float(get_float(), (c_float)(20 * 5 + 2)), "class variable $W4 keeps its value"); } if (k != 21) { OK(CALL(s, "cget_W5", 0)); vp_assert(same_double(get_double(), (c_double)(21 * 5 + 2)), "class variable $W5 keeps its value"); } if (k != 22) { OK(CALL(s, "cget_W6", 0)); vp_assert(same_obj(get_obj(), ov[2]), "class variable $W6 keeps its value"); } if (k != 23) { OK(CALL(s, "cget_W7", 0)); vp_assert(same_obj(get_obj(), ov[3]), "class variable $W7 keeps its value"); }}
JOB2(cv_zero) { OK(CALL(s, "cget_V0", 0)); vp_assert(same_byte(get_byte(), 0), "$V0 starts as zero or undef"); OK(CALL(s, "cget_V1", 0)); vp_assert(same_double(get_double(), 0), "$V1 starts as zero or undef"); OK(CALL(s, "cget_V2", 0)); vp_assert(same_int(get_int(), 0), "$V2 starts as zero or undef"); OK(CALL(s, "cget_V3", 0)); vp_assert(same_obj(get_obj(), 0), "$V3 starts as zero or undef"); OK(CALL(s, "cget_V4", 0)); vp_assert(same_float(get_float(), 0), "$V4 starts as zero or undef"); OK(CALL(s, "cget_V5", 0)); vp_assert(same_short(get_short(), 0), "$V5 starts as zero or undef"); OK(CALL(s, "cget_V6", 0)); vp_assert(same_obj(get_obj(), 0), "$V6 starts as zero or undef"); OK(CALL(s, "cget_V7", 0)); vp_assert(same_long(get_long(), 0), "$V7 starts as zero or undef"); OK(CALL(s, "cget_V8", 0)); vp_assert(same_short(get_short(), 0), "$V8 starts as zero or undef"); OK(CALL(s, "cget_V9", 0)); vp_assert(same_obj(get_obj(), 0), "$V9 starts as zero or undef"); OK(CALL(s, "cget_V10", 0)); vp_assert(same_long(get_long(), 0), "$V10 starts as zero or undef"); OK(CALL(s, "cget_V11", 0)); vp_assert(same_byte(get_byte(), 0), "$V11 starts as zero or undef"); OK(CALL(s, "cget_V12", 0)); vp_assert(same_double(get_double(), 0), "$V12 starts as zero or undef"); OK(CALL(s, "cget_V13", 0)); vp_assert(same_int(get_int(), 0), "$V13 starts as zero or undef"); OK(CALL(s, "cget_V14", 0)); vp_assert(same_obj(get_obj(), 0), "$V14 starts as zero or undef"); OK(CALL(s, "cget_V15", 0)); vp_assert(same_float(get_float(), 0), "$V15 starts as zero or undef"); OK(CALL(s, "cget_W0", 0)); vp_assert(same_byte(get_byte(), 0), "$W0 starts as zero or undef"); OK(CALL(s, "cget_W1", 0)); vp_assert(same_short(get_short(), 0), "$W1 starts as zero or undef"); OK(CALL(s, "cget_W2", 0)); vp_assert(same_int(get_int(), 0), "$W2 starts as zero or undef"); OK(CALL(s, "cget_W3", 0)); vp_assert(same_long(get_long(), 0), "$W3 starts as zero or undef"); OK(CALL(s, "cget_W4", 0)); vp_assert(same_float(get_float(), 0), "$W4 starts as zero or undef"); OK(CALL(s, "cget_W5", 0)); vp_assert(same_double(get_double(), 0), "$W5 starts as zero or undef"); OK(CALL(s, "cget_W6", 0)); vp_assert(same_obj(get_obj(), 0), "$W6 starts as zero or undef"); OK(CALL(s, "cget_W7", 0)); vp_assert(same_obj(get_obj(), 0), "$W7 starts as zero or undef"); }
JOB2(cv_V0) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_byte v = sym_byte("v"); set_byte(0, v); OK(CALL(s, "cset_V0", 1)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); OK(CALL(s, "cget_V0", 0)); vp_assert(same_byte(get_byte(), v), "class variable reads back"); cver(s, ov, 0); int err = 0; vp_assert(same_byte(ENV->get_class_var_byte_by_name(ENV, ST, "VP", "$V0", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V1) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_double v = sym_double("v"); set_double(0, v); OK(CALL(s, "cset_V1", 1)); vp_assert(same_double(get_double(), v), "value of the assignment"); OK(CALL(s, "cget_V1", 0)); vp_assert(same_double(get_double(), v), "class variable reads back"); cver(s, ov, 1); int err = 0; vp_assert(same_double(ENV->get_class_var_double_by_name(ENV, ST, "VP", "$V1", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V2) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_int v = sym_int("v"); set_int(0, v); OK(CALL(s, "cset_V2", 1)); vp_assert(same_int(get_int(), v), "value of the assignment"); OK(CALL(s, "cget_V2", 0)); vp_assert(same_int(get_int(), v), "class variable reads back"); cver(s, ov, 2); int err = 0; vp_assert(same_int(ENV->get_class_var_int_by_name(ENV, ST, "VP", "$V2", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V3) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); void* v = vp_choice(2, "undef") ? 0 : spv_str(s, "w", 1); set_obj(0, v); OK(CALL(s, "cset_V3", 1)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); OK(CALL(s, "cget_V3", 0)); vp_assert(same_obj(get_obj(), v), "class variable reads back"); cver(s, ov, 3); int err = 0; vp_assert(same_obj(ENV->get_class_var_object_by_name(ENV, ST, "VP", "$V3", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V4) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_float v = sym_float("v"); set_float(0, v); OK(CALL(s, "cset_V4", 1)); vp_assert(same_float(get_float(), v), "value of the assignment"); OK(CALL(s, "cget_V4", 0)); vp_assert(same_float(get_float(), v), "class variable reads back"); cver(s, ov, 4); int err = 0; vp_assert(same_float(ENV->get_class_var_float_by_name(ENV, ST, "VP", "$V4", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V5) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_short v = sym_short("v"); set_short(0, v); OK(CALL(s, "cset_V5", 1)); vp_assert(same_short(get_short(), v), "value of the assignment"); OK(CALL(s, "cget_V5", 0)); vp_assert(same_short(get_short(), v), "class variable reads back"); cver(s, ov, 5); int err = 0; vp_assert(same_short(ENV->get_class_var_short_by_name(ENV, ST, "VP", "$V5", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V6) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); void* v = vp_choice(2, "undef") ? 0 : spv_str(s, "w", 1); set_obj(0, v); OK(CALL(s, "cset_V6", 1)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); OK(CALL(s, "cget_V6", 0)); vp_assert(same_obj(get_obj(), v), "class variable reads back"); cver(s, ov, 6); int err = 0; vp_assert(same_obj(ENV->get_class_var_object_by_name(ENV, ST, "VP", "$V6", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V7) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_long v = sym_long("v"); set_long(0, v); OK(CALL(s, "cset_V7", 1)); vp_assert(same_long(get_long(), v), "value of the assignment"); OK(CALL(s, "cget_V7", 0)); vp_assert(same_long(get_long(), v), "class variable reads back"); cver(s, ov, 7); int err = 0; vp_assert(same_long(ENV->get_class_var_long_by_name(ENV, ST, "VP", "$V7", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V8) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_short v = sym_short("v"); set_short(0, v); OK(CALL(s, "cset_V8", 1)); vp_assert(same_short(get_short(), v), "value of the assignment"); OK(CALL(s, "cget_V8", 0)); vp_assert(same_short(get_short(), v), "class variable reads back"); cver(s, ov, 8); int err = 0; vp_assert(same_short(ENV->get_class_var_short_by_name(ENV, ST, "VP", "$V8", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V9) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); void* v = vp_choice(2, "undef") ? 0 : spv_str(s, "w", 1); set_obj(0, v); OK(CALL(s, "cset_V9", 1)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); OK(CALL(s, "cget_V9", 0)); vp_assert(same_obj(get_obj(), v), "class variable reads back"); cver(s, ov, 9); int err = 0; vp_assert(same_obj(ENV->get_class_var_object_by_name(ENV, ST, "VP", "$V9", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V10) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_long v = sym_long("v"); set_long(0, v); OK(CALL(s, "cset_V10", 1)); vp_assert(same_long(get_long(), v), "value of the assignment"); OK(CALL(s, "cget_V10", 0)); vp_assert(same_long(get_long(), v), "class variable reads back"); cver(s, ov, 10); int err = 0; vp_assert(same_long(ENV->get_class_var_long_by_name(ENV, ST, "VP", "$V10", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V11) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_byte v = sym_byte("v"); set_byte(0, v); OK(CALL(s, "cset_V11", 1)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); OK(CALL(s, "cget_V11", 0)); vp_assert(same_byte(get_byte(), v), "class variable reads back"); cver(s, ov, 11); int err = 0; vp_assert(same_byte(ENV->get_class_var_byte_by_name(ENV, ST, "VP", "$V11", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V12) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_double v = sym_double("v"); set_double(0, v); OK(CALL(s, "cset_V12", 1)); vp_assert(same_double(get_double(), v), "value of the assignment"); OK(CALL(s, "cget_V12", 0)); vp_assert(same_double(get_double(), v), "class variable reads back"); cver(s, ov, 12); int err = 0; vp_assert(same_double(ENV->get_class_var_double_by_name(ENV, ST, "VP", "$V12", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V13) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_int v = sym_int("v"); set_int(0, v); OK(CALL(s, "cset_V13", 1)); vp_assert(same_int(get_int(), v), "value of the assignment"); OK(CALL(s, "cget_V13", 0)); vp_assert(same_int(get_int(), v), "class variable reads back"); cver(s, ov, 13); int err = 0; vp_assert(same_int(ENV->get_class_var_int_by_name(ENV, ST, "VP", "$V13", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V14) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); void* v = vp_choice(2, "undef") ? 0 : spv_str(s, "w", 1); set_obj(0, v); OK(CALL(s, "cset_V14", 1)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); OK(CALL(s, "cget_V14", 0)); vp_assert(same_obj(get_obj(), v), "class variable reads back"); cver(s, ov, 14); int err = 0; vp_assert(same_obj(ENV->get_class_var_object_by_name(ENV, ST, "VP", "$V14", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_V15) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_float v = sym_float("v"); set_float(0, v); OK(CALL(s, "cset_V15", 1)); vp_assert(same_float(get_float(), v), "value of the assignment"); OK(CALL(s, "cget_V15", 0)); vp_assert(same_float(get_float(), v), "class variable reads back"); cver(s, ov, 15); int err = 0; vp_assert(same_float(ENV->get_class_var_float_by_name(ENV, ST, "VP", "$V15", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_W0) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_byte v = sym_byte("v"); set_byte(0, v); OK(CALL(s, "cset_W0", 1)); vp_assert(same_byte(get_byte(), v), "value of the assignment"); OK(CALL(s, "cget_W0", 0)); vp_assert(same_byte(get_byte(), v), "class variable reads back"); cver(s, ov, 16); int err = 0; vp_assert(same_byte(ENV->get_class_var_byte_by_name(ENV, ST, "Va", "$W0", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_W1) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_short v = sym_short("v"); set_short(0, v); OK(CALL(s, "cset_W1", 1)); vp_assert(same_short(get_short(), v), "value of the assignment"); OK(CALL(s, "cget_W1", 0)); vp_assert(same_short(get_short(), v), "class variable reads back"); cver(s, ov, 17); int err = 0; vp_assert(same_short(ENV->get_class_var_short_by_name(ENV, ST, "Va", "$W1", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_W2) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_int v = sym_int("v"); set_int(0, v); OK(CALL(s, "cset_W2", 1)); vp_assert(same_int(get_int(), v), "value of the assignment"); OK(CALL(s, "cget_W2", 0)); vp_assert(same_int(get_int(), v), "class variable reads back"); cver(s, ov, 18); int err = 0; vp_assert(same_int(ENV->get_class_var_int_by_name(ENV, ST, "Va", "$W2", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_W3) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_long v = sym_long("v"); set_long(0, v); OK(CALL(s, "cset_W3", 1)); vp_assert(same_long(get_long(), v), "value of the assignment"); OK(CALL(s, "cget_W3", 0)); vp_assert(same_long(get_long(), v), "class variable reads back"); cver(s, ov, 19); int err = 0; vp_assert(same_long(ENV->get_class_var_long_by_name(ENV, ST, "Va", "$W3", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_W4) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_float v = sym_float("v"); set_float(0, v); OK(CALL(s, "cset_W4", 1)); vp_assert(same_float(get_float(), v), "value of the assignment"); OK(CALL(s, "cget_W4", 0)); vp_assert(same_float(get_float(), v), "class variable reads back"); cver(s, ov, 20); int err = 0; vp_assert(same_float(ENV->get_class_var_float_by_name(ENV, ST, "Va", "$W4", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_W5) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); c_double v = sym_double("v"); set_double(0, v); OK(CALL(s, "cset_W5", 1)); vp_assert(same_double(get_double(), v), "value of the assignment"); OK(CALL(s, "cget_W5", 0)); vp_assert(same_double(get_double(), v), "class variable reads back"); cver(s, ov, 21); int err = 0; vp_assert(same_double(ENV->get_class_var_double_by_name(ENV, ST, "Va", "$W5", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_W6) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); void* v = vp_choice(2, "undef") ? 0 : spv_str(s, "w", 1); set_obj(0, v); OK(CALL(s, "cset_W6", 1)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); OK(CALL(s, "cget_W6", 0)); vp_assert(same_obj(get_obj(), v), "class variable reads back"); cver(s, ov, 22); int err = 0; vp_assert(same_obj(ENV->get_class_var_object_by_name(ENV, ST, "Va", "$W6", &err, "", "", 0), v) && !err, "native read"); }
JOB2(cv_W7) { void* ov[4] = { spv_str(s, "a", 1), spv_str(s, "b", 1), spv_str(s, "c", 1), spv_str(s, "d", 1) }; cfill(s, ov); cver(s, ov, -1); void* v = vp_choice(2, "undef") ? 0 : spv_str(s, "w", 1); set_obj(0, v); OK(CALL(s, "cset_W7", 1)); vp_assert(same_obj(get_obj(), v), "value of the assignment"); OK(CALL(s, "cget_W7", 0)); vp_assert(same_obj(get_obj(), v), "class variable reads back"); cver(s, ov, 23); int err = 0; vp_assert(same_obj(ENV->get_class_var_object_by_name(ENV, ST, "Va", "$W7", &err, "", "", 0), v) && !err, "native read"); }
JOB2(m_Pt_3b) { c_byte a[3], v = sym_byte("v"); for (int i = 0; i < 3; i++) { char nm[3] = {'a', '0' + i, 0}; a[i] = sym_byte(nm); } OK(CALL(s, "m_Pt_3b_zero", 0)); vp_assert(get_int() == 1, "starts at zero"); int k = vp_choice(3, "k"), how = vp_choice(3, "how"); for (int w = 0; w < 3; w++) for (int sec = 0; sec < 2; sec++) { for (int i = 0; i < 3; i++) set_byte(i, a[i]); set_byte(3, v); ST[3 + 1].ival = k; ST[3 + 2].ival = w + 10 * sec; ST[3 + 3].ival = how; OK(CALL(s, "m_Pt_3b", 3 + 4)); vp_assert(same_byte(get_byte(), (sec ? a[(w + 1) % 3] : w == k ? v : a[w])), "exactly the named field of the named variable changes"); } }
JOB2(m_Pt_3s) { c_short a[3], v = sym_short("v"); for (int i = 0; i < 3; i++) { char nm[3] = {'a', '0' + i, 0}; a[i] = sym_short(nm); } OK(CALL(s, "m_Pt_3s_zero", 0)); vp_assert(get_int() == 1, "starts at zero"); int k = vp_choice(3, "k"), how = vp_choice(3, "how"); for (int w = 0; w < 3; w++) for (int sec = 0; sec < 2; sec++) { for (int i = 0; i < 3; i++) set_short(i, a[i]); set_short(3, v); ST[3 + 1].ival = k; ST[3 + 2].ival = w + 10 * sec; ST[3 + 3].ival = how; OK(CALL(s, "m_Pt_3s", 3 + 4)); vp_assert(same_short(get_short(), (sec ? a[(w + 1) % 3] : w == k ? v : a[w])), "exactly the named field of the named variable changes"); } }
JOB2(m_Pt_4i) { c_int a[4], v = sym_int("v"); for (int i = 0; i < 4; i++) { char nm[3] = {'a', '0' + i, 0}; a[i] = sym_int(nm); } OK(CALL(s, "m_Pt_4i_zero", 0)); vp_assert(get_int() == 1, "starts at zero"); int k = vp_choice(4, "k"), how = vp_choice(3, "how"); for (int w = 0; w < 4; w++) for (int sec = 0; sec < 2; sec++) { for (int i = 0; i < 4; i++) set_int(i, a[i]); set_int(4, v); ST[4 + 1].ival = k; ST[4 + 2].ival = w + 10 * sec; ST[4 + 3].ival = how; OK(CALL(s, "m_Pt_4i", 4 + 4)); vp_assert(same_int(get_int(), (sec ? a[(w + 1) % 4] : w == k ? v : a[w])), "exactly the named field of the named variable changes"); } }
JOB2(m_Pt_3l) { c_long a[3], v = sym_long("v"); for (int i = 0; i < 3; i++) { char nm[3] = {'a', '0' + i, 0}; a[i] = sym_long(nm); } OK(CALL(s, "m_Pt_3l_zero", 0)); vp_assert(get_int() == 1, "starts at zero"); int k = vp_choice(3, "k"), how = vp_choice(3, "how"); for (int w = 0; w < 3; w++) for (int sec = 0; sec < 2; sec++) { for (int i = 0; i < 3; i++) set_long(i, a[i]); set_long(3, v); ST[3 + 1].ival = k; ST[3 + 2].ival = w + 10 * sec; ST[3 + 3].ival = how; OK(CALL(s, "m_Pt_3l", 3 + 4)); vp_assert(same_long(get_long(), (sec ? a[(w + 1) % 3] : w == k ? v : a[w])), "exactly the named field of the named variable changes"); } }
JOB2(m_Pt_3f) { c_float a[3], v = sym_float("v"); for (int i = 0; i < 3; i++) { char nm[3] = {'a', '0' + i, 0}; a[i] = sym_float(nm); } OK(CALL(s, "m_Pt_3f_zero", 0)); vp_assert(get_int() == 1, "starts at zero"); int k = vp_choice(3, "k"), how = vp_choice(3, "how"); for (int w = 0; w < 3; w++) for (int sec = 0; sec < 2; sec++) { for (int i = 0; i < 3; i++) set_float(i, a[i]); set_float(3, v); ST[3 + 1].ival = k; ST[3 + 2].ival = w + 10 * sec; ST[3 + 3].ival = how; OK(CALL(s, "m_Pt_3f", 3 + 4)); vp_assert(same_float(get_float(), (sec ? a[(w + 1) % 3] : w == k ? v : a[w])), "exactly the named field of the named variable changes"); } }
JOB2(m_Pt_2d) { c_double a[2], v = sym_double("v"); for (int i = 0; i < 2; i++) { char nm[3] = {'a', '0' + i, 0}; a[i] = sym_double(nm); } OK(CALL(s, "m_Pt_2d_zero", 0)); vp_assert(get_int() == 1, "starts at zero"); int k = vp_choice(2, "k"), how = vp_choice(3, "how"); for (int w = 0; w < 2; w++) for (int sec = 0; sec < 2; sec++) { for (int i = 0; i < 2; i++) set_double(i, a[i]); set_double(2, v); ST[2 + 1].ival = k; ST[2 + 2].ival = w + 10 * sec; ST[2 + 3].ival = how; OK(CALL(s, "m_Pt_2d", 2 + 4)); vp_assert(same_double(get_double(), (sec ? a[(w + 1) % 2] : w == k ? v : a[w])), "exactly the named field of the named variable changes"); } }
