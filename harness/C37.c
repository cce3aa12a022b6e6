/*vp {"pc":"","time":150,"replays":150,"hooked":["spvm_api.c","spvm_mutex.c"],"bounds":["two threads with their own runtime stacks that share one object (which owns another): every pair of programs of one operation each (thorough: 3; and of 2 storing, weakening and unweakening ones) out of copy, drop the copy, weaken, unweaken, isweak, store over a weak reference, create and drop an object of their own, weaken their only counted reference to another object, count up and down; every interleaving with at most 2 (thorough: 4) preemptive switches, at the acquisition of any lock and at every access to the reference count, the list of weak references and the block counter made without holding a lock (sequentially consistent memory)","a thread makes a strong reference out of a weak one only while it holds a strong one; each variable belongs to one thread"]} */
#include <stdlib.h>
#include "lang.h"
#include "spvm_object.h"
#include "spvm_runtime.h"
#define T 2
static int active, cur, dn[T + 1], PRE;
static struct { char* p; int w, r; } lk[16]; static int nlk, want[T + 1], kind[T + 1], held[T + 1], hw[T + 1];
static SPVM_ENV* EN; static SPVM_VALUE* stk[T + 1]; static SPVM_OBJECT* O, *O2; static char* watch[8]; static int nw[8], nwatch;
static int sym_op(const char* n, int k) { uint8_t b; vp_symbolic(&b, 1, n); vp_assume(b < k); return vp_concretize(b); }
static int slot(void* l) { for (int i = 0; i < nlk; i++) if (lk[i].p == l) return i; if (nlk > 15) abort(); lk[nlk].p = l; lk[nlk].w = lk[nlk].r = 0; return nlk++; }
static void point(int l, int k) { want[cur] = l; kind[cur] = k; vp_switch(0); want[cur] = -1; }
int vp_hook_wrlock(void* l) { int i = slot(l); if (active && cur) point(i, 1); vp_assert(!lk[i].w && !lk[i].r, "a lock is taken when it is free (no deadlock with itself)"); lk[i].w = 1; held[cur]++; hw[cur]++; return 0; }
int vp_hook_rdlock(void* l) { int i = slot(l); if (active && cur) point(i, 2); vp_assert(!lk[i].w, "a lock is taken for reading when nobody writes (no deadlock with itself)"); lk[i].r++; held[cur]++; return 0; }
int vp_hook_unlock(void* l) { int i = slot(l); vp_assert(lk[i].w || lk[i].r, "only a held lock is released"); if (lk[i].w) { lk[i].w = 0; hw[cur]--; } else lk[i].r--; held[cur]--; return 0; }
static void access_(char* a, int store) { if (!active || !cur) return; for (int i = 0; i < nwatch; i++) if (a >= watch[i] && a < watch[i] + nw[i]) { if (store ? !hw[cur] : !held[cur]) point(-1, 0); vp_assert(i == nwatch - 1 || vp_alive(watch[i]), "no access to an object after it was freed"); return; } }
#define HOOK(n) void __sanitizer_cov_load##n(void* a) { access_(a, 0); } void __sanitizer_cov_store##n(void* a) { access_(a, 1); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16) void __sanitizer_cov_trace_pc(void) {}
static void* BT(SPV* s, const char* c) { return s->env->api->runtime->get_basic_type_by_name(s->rt, c); }
static void watchobj(SPVM_OBJECT* o) { watch[nwatch] = (char*)&o->ref_count; nw[nwatch++] = 4; watch[nwatch] = (char*)&o->weaken_backref_head; nw[nwatch++] = 8; }
// schedules the threads until all are done
static void explore(void) { active = 1; int last = 0, pre = 0; for (int t = 1; t <= T; t++) { dn[t] = 0; want[t] = -1; }
  while (1) { int en[T], n = 0, left = 0, lastok = 0; for (int t = 1; t <= T; t++) if (!dn[t]) { left++; int l = want[t]; if (l < 0 || (kind[t] == 1 ? !lk[l].w && !lk[l].r : !lk[l].w)) { en[n++] = t; lastok |= t == last; } }
    if (!left) break; if (!n) { vp_fail("deadlock: every thread waits for a lock"); return; }
    int pick = n == 1 ? en[0] : lastok && pre >= PRE ? last : en[vp_choice(n, "run")]; if (lastok && pick != last) pre++; last = cur = pick; vp_switch(pick); cur = 0; }
  active = 0; for (int i = 0; i < nlk; i++) vp_assert(!lk[i].w && !lk[i].r, "no lock is left held"); }
static int D(SPV* s, int k) { set_int(0, k); OK(CALL(s, "count", 1)); return get_int(); }
#define NOPS 9
static int prog[T + 1][4], plen, weakmode[T + 1]; static void* v[T + 1], *c[T + 1], *w[T + 1], *own[T + 1], *h[T + 1]; static int newk[T + 1][4], nk;
static void assign(int t, void** ref, void* o) { EN->assign_object(EN, stk[t], ref, o); }
static void body(void* a) { int t = (int)(intptr_t)a; int wk = weakmode[t];
  for (int i = 0; i < plen; i++) { switch (prog[t][i]) {
    case 0: assign(t, &c[t], v[t]); break;
    case 1: assign(t, &c[t], 0); break;
    case 2: vp_assert(EN->weaken(EN, stk[t], &w[t]) == 0, "weaken succeeds"); wk = 1; break;
    case 3: EN->unweaken(EN, stk[t], &w[t]); wk = 0; break;
    case 4: vp_assert(!!EN->isweak(EN, stk[t], &w[t]) == wk, "isweak"); break;
    case 5: assign(t, &w[t], v[t]); wk = 0; break;
    case 6: { void* o = EN->new_object_no_mortal(EN, stk[t], own[t]); vp_assert(o != 0, "an object is created"); int e = 0; EN->set_field_int_by_name(EN, stk[t], o, "k", newk[t][i], &e, __func__, __FILE__, __LINE__); void* x = 0; assign(t, &x, o); assign(t, &x, 0); break; }
    case 8: EN->api->internal->inc_ref_count(EN, stk[t], O); vp_assert(EN->api->internal->get_ref_count(EN, stk[t], O) > 1, "count"); EN->api->internal->dec_ref_count(EN, stk[t], O); break;
    case 7: if (h[t]) { EN->weaken(EN, stk[t], &h[t]); vp_assert(h[t] == 0, "weakening the only reference drops the object"); } break; }
    vp_assert(vp_alive(O) && O->ref_count > 0, "the object stays alive while the thread refers to it"); }
  weakmode[t] = wk; if (t == 1) { assign(t, &v[t], 0); assign(t, &c[t], 0); } else { assign(t, &c[t], 0); assign(t, &v[t], 0); } dn[t] = 1; }
static void shared(SPV* s, int n, int fixed) {
  EN = ENV; active = 0; OK(CALL(s, "reset", 0)); cur = 0; nwatch = 0; PRE = vp_thorough() ? 4 : 2; plen = n; nlk = 0; held[0] = hw[0] = 0;
  { void* warm = 0; ENV->assign_object(ENV, ST, &warm, ENV->new_object_no_mortal(ENV, ST, BT(s, "Ob"))); ENV->assign_object(ENV, ST, &warm, 0); } OK(CALL(s, "reset", 0));
  uint64_t live = vp_live_blocks(); int cnt = ENV->get_memory_blocks_count(ENV, ST);
  for (int t = 1; t <= T; t++) { for (int i = 0; i < n; i++) { static const int weakops[] = { 2, 5, 3, 0 }; prog[t][i] = fixed ? weakops[sym_op("operation", fixed)] : sym_op("operation", NOPS); } }
  for (int t = 1; t <= T; t++) { stk[t] = ENV->new_stack(ENV); held[t] = hw[t] = 0; weakmode[t] = sym_op("weak at first", 2); own[t] = BT(s, "Ob"); }
  void* first = 0; ENV->assign_object(ENV, ST, &first, ENV->new_object_no_mortal(ENV, ST, BT(s, "Ob"))); O = first; int e = 0; ENV->set_field_int_by_name(ENV, ST, O, "k", 1, &e, __func__, __FILE__, __LINE__);
  void* kid = ENV->new_object_no_mortal(ENV, ST, BT(s, "Ob")); O2 = kid; ENV->set_field_object_by_name(ENV, ST, O, "o", kid, &e, __func__, __FILE__, __LINE__); OK(e);
  ENV->set_field_int_by_name(ENV, ST, kid, "k", nk = 2, &e, __func__, __FILE__, __LINE__);  for (int t = 1; t <= T; t++) { v[t] = c[t] = w[t] = h[t] = 0; ENV->assign_object(ENV, ST, &v[t], O); ENV->assign_object(ENV, ST, &w[t], O); if (weakmode[t]) ENV->weaken(ENV, ST, &w[t]); h[t] = 0; for (int i = 0; i < n; i++) { if (prog[t][i] == 6) newk[t][i] = ++nk; if (prog[t][i] == 7 && !h[t]) { ENV->assign_object(ENV, ST, &h[t], ENV->new_object_no_mortal(ENV, ST, BT(s, "Ob"))); ENV->set_field_int_by_name(ENV, ST, h[t], "k", ++nk, &e, __func__, __FILE__, __LINE__); } } }
  ENV->assign_object(ENV, ST, &first, 0); SPVM_RUNTIME* rt = ENV->runtime; watchobj(O); watchobj(O2); watch[nwatch] = (char*)&rt->memory_blocks_count; nw[nwatch++] = 4;
  for (int t = 1; t <= T; t++) vp_spawn(body, (void*)(intptr_t)t);
  explore();
  int strong = 0; for (int t = 1; t <= T; t++) strong += !weakmode[t];
  if (strong) { vp_assert(vp_alive(O) && D(s, 1) == 0 && O->ref_count == strong, "the object is alive with one count per remaining strong reference"); }
  else vp_assert(!vp_alive(O) && w[1] == 0 && w[2] == 0 && D(s, 1) == 1, "after the last strong reference the object is destroyed exactly once and the weak references are undef");
  for (int t = 1; t <= T; t++) ENV->assign_object(ENV, ST, &w[t], 0);
  vp_assert(D(s, 1) == 1, "the object is destroyed exactly once"); for (int k = 2; k < 12; k++) vp_assert(D(s, k) == (k <= nk), "every other object is destroyed exactly once"); for (int t = 1; t <= T; t++) ENV->free_stack(ENV, stk[t]);
  vp_assert(vp_live_blocks() == live, "memory balance"); vp_assert(ENV->get_memory_blocks_count(ENV, ST) == cnt, "the number of memory blocks is counted exactly"); vp_reach("schedule"); }
JOBV(one) { shared(s, 1, 0); }
JOBV(two) { shared(s, 2, vp_thorough() ? 0 : 3); }
