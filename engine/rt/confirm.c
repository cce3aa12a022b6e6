// Native side of the vp_* interface for the sanitizer build that confirms a counterexample: reads recorded
// inputs ("name hex" lines) and runs one job. Exit 0: completes; 42: assertion failed; anything else: crash.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <dlfcn.h>
#include <malloc.h>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
static FILE* in; static long fail_at = -1; static unsigned long seq, live;
#define LIM (1ULL<<35)
static int fails(size_t n) { seq++; if (fail_at >= 0) { if (fail_at == 0) { fail_at = -1; return 1; } fail_at--; } return n > LIM; }
void* vp_malloc(size_t n) { if (fails(n)) return 0; void* p = malloc(n); if (p) { live++; if (n <= 65536) memset(p, 0xA5, n); } return p; }
void* vp_calloc(size_t n, size_t s) { unsigned __int128 t = (unsigned __int128)n * s; if (fails(t > LIM ? LIM + 1 : (size_t)t)) return 0; void* p = calloc(n, s); if (p) live++; return p; }
void vp_free(void* p) { if (p) live--; free(p); }
void* vp_realloc(void* p, size_t n) { if (fails(n)) return 0; if (!p) live++; return realloc(p, n); }
char* vp_strdup(const char* s) { char* q = vp_malloc(strlen(s) + 1); if (q) strcpy(q, s); return q; }
static void next(const char* nm, void* p, size_t n) { char name[256]; static char hex[1 << 20]; hex[0] = 0; if (!in || fscanf(in, "%255s %1048575s", name, hex) < 1) { fprintf(stderr, "out of inputs at %s\n", nm); _exit(3); } char nb[256]; snprintf(nb, 256, "%s", nm); for (char* q = nb; *q; q++) if (*q == ' ') *q = '_'; if (strcmp(name, nb)) { fprintf(stderr, "input mismatch %s vs %s\n", name, nm); _exit(3); } for (size_t i = 0; i < n; i++) { unsigned b = 0; sscanf(hex + 2 * i, "%2x", &b); ((unsigned char*)p)[i] = b; } }
void vp_symbolic(void* p, size_t n, const char* nm) { if (n) next(nm, p, n); }
uint32_t vp_i32(const char* nm) { uint32_t v; next(nm, &v, 4); return v; }
uint64_t vp_i64(const char* nm) { uint64_t v; next(nm, &v, 8); return v; }
void vp_assume(int c) { if (!c) { fprintf(stderr, "assumption does not hold\n"); _exit(3); } }
void vp_assert(int c, const char* m) { if (!c) { fprintf(stderr, "ASSERTION FAILED: %s\n", m); _exit(42); } }
void vp_fail(const char* m) { vp_assert(0, m); }
void vp_observe(uint64_t v) {} void vp_reach(const char* l) {} void vp_must(const char* l) {} void vp_dead(void) {} void vp_note(const char* m, uint64_t v) {}
uint32_t vp_choice(uint32_t n, const char* nm) { uint32_t v; next(nm, &v, 4); if (v >= n) _exit(3); return v; }
uint64_t vp_concretize(uint64_t v) { return v; } uint64_t vp_pick(uint64_t v) { return v; } int vp_is_symbolic(uint64_t v) { return 0; } int vp_is_native(void) { return 1; }
void vp_fail_alloc(int k) { fail_at = k; } uint64_t vp_alloc_seq(void) { return seq; } uint64_t vp_live_blocks(void) { return live; }
int vp_alive(void* p) { return 1; } uint64_t vp_block_size(void* p) { return malloc_usable_size(p); } int vp_held_locks(void) { return 0; } int vp_thorough(void) { const char* t = getenv("VP_TIER"); return t && !strcmp(t, "thorough"); }
double vp_uf_str(int k, const char* p, size_t n) { return 0; } int vp_fmt_double(char* b, size_t n, const char* f, double d) { return snprintf(b, n, f, d); } int vp_fmt_int(char* b, const char* f, uint64_t v) { return sprintf(b, f, v); }
// threads of the code under test: real threads, of which only the one switched to runs
static struct { sem_t s; pthread_t t; void (*f)(void*); void* a; int done; } vp_th[8]; static int vp_nth = 1, vp_cur;
static void* vp_thmain(void* p) { int k = (int)(intptr_t)p; sem_wait(&vp_th[k].s); vp_th[k].f(vp_th[k].a); vp_th[k].done = 1; vp_cur = 0; sem_post(&vp_th[0].s); return 0; }

int vp_spawn(void (*f)(void*), void* a) { int k = vp_nth++; if (k > 7) _exit(94); if (k == 1) sem_init(&vp_th[0].s, 0, 0); sem_init(&vp_th[k].s, 0, 0); vp_th[k].f = f; vp_th[k].a = a; if (pthread_create(&vp_th[k].t, 0, vp_thmain, (void*)(intptr_t)k)) _exit(95); return k; }
void vp_switch(int k) { int me = vp_cur; if (k == me) return; if (vp_th[k].done) _exit(96); vp_cur = k; sem_post(&vp_th[k].s); sem_wait(&vp_th[me].s); }
static int lk_hook(const char* n, void* l, int (*d)(pthread_rwlock_t*)) { int (*h)(void*) = (int (*)(void*))dlsym(RTLD_DEFAULT, n); return h ? h(l) : d((pthread_rwlock_t*)l); }
int vp_lk_wrlock(void* l) { return lk_hook("vp_hook_wrlock", l, pthread_rwlock_wrlock); } int vp_lk_rdlock(void* l) { return lk_hook("vp_hook_rdlock", l, pthread_rwlock_rdlock); } int vp_lk_unlock(void* l) { return lk_hook("vp_hook_unlock", l, pthread_rwlock_unlock); }
int main(int c, char** v) { alarm(30); void (*f)(void);
  if (c > 1 && (f = (void (*)(void))dlsym(RTLD_DEFAULT, "vp_gen"))) { if (!strcmp(v[1], "gen")) { ((void (*)(const char*))f)(v[2]); return 0; } }
  if (c < 3) return 3; in = fopen(v[2], "r"); char nm[300];
  if ((f = (void (*)(void))dlsym(RTLD_DEFAULT, "vp_setup"))) f(); live = 0;
  snprintf(nm, sizeof nm, "prep_%s", v[1] + 4); if ((f = (void (*)(void))dlsym(RTLD_DEFAULT, nm))) f();
  f = (void (*)(void))dlsym(RTLD_DEFAULT, v[1]); if (!f) { fprintf(stderr, "no job %s\n", v[1]); return 3; } f(); return 0; }
