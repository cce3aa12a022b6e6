// Interface between harness code and the symbolic executor (and the native replay of the same code).
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
void vp_symbolic(void* p, size_t n, const char* name);      // n fresh symbolic bytes
uint32_t vp_i32(const char* name); uint64_t vp_i64(const char* name);
void vp_assume(int c); void vp_assert(int c, const char* msg); void vp_fail(const char* msg);
void vp_observe(uint64_t v);                                 // compared between symbolic and native runs
void vp_reach(const char* label); void vp_must(const char* label);   // vacuity witnesses
uint32_t vp_choice(uint32_t n, const char* name);            // explores every value below n
uint64_t vp_concretize(uint64_t v);                          // explores every value of v
uint64_t vp_pick(uint64_t v);                                // fixes v to one value (counted, reported)
int vp_is_symbolic(uint64_t v); int vp_is_native(void);
void vp_fail_alloc(int k);                                   // the k-th allocation from now fails (-1: none)
uint64_t vp_alloc_seq(void); uint64_t vp_live_blocks(void); int vp_alive(void* p); uint64_t vp_block_size(void* p);
int vp_held_locks(void); int vp_spawn(void (*f)(void*), void* a); void vp_switch(int k);   // cooperative threads; 0 is the caller
void vp_dead(void); void vp_note(const char*, uint64_t);
int vp_thorough(void);                                       // 1 in the thorough tier
static inline void vp_cover(int c, const char* l) { vp_must(l); if (c) vp_reach(l); }   // forks
#endif
