// Entry points of the thread-sanitizer instrumentation (tsan build of the key
// derivation code): every instrumented access to static data is a point where
// another thread may be scheduled; other accesses rarely are.
#include "sim.h"
static inline void at(const void *a) {
	World *w = W;
	if (!w || !w->cur || w->tasks.size() < 2) return;
	if (in_simstate(a)) { sim_yield(); return; }
	if ((w->heap_yield = w->heap_yield * 6364136223846793005ull + 1442695040888963407ull) >> 54 == 0) sim_yield();
}
extern "C" {
#define RW(n) void __tsan_read##n(void *a) { at(a); } void __tsan_write##n(void *a) { at(a); } \
	void __tsan_volatile_read##n(void *a) { at(a); } void __tsan_volatile_write##n(void *a) { at(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) void __tsan_unaligned_read##n(void *a) { at(a); } void __tsan_unaligned_write##n(void *a) { at(a); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void *a, size_t) { at(a); }
void __tsan_write_range(void *a, size_t) { at(a); }
void __tsan_vptr_update(void **a, void *) { at(a); }
void __tsan_func_entry(void *a) { at(a); }
void __tsan_func_exit(void) { at(nullptr); }
void __tsan_init(void) {}
#define AT(b, t) \
	t __tsan_atomic##b##_load(const volatile t *a, int) { at((const void *)a); return *a; } \
	void __tsan_atomic##b##_store(volatile t *a, t v, int) { at((const void *)a); *a = v; } \
	t __tsan_atomic##b##_exchange(volatile t *a, t v, int) { at((const void *)a); t o = *a; *a = v; return o; } \
	t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int) { at((const void *)a); t o = *a; *a = (t)(o + v); return o; } \
	t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int) { at((const void *)a); t o = *a; *a = (t)(o - v); return o; } \
	t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int) { at((const void *)a); t o = *a; *a = (t)(o & v); return o; } \
	t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int) { at((const void *)a); t o = *a; *a = (t)(o | v); return o; } \
	t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int) { at((const void *)a); t o = *a; *a = (t)(o ^ v); return o; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int, int) { at((const void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int, int) { at((const void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t c, t v, int, int) { at((const void *)a); t o = *a; if (o == c) *a = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { at(nullptr); }
void __tsan_atomic_signal_fence(int) {}
}
