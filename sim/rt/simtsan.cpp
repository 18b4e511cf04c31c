// Entry points that -fsanitize=thread instrumentation calls: every memory access of the code under
// test is one simulator step (possible preemption, crash point, progress budget).
#include "siminternal.h"
using namespace sim;
#define STEP() do { if (__builtin_expect(++g_step >= g_next, 0)) slowStep(); } while (0)
extern "C" {
void __tsan_init() {}
#define RW(n) void __tsan_read##n(void *) { STEP(); } void __tsan_write##n(void *) { STEP(); } \
    void __tsan_unaligned_read##n(void *) { STEP(); } void __tsan_unaligned_write##n(void *) { STEP(); } \
    void __tsan_read##n##_pc(void *, void *) { STEP(); } void __tsan_write##n##_pc(void *, void *) { STEP(); } \
    void __tsan_volatile_read##n(void *) { STEP(); } void __tsan_volatile_write##n(void *) { STEP(); } \
    void __tsan_unaligned_volatile_read##n(void *) { STEP(); } void __tsan_unaligned_volatile_write##n(void *) { STEP(); } \
    void __tsan_read_write##n(void *) { STEP(); } void __tsan_unaligned_read_write##n(void *) { STEP(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, unsigned long) { STEP(); }
void __tsan_write_range(void *, unsigned long) { STEP(); }
void __tsan_vptr_update(void **, void *) { STEP(); }
void __tsan_vptr_read(void **) { STEP(); }
void __tsan_func_entry(void *) { 
    if (g_active) { uint64_t h = (uint64_t) __builtin_return_address(0) * 0x9E3779B97F4A7C15ull >> 48; sh->funcBits[h >> 3] |= 1 << (h & 7); }
    STEP(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_acquire(void *) {}
void __tsan_release(void *) {}
#define AT(T, n) \
T __tsan_atomic##n##_load(const volatile T *a, int) { STEP(); T r = *a; return r; } \
void __tsan_atomic##n##_store(volatile T *a, T v, int) { STEP(); *a = v; } \
T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { STEP(); T r = *a; *a = v; return r; } \
T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { STEP(); T r = *a; *a = r + v; return r; } \
T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { STEP(); T r = *a; *a = r - v; return r; } \
T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { STEP(); T r = *a; *a = r & v; return r; } \
T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { STEP(); T r = *a; *a = r | v; return r; } \
T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { STEP(); T r = *a; *a = r ^ v; return r; } \
T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { STEP(); T r = *a; *a = ~(r & v); return r; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { STEP(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { STEP(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { STEP(); T r = *a; if (r == c) *a = v; return r; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
void __tsan_atomic_thread_fence(int) { STEP(); }
void __tsan_atomic_signal_fence(int) {}
}
