// Library code compiled with -fsanitize=thread calls these around every memory access and function; each one is a place
// where the simulated scheduler may move the baton. No race detector is linked: what counts is what the callers observe.
#include "core.h"
#include <atomic>
#define TICK seam::tick((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { TICK; }
void __tsan_func_exit() { TICK; }
void __tsan_vptr_update(void **, void *) { TICK; }
void __tsan_vptr_read(void **) { TICK; }
void __tsan_read_range(void *, unsigned long) { TICK; }
void __tsan_write_range(void *, unsigned long) { TICK; }
#define ACC(n) \
    void __tsan_read##n(void *) { TICK; } void __tsan_write##n(void *) { TICK; } \
    void __tsan_unaligned_read##n(void *) { TICK; } void __tsan_unaligned_write##n(void *) { TICK; } \
    void __tsan_volatile_read##n(void *) { TICK; } void __tsan_volatile_write##n(void *) { TICK; } \
    void __tsan_unaligned_volatile_read##n(void *) { TICK; } void __tsan_unaligned_volatile_write##n(void *) { TICK; } \
    void __tsan_read##n##_pc(void *, void *) { TICK; } void __tsan_write##n##_pc(void *, void *) { TICK; }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
// one thread runs at a time, so plain sequentially consistent operations will do
#define ATO(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { TICK; return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { TICK; __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { TICK; return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { TICK; return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { TICK; return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { TICK; return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { TICK; return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { TICK; return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { TICK; return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { TICK; return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { TICK; return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { TICK; __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
void __tsan_atomic_thread_fence(int) { TICK; }
void __tsan_atomic_signal_fence(int) { TICK; }
}
