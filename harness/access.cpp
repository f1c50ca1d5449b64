// Every plain memory access of the code under test, delivered to the happens-before log.
// The harness is compiled with -fsanitize=thread (instrumentation only) and linked with these functions
// instead of the ThreadSanitizer run-time library.  Accesses to the registered range (the container object,
// without its mutexes, condition variables and atomics) are passed to accHook.
#include <cstddef>
#include <cstdint>
#include <cstring>
uintptr_t accLo = 1, accHi = 0;
void (*accHook)(uintptr_t, bool) = nullptr;
static bool inside = false;
static inline void acc(const void* p, bool w)
{
    auto a = (uintptr_t)p;
    if (a < accLo || a >= accHi || inside || !accHook) return;
    inside = true;
    accHook(a, w);
    inside = false;
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
#define RW(n) \
    void __tsan_read##n(void* p) { acc(p, false); } \
    void __tsan_write##n(void* p) { acc(p, true); } \
    void __tsan_unaligned_read##n(void* p) { acc(p, false); } \
    void __tsan_unaligned_write##n(void* p) { acc(p, true); } \
    void __tsan_volatile_read##n(void* p) { acc(p, false); } \
    void __tsan_volatile_write##n(void* p) { acc(p, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { acc(p, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { acc(p, true); } \
    void __tsan_read_write##n(void* p) { acc(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(char* p, unsigned long n, bool w)
{
    for (unsigned long i = 0; i < n; i += 8) acc(p + i, w);
}
void __tsan_read_range(void* p, unsigned long n) { range((char*)p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { range((char*)p, n, true); }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { return __atomic_load_n(a, 5); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) \
    { return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) \
    { return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
