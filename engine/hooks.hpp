// Entry points emitted by -fsanitize=thread. The including file defines
//   on_read(a, n), on_write(a, n), on_range(a, n, w)
//   and the atomic_* templates.
#pragma once

#define PLAIN(n)                                                                                   \
    extern "C" void __tsan_read##n(void* p) { on_read((u64) p, n); }                              \
    extern "C" void __tsan_write##n(void* p) { on_write((u64) p, n); }                            \
    extern "C" void __tsan_unaligned_read##n(void* p) { on_read((u64) p, n); }                    \
    extern "C" void __tsan_unaligned_write##n(void* p) { on_write((u64) p, n); }                  \
    extern "C" void __tsan_read_write##n(void* p) { on_read((u64) p, n); on_write((u64) p, n); }  \
    extern "C" void __tsan_unaligned_read_write##n(void* p) { on_read((u64) p, n); on_write((u64) p, n); } \
    extern "C" void __tsan_volatile_read##n(void* p) { on_read((u64) p, n); }                     \
    extern "C" void __tsan_volatile_write##n(void* p) { on_write((u64) p, n); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)

extern "C" void __tsan_init() { core_init(); }
extern "C" void __tsan_func_entry(void*) { on_func(); }
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_update(void** p, void*) { on_write((u64) p, 8); }
extern "C" void __tsan_vptr_read(void** p) { on_read((u64) p, 8); }
extern "C" void* __tsan_memcpy(void* d, const void* s, std::size_t n)
{
    on_range((u64) s, n, false);
    on_range((u64) d, n, true);
    return memcpy(d, s, n);
}
extern "C" void* __tsan_memmove(void* d, const void* s, std::size_t n)
{
    on_range((u64) s, n, false);
    on_range((u64) d, n, true);
    return memmove(d, s, n);
}
extern "C" void* __tsan_memset(void* d, int v, std::size_t n)
{
    on_range((u64) d, n, true);
    return memset(d, v, n);
}
extern "C" void __tsan_read_range(void* p, unsigned long n) { on_range((u64) p, n, false); }
extern "C" void __tsan_write_range(void* p, unsigned long n) { on_range((u64) p, n, true); }

#define ATOMIC(bits, T)                                                                            \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return a_load<T>((T*) a, mo); } \
    extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_store<T>((T*) a, v, mo); } \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>((T*) a, mo, [&](T) { return v; }); } \
    extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return a_rmw<T>((T*) a, mo, [&](T o) { return (T) (o + v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw<T>((T*) a, mo, [&](T o) { return (T) (o - v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>((T*) a, mo, [&](T o) { return (T) (o & v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>((T*) a, mo, [&](T o) { return (T) (o | v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>((T*) a, mo, [&](T o) { return (T) (o ^ v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>((T*) a, mo, [&](T o) { return (T) ~(o & v); }); } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return a_cas<T>((T*) a, c, v, mo, fmo, false); } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return a_cas<T>((T*) a, c, v, mo, fmo, true); } \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { a_cas<T>((T*) a, &c, v, mo, fmo, false); return c; }
ATOMIC(8, u8)
ATOMIC(16, u16)
ATOMIC(32, u32)
ATOMIC(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
extern "C" void __tsan_atomic_signal_fence(int) {}
