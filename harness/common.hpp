// Elements, heaps and memory policies shared by the harnesses. Instrumented code.
#pragma once
#include "../engine/rt.hpp"
#include <initializer_list>
#include <cstdio>
#include <cstring>
#include <functional>
#define IMMER_HAS_LIBGC 1
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/gc_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/tags.hpp>
#include <immer/lock/no_lock_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <immer/transience/gc_transience_policy.hpp>
#include <immer/transience/no_transience_policy.hpp>
#include <type_traits>
#include <utility>

using mc::fk;
using mc::u32;
using mc::u64;
using mc::vk;

constexpr u64 TAG_VAL   = 0xE1E5ull << 48;
constexpr u64 TAG_MOVED = 0xE1E6ull << 48;
constexpr u64 TAG_DEAD  = 0xDEADull << 48;
constexpr u64 TAG_KEY   = 0xE1E7ull << 48;

// ---------------------------------------------------------------- heaps
struct mc_heap
{
    template <class... Tags>
    static constexpr u32 tag()
    {
        return (false || ... || std::is_same_v<Tags, immer::norefs_tag>) ? mc::tag_norefs : mc::tag_none;
    }
    template <class... Tags>
    static void* allocate(std::size_t n, Tags...)
    {
        return mc::alloc(n, tag<Tags...>());
    }
    template <class... Tags>
    static void deallocate(std::size_t n, void* p, Tags...)
    {
        mc::dealloc(p, n, tag<Tags...>());
    }
};

// The library's own gc_heap, over the runtime's collector: what is allocated may be collected when the runtime finds
// it unreachable, and what comes from GC_malloc_atomic is not searched.
static bool gc_is_ready = !IMMER_GC_REQUIRE_INIT_;
static void* gc_give(std::size_t n, u32 tag) noexcept
{
    if (!gc_is_ready)
        mc::violation(vk::memory, "the collector is used before GC_INIT");
    try {
        return mc::alloc(n, tag);
    } catch (...) { // out of memory
        return nullptr;
    }
}
extern "C" void* GC_malloc(std::size_t n) { return gc_give(n, mc::tag_none); }
extern "C" void* GC_malloc_atomic(std::size_t n) { return gc_give(n, mc::tag_norefs); }
extern "C" void GC_free(void* p) { mc::dealloc(p, 0, mc::tag_none, false); }
extern "C" void GC_init() { gc_is_ready = true; }

// ---------------------------------------------------------------- policies
#ifndef MC_POLICY
#define MC_POLICY 0
#endif
namespace pol {
using rc = immer::memory_policy<immer::heap_policy<mc_heap>, immer::refcount_policy, immer::spinlock_policy>;
using rc_flip =
    immer::memory_policy<immer::heap_policy<mc_heap>, immer::refcount_policy, immer::spinlock_policy,
                         immer::get_transience_policy_t<immer::refcount_policy>,
                         !immer::get_prefer_fewer_bigger_objects_v<immer::heap_policy<mc_heap>>>;
using unsafe_rc =
    immer::memory_policy<immer::heap_policy<mc_heap>, immer::unsafe_refcount_policy, immer::no_lock_policy>;
using gc = immer::memory_policy<immer::heap_policy<immer::gc_heap>, immer::no_refcount_policy, immer::spinlock_policy,
                                immer::gc_transience_policy, true>;
// with what the library makes of the rest
using gc_split = immer::memory_policy<immer::heap_policy<immer::gc_heap>, immer::no_refcount_policy, immer::spinlock_policy>;
// no in-place mutation through r-values
using rc_norv =
    immer::memory_policy<immer::heap_policy<mc_heap>, immer::refcount_policy, immer::spinlock_policy,
                         immer::get_transience_policy_t<immer::refcount_policy>,
                         immer::get_prefer_fewer_bigger_objects_v<immer::heap_policy<mc_heap>>, false>;
// what a caching heap gives out and takes back is watched from outside
template <class Inner>
struct track_heap
{
    template <class... Tags>
    static void* allocate(std::size_t n, Tags... t)
    {
        auto before = mc::alloc_count();
        void* p     = Inner::allocate(n, t...);
        if (mc::alloc_count() == before)
            mc::cached_blocks(-1);
        mc::user_take(p, n);
        return p;
    }
    template <class... Tags>
    static void deallocate(std::size_t n, void* p, Tags... t)
    {
        auto before = mc::live_blocks();
        mc::user_give(p, n);
        Inner::deallocate(n, p, t...);
        if (mc::live_blocks() == before)
            mc::cached_blocks(+1);
    }
};
template <class P>
struct track_policy
{
    using type = mc_heap;
    template <std::size_t Size>
    struct optimized
    {
        using type = track_heap<typename P::template optimized<Size>::type>;
    };
};
using freelist = immer::memory_policy<track_policy<immer::free_list_heap_policy<mc_heap, 4>>, immer::refcount_policy,
                                      immer::spinlock_policy>;
using unsafe_freelist = immer::memory_policy<track_policy<immer::unsafe_free_list_heap_policy<mc_heap, 4>>,
                                             immer::unsafe_refcount_policy, immer::no_lock_policy>;
using dflt = immer::default_memory_policy;
} // namespace pol
#if MC_POLICY == 0
using Policy = pol::rc;
#elif MC_POLICY == 1
using Policy = pol::unsafe_rc;
#elif MC_POLICY == 2
using Policy = pol::gc;
#elif MC_POLICY == 3
using Policy = pol::freelist;
#elif MC_POLICY == 4
using Policy = pol::rc_flip;
#elif MC_POLICY == 5
using Policy = pol::rc_norv;
#elif MC_POLICY == 6
using Policy = pol::gc_split;
#elif MC_POLICY == 7
using Policy = pol::unsafe_freelist;
#elif MC_POLICY == 8
using Policy = pol::dflt;
#endif
#define MC_NO_RVALUES (MC_POLICY == 2 || MC_POLICY == 5 || MC_POLICY == 6)
constexpr bool policy_is_gc = MC_POLICY == 2 || MC_POLICY == 6;

// ---------------------------------------------------------------- elements
// A non trivially copyable value: knows where it lives, counts itself, may throw when copied.
template <bool ThrowingMove, int Pad>
struct ElemT
{
    u64 v;
    const ElemT* self;
    char pad[Pad ? Pad : 8];

    static void bad(const char* what, const ElemT* p)
    {
        if (!mc::in_arena(p) || true)
            mc::violation(vk::lifetime, "%s of an element that is not alive (value word %#llx, lives at %p, created at %p)",
                          what, (unsigned long long) p->v, (const void*) p, (const void*) p->self);
    }
    void alive(const char* what) const
    {
        if (self != this || ((v >> 48) != (TAG_VAL >> 48) && (v >> 48) != (TAG_MOVED >> 48) && (v >> 48) != (TAG_KEY >> 48)))
            bad(what, this);
    }
    ElemT()
        : ElemT(TAG_VAL)
    {}
    explicit ElemT(u64 x)
        : v{x}
        , self{this}
    {
        memset(pad, 0, sizeof pad);
        ++mc::counters().live_elems;
    }
    ElemT(const ElemT& o)
    {
        o.alive("copy");
        mc::fault_point(fk::copy);
        v    = o.v;
        self = this;
        memset(pad, 0, sizeof pad);
        ++mc::counters().copies;
        ++mc::counters().live_elems;
    }
    ElemT(ElemT&& o) noexcept(!ThrowingMove)
    {
        o.alive("move");
        if (ThrowingMove)
            mc::fault_point(fk::move);
        v    = o.v;
        o.v  = TAG_MOVED;
        self = this;
        memset(pad, 0, sizeof pad);
        ++mc::counters().moves;
        ++mc::counters().live_elems;
    }
    ElemT& operator=(const ElemT& o)
    {
        alive("assignment");
        o.alive("copy");
        mc::fault_point(fk::copy);
        v = o.v;
        ++mc::counters().copies;
        return *this;
    }
    ElemT& operator=(ElemT&& o) noexcept(!ThrowingMove)
    {
        alive("assignment");
        o.alive("move");
        if (ThrowingMove)
            mc::fault_point(fk::move);
        auto x = o.v;
        o.v    = TAG_MOVED;
        v      = x;
        ++mc::counters().moves;
        return *this;
    }
    ~ElemT()
    {
        alive("destruction");
        v    = TAG_DEAD;
        self = nullptr;
        --mc::counters().live_elems;
    }
    u64 value() const
    {
        alive("use");
        return v;
    }
    friend bool operator==(const ElemT& a, const ElemT& b)
    {
        ++mc::counters().calls;
        mc::fault_point(fk::equal);
        return a.value() == b.value();
    }
    friend bool operator!=(const ElemT& a, const ElemT& b) { return !(a == b); }
};

// trivially copyable
struct TrivE
{
    u64 v;
    TrivE() = default;
    explicit TrivE(u64 x)
        : v{x}
    {}
    u64 value() const { return v; }
    friend bool operator==(const TrivE& a, const TrivE& b) { return a.v == b.v; }
    friend bool operator!=(const TrivE& a, const TrivE& b) { return a.v != b.v; }
};
static_assert(std::is_trivially_copyable_v<TrivE>, "");

// contains a pointer to the heap (what a GC must see)
struct PtrE
{
    u64* p;
    PtrE() = default;
    explicit PtrE(u64 x)
        : p{(u64*) Policy::heap::type::allocate(8)}
    {
        *p = x;
    }
    u64 value() const { return p ? *p : TAG_VAL; }
    friend bool operator==(const PtrE& a, const PtrE& b) { return a.value() == b.value(); }
    friend bool operator!=(const PtrE& a, const PtrE& b) { return !(a == b); }
};

// stricter alignment than any header
struct alignas(16) AlignE
{
    u64 v;
    u64 w;
    AlignE() = default;
    explicit AlignE(u64 x)
        : v{x}
        , w{0}
    {}
    AlignE(const AlignE& o)
        : v{o.v}
        , w{0}
    {
        u64 where = (u64) this; // the compiler takes the alignment of `this` for granted
        asm volatile("" : "+r"(where));
        if (where & 15)
            mc::violation(vk::memory, "element of alignment 16 placed at %p", (void*) this);
    }
    AlignE& operator=(const AlignE& o) = default;
    ~AlignE() { v = TAG_DEAD; }
    u64 value() const { return v; }
    friend bool operator==(const AlignE& a, const AlignE& b) { return a.v == b.v; }
    friend bool operator!=(const AlignE& a, const AlignE& b) { return a.v != b.v; }
};

// can be made from a list of values like itself, as values of JSON libraries and vectors of std::any can
struct ListE
{
    u64 v;
    ListE()
        : v{TAG_VAL}
    {}
    explicit ListE(u64 x)
        : v{x}
    {}
    ListE(std::initializer_list<ListE> l)
        : v{TAG_VAL | 0xbad00000 | l.size()}
    {}
    u64 value() const { return v; }
    friend bool operator==(const ListE& a, const ListE& b) { return a.v == b.v; }
    friend bool operator!=(const ListE& a, const ListE& b) { return a.v != b.v; }
};

#ifndef MC_ELEM
#define MC_ELEM 1
#endif
#if MC_ELEM == 0
using Elem = TrivE;
#elif MC_ELEM == 1
using Elem = ElemT<false, 0>;
#elif MC_ELEM == 2
using Elem = ElemT<true, 0>;
#elif MC_ELEM == 3
using Elem = ElemT<false, 40>;
#elif MC_ELEM == 4
using Elem = PtrE;
#elif MC_ELEM == 5
using Elem = AlignE;
#elif MC_ELEM == 6
using Elem = ListE;
#endif

// what a value-initialised element holds
constexpr u64 DEFAULT_WORD = MC_ELEM == 0 || MC_ELEM == 5 ? 0 : TAG_VAL;

inline u64 val_of(const Elem& e) { return e.value(); }

#define MC_EXPECT(cond, ...)                                                                                              \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            mc::violation(vk::model, __VA_ARGS__);                                                                     \
    } while (0)
