// Thread-safe heaps under every schedule.
//   MC_HEAP 0 free_list_heap, 1 thread_local_free_list_heap over free_list_heap, 2 the optimized heap of
//   free_list_heap_policy (split by size), 3 thread_local_free_list_heap over the plain heap
//   4 the raw free_list_heap over cpp_heap (operator new)
//   5 debug_size_heap, 6 identity_heap, 7 split_heap of both, 8 the optimized heap of unsafe_free_list_heap_policy,
//   9 unsafe_free_list_heap, 10 cpp_heap, 11 malloc_heap (threads=1 for 8 and 9: they are for one thread)
#include "common.hpp"
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/debug_size_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/identity_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/heap/split_heap.hpp>
#include <immer/heap/unsafe_free_list_heap.hpp>
#include <immer/heap/thread_local_free_list_heap.hpp>

#ifndef MC_HEAP
#define MC_HEAP 0
#endif
#ifndef MC_LIMIT
#define MC_LIMIT 2
#endif
constexpr std::size_t SIZE = 24;
// the parent of the heap under test; its next allocation fails on demand
static bool fail_next;
struct base_heap : mc_heap
{
    template <class... Tags>
    static void* allocate(std::size_t n, Tags... tags)
    {
        if (fail_next) {
            fail_next = false;
            throw std::bad_alloc{};
        }
        return mc_heap::allocate(n, tags...);
    }
};
#define LISTS 0 // free lists of one thread
#if MC_HEAP == 0
#undef LISTS
#define LISTS 1
using Heap = immer::with_free_list_node<immer::free_list_heap<SIZE, MC_LIMIT, base_heap>>;
#elif MC_HEAP == 1
#undef LISTS
#define LISTS 2
using Local = immer::thread_local_free_list_heap<SIZE, MC_LIMIT, immer::free_list_heap<SIZE, MC_LIMIT, base_heap>>;
using Heap = immer::with_free_list_node<Local>;
#elif MC_HEAP == 2
#undef LISTS
#define LISTS 2
using Local = immer::thread_local_free_list_heap<SIZE, MC_LIMIT, immer::free_list_heap<SIZE, MC_LIMIT, immer::debug_size_heap<base_heap>>>;
using Heap = immer::free_list_heap_policy<base_heap, MC_LIMIT>::optimized<SIZE>::type;
#elif MC_HEAP == 3
#undef LISTS
#define LISTS 1
using Local = immer::thread_local_free_list_heap<SIZE, MC_LIMIT, base_heap>;
using Heap = immer::with_free_list_node<Local>;
#elif MC_HEAP == 4
#undef LISTS
#define LISTS 2
using Local = immer::thread_local_free_list_heap<SIZE, MC_LIMIT, immer::free_list_heap<SIZE, MC_LIMIT, immer::debug_size_heap<immer::cpp_heap>>>;
using Heap = immer::free_list_heap_policy<immer::cpp_heap, MC_LIMIT>::optimized<SIZE>::type;
#elif MC_HEAP == 5
using Heap = immer::debug_size_heap<base_heap>;
#elif MC_HEAP == 6
using Heap = immer::identity_heap<base_heap>;
#elif MC_HEAP == 7
using Heap = immer::split_heap<SIZE, immer::identity_heap<base_heap>, immer::debug_size_heap<base_heap>>;
#elif MC_HEAP == 8
#undef LISTS
#define LISTS 1
using Local = immer::unsafe_free_list_heap<SIZE, MC_LIMIT, immer::debug_size_heap<base_heap>>;
using Heap = immer::unsafe_free_list_heap_policy<base_heap, MC_LIMIT>::optimized<SIZE>::type;
#elif MC_HEAP == 9
#undef LISTS
#define LISTS 1
using Local = immer::unsafe_free_list_heap<SIZE, MC_LIMIT, base_heap>;
using Heap = immer::with_free_list_node<Local>;
#elif MC_HEAP == 10
using Heap = immer::cpp_heap;
#elif MC_HEAP == 11
using Heap = immer::malloc_heap;
#endif
#define HAS_LOCAL (LISTS && MC_HEAP != 0)
constexpr bool sees_base = MC_HEAP != 4 && MC_HEAP != 10 && MC_HEAP != 11;

struct Block
{
    u64* p;
    u64 n;
    u64 id;
};

struct Owner
{
    Block b[12];
    int n;
};
static Owner own[5];
static u64 next_id[5];
static u64 base_blocks;

static void take(Owner& o, int t, std::size_t n)
{
    void* p = Heap::allocate(n);
    if (MC_HEAP != 11)
        mc::user_take(p, n);
    if ((u64) p & (alignof(std::max_align_t) - 1))
        mc::violation(vk::memory, "block at %p is not aligned", p);
    auto q  = (u64*) p;
    u64 id  = ((u64) (t + 1) << 32) + ++next_id[t];
    for (u64 i = 0; i < n / 8; ++i)
        q[i] = id + (i << 16);
    o.b[o.n++] = {q, n, id};
}

static void give(Owner& o, int k)
{
    auto b = o.b[k];
    for (u64 i = 0; i < b.n / 8; ++i)
        if (b.p[i] != b.id + (i << 16))
            mc::violation(vk::memory, "the contents of a block in use have changed");
    for (int i = k; i + 1 < o.n; ++i)
        o.b[i] = o.b[i + 1];
    --o.n;
    if (MC_HEAP != 11)
        mc::user_give(b.p, b.n);
    Heap::deallocate(b.n, b.p);
}

// a script is a word over: allocate, free the oldest, free the newest, allocate a big block
// allocate a small one, allocate while the parent heap has no memory, clear the free list
enum { A, FO, FN, BIG, SMALL, FAIL, CLEAR, N_OPS };
constexpr int MAXLEN = 10, MAXSCRIPTS = 200000;
struct Script
{
    mc::u8 n, op[MAXLEN];
};
using mc::u8;

struct H : mc::ConcHarness
{
    Script* scripts; // [held][...]
    int count[3] = {0, 0, 0};
    int threads, len, lists, held_max;
    unsigned big;
    int cur_list, cur_held[4], cur_script[4];

    void gen(int held, Script s, int have)
    {
        if (s.n && count[held] == MAXSCRIPTS)
            mc::violation(vk::model, "harness: too many scripts");
        if (s.n && (threads > 1 || s.n == len)) {
            scripts[held * MAXSCRIPTS + count[held]++] = s;
        }
        if (s.n == len)
            return;
        for (int op = 0; op < N_OPS; ++op) {
            if (op >= BIG && !(big >> (op - BIG) & 1))
                continue;
            if (op == CLEAR && !HAS_LOCAL || op == FAIL && (!sees_base || threads > 1))
                continue;
            if ((op == FO || op == FN) && have == 0)
                continue;
            if (op == FN && have == 1) // the same as FO
                continue;
            auto t      = s;
            t.op[t.n++] = (u8) op;
            gen(held, t, have + (op == A || op == BIG || op == SMALL ? 1 : op == FO || op == FN ? -1 : 0));
        }
    }
    void init()
    {
        threads  = (int) mc::opt("threads", 2);
        len      = (int) mc::opt("len", 3);
        lists    = (int) mc::opt("lists", 3); // blocks in the shared list before: 0 .. lists - 1
        held_max = (int) mc::opt("held", 2);  // blocks every thread owns before: 0 .. held_max - 1
        big      = (unsigned) mc::opt("big", 0);
        scripts  = (Script*) malloc(sizeof(Script) * 3 * MAXSCRIPTS);
        for (int h = 0; h < held_max; ++h)
            gen(h, Script{}, h);
    }
    // programs: list x multisets of (held, script) of the threads
    int options()
    {
        int n = 0;
        for (int h = 0; h < held_max; ++h)
            n += count[h];
        return n;
    }
    int num_programs() override
    {
        long n = 1, o = options();
        for (int t = 0; t < threads; ++t)
            n = n * (o + t) / (t + 1);
        return (int) n * lists;
    }
    void decode(int p)
    {
        cur_list = p % lists;
        long k   = p / lists;
        // combinatorial number system with repetition: c_1 >= c_2 >= ...
        for (int t = threads; t >= 1; --t) {
            auto multi = [&](long o) { // multisets of size t over o options
                long n = 1;
                for (int i = 0; i < t; ++i)
                    n = n * (o + i) / (i + 1);
                return n;
            };
            long c = 0;
            while (multi(c + 1) <= k)
                ++c;
            k -= multi(c);
            int h = 0;
            while (c >= count[h])
                c -= count[h++];
            cur_held[t - 1]   = h;
            cur_script[t - 1] = (int) c;
        }
    }
    void setup(int p) override
    {
        decode(p);
        fail_next = false;
        base_blocks = mc::live_blocks();
        for (int t = 0; t < 5; ++t) {
            own[t].n   = 0;
            next_id[t] = 0;
        }
        for (int i = 0; i < cur_list; ++i)
            take(own[4], 4, SIZE);
        for (int t = 0; t < threads; ++t)
            for (int i = 0; i < cur_held[t]; ++i)
                take(own[t], t, SIZE);
        while (own[4].n)
            give(own[4], 0);
        flush();
    }
    // what the setting up thread keeps in its thread local list goes to the shared one
    void flush()
    {
#if HAS_LOCAL
        Local::clear();
#endif
    }
    // one thread: the parent heap has given out what is in use and what the lists keep
    void alone()
    {
        if (!sees_base)
            return;
        std::int64_t kept = (std::int64_t) mc::live_blocks() - (std::int64_t) base_blocks - own[0].n;
        if (kept < 0 || kept > LISTS * MC_LIMIT)
            mc::violation(vk::memory, "%lld blocks are kept in the free lists, at most %d of them should be", (long long) kept, LISTS * MC_LIMIT);
    }
    int num_threads() override { return threads; }
    void thread(int t) override
    {
        auto& s = scripts[cur_held[t] * MAXSCRIPTS + cur_script[t]];
        auto& o = own[t];
        for (int i = 0; i < s.n; ++i) {
            if (threads == 1)
                mc::op_call();
            switch (s.op[i]) {
            case A: take(o, t, SIZE); break;
            case BIG: take(o, t, SIZE + 40); break;
            case SMALL: take(o, t, 8); break;
            case CLEAR: flush(); break;
            case FAIL: {
                auto live = mc::live_blocks();
                auto n    = o.n;
                fail_next = true;
                try {
                    take(o, t, SIZE);
                } catch (std::bad_alloc&) {
                }
                if (o.n != n && LISTS == 0 || o.n == n && (fail_next || mc::live_blocks() != live))
                    mc::violation(vk::model, "the failure of the parent heap is not reported, or has an effect");
                fail_next = false;
                break;
            }
            case FO: give(o, 0); break;
            case FN: give(o, o.n - 1); break;
            }
            if (threads == 1)
                alone();
        }
    }
    void finish() override
    {
        // everything goes back, then everything the heap keeps is taken out again: nothing lost, nothing twice
        for (int t = 0; t < 4; ++t)
            while (own[t].n)
                give(own[t], 0);
        flush();
        if (!LISTS) {
            if (mc::live_blocks() != base_blocks)
                mc::violation(vk::leak, "blocks are not back in the parent heap");
            return;
        }
        u64 kept = mc::live_blocks() - base_blocks;
        if (kept > MC_LIMIT + (u64) threads)
            mc::violation(vk::memory, "the heap keeps %llu blocks, its limit is %d", (unsigned long long) kept, MC_LIMIT);
#if MC_HEAP != 3 && MC_HEAP != 8 && MC_HEAP != 9
        auto before = mc::alloc_count();
        for (u64 i = 0; i < kept; ++i)
            take(own[4], 4, SIZE);
        if (mc::alloc_count() != before)
            mc::violation(vk::leak, "%llu blocks were neither kept in the free list nor returned to the parent heap",
                          (unsigned long long) (mc::alloc_count() - before));
        if (mc::live_blocks() - base_blocks != kept)
            mc::violation(vk::leak, "blocks vanished from the free list");
#else
        if (kept)
            mc::violation(vk::leak, "%llu blocks are not back in the parent heap after the threads ended", (unsigned long long) kept);
#endif
    }
    std::int64_t in_use() override { return 0; }
    void describe(int p, char* b, int n) override
    {
        decode(p);
        int k = snprintf(b, n, "%d blocks in the list", cur_list);
        const char* names[] = {"A", "Fo", "Fn", "Big", "Small", "Fail", "Clear"};
        for (int t = 0; t < threads; ++t) {
            k += snprintf(b + k, n - k, "; thread %d owns %d:", t + 1, cur_held[t]);
            auto& s = scripts[cur_held[t] * MAXSCRIPTS + cur_script[t]];
            for (int i = 0; i < s.n; ++i)
                k += snprintf(b + k, n - k, " %s", names[s.op[i]]);
        }
    }
};

static H h;
int main(int argc, char** argv)
{
    mc::explore_args(argc, argv);
    h.init();
    return mc::conc_main(argc, argv, h);
}
