// Explorer B: stateless search over thread schedules of the real code.
//
// Threads are fibers of one OS thread. A fiber stops before each of its atomic operations (and each call
// and return of an operation of a history); the scheduler picks who goes on. Every Mazurkiewicz trace of a
// program is executed (source sets with sleep sets, Abdulla et al. 2014); plain accesses are checked for data
// races with vector clocks that follow the memory orders the code states.
#include "core.hpp"
namespace mc {
constexpr int MAXT        = 5; // thread 0 sets up and finishes
constexpr u64 REGION_BASE = ARENA_BASE + (64ull << 20);
constexpr u64 REGION      = 16ull << 20;
static u64 g_bump[MAXT];
static void* g_free[MAXT][128];
static u64& cur_bump() { return E().cur_fiber ? g_bump[E().cur_fiber] : C().bump; }
static void race_free(u64 a, u64 n);
} // namespace mc
#define MC_BUMP cur_bump()
#define MC_BUMP_END (E().cur_fiber ? REGION_BASE + REGION * E().cur_fiber : REGION_BASE)
#define MC_FREE_LISTS g_free[E().cur_fiber]
#define MC_EAGER_REUSE 1
#define MC_ON_ALLOC(p, n)
#define MC_ON_FREE(p, n) race_free(p, n)
#include "core_impl.hpp"
#include <algorithm>
#include <string>
#include <sys/time.h>
#include <unordered_set>

extern "C" void* __cxa_get_globals();
extern "C" char* __cxa_demangle(const char*, char*, std::size_t*, int*);

namespace mc {

struct VC
{
    u32 c[MAXT];
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum : u8 { RD = 0, WR = 1, CALL = 2, RET = 3 };
struct Pend
{
    u64 addr;
    u8 cls;
    bool blocked; // a spinning thread: goes on when the location has changed
    bool noeffect; // would change nothing in the present state
    u32 version;
    bool (*eval)(const void*); // computes noeffect
    const void* ctx;
};
// a: what a thread will do, b: what has been done
static inline bool dependent(const Pend& a, const Pend& b)
{
    if (a.addr != b.addr)
        return false;
    return a.cls >= CALL ? a.cls != b.cls : (a.cls | b.cls) & 1;
}

struct Loc
{
    u64 addr;
    u32 stamp;
    u32 version;
    VC rel;             // what an acquire load of the current value synchronizes with
    int last[2][MAXT];  // last event of each class and thread
};

struct Acc
{
    u32 clk;
    u8 tid, kind, mask; // kind: 1 write, 2 atomic, 4 deallocation
    u64 pc;
};
struct Cell
{
    u32 stamp;
    u32 n;
    Acc a[14];
};

struct Fiber
{
    u64 sp;
    char* stack;
    bool done;
    Pend pend;
    void* eh_caught;
    unsigned eh_uncaught;
    VC vc, fence_rel, acq_pend;
    // consecutive operations that had no effect
    u64 spin_addr;
    int spin_kind, spin_count;
    u32 spin_version;
    int n_exit;
    struct
    {
        void (*f)(void*);
        void* p;
    } at_exit[32];
};

struct Event
{
    u8 tid;
    u32 seq;
    VC clk;
    Pend op;
};

struct Node
{
    u8 enabled, backtrack, done, sleep;
    u8 chosen;
    u8 preempted; // how often a thread was stopped although it could have gone on
    Pend pend[MAXT];
};

struct Conc
{
    ConcHarness* h;
    Fiber f[MAXT];
    int nt = 0;
    u64 sched_sp = 0;
    bool running = false; // the threads of a program run
    u32 stamp    = 0;
    Cell* cells  = nullptr;
    Cell* dcells = nullptr;
    Loc* locs    = nullptr;
    static constexpr u32 NLOC = 1 << 16;
    u32 nlocs = 0;
    std::vector<Node> nodes;
    std::vector<Event> evs;
    VC dclk[MAXT];
    u32 seq[MAXT];
    u64 opclk = 0;
    int prog  = 0;
    int effect_of = -1; // whether the operation of the current transition wrote
    // statistics
    u64 schedules = 0, blocked = 0, transitions = 0, states = 0, maxlen = 0, progs_done = 0, races_checked = 0, total_events = 0, most = 0, progs_bounded = 0;
    bool capped = false;
    long seconds = 0;
    time_t t0 = 0;
    bool far = true;
    bool norace = false;
    std::vector<std::string> samples;
};
static thread_local Conc* X;

extern "C" void mc_switch(u64* save_sp, u64 to_sp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

struct EhGlobals
{
    void* caught;
    unsigned uncaught;
};
static EhGlobals* eh() { return (EhGlobals*) __cxa_get_globals(); }

// ---------------------------------------------------------------- races
static inline Cell* cell(u64 g)
{
    if (inside(g))
        return g < ARENA_BASE + sizeof(Control) ? nullptr : &X->cells[(g - ARENA_BASE) >> 3];
    if (g >= (u64) __data_start && g < (u64) _end)
        return &X->dcells[(g - ((u64) __data_start & ~7ull)) >> 3];
    return nullptr;
}

static const char* where(u64 pc, char* buf, std::size_t n)
{
    Dl_info di;
    if (pc && dladdr((void*) pc, &di) && di.dli_sname) {
        int st;
        char* d = __cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        snprintf(buf, n, "%s", d ? d : di.dli_sname);
    } else
        snprintf(buf, n, "?");
    return buf;
}

[[noreturn]] __attribute__((noinline)) static void race(const Acc& o, u8 kind, u64 pc, u64 a, int t)
{
    E().in_sut = 0;
    static thread_local char b1[400], b2[400];
    auto name = [](u8 k) { return k & 4 ? "deallocation" : k & 2 ? (k & 1 ? "atomic write" : "atomic read") : k & 1 ? "write" : "read"; };
    violation(vk::race, "data race at %#llx: %s by thread %d in %s, %s by thread %d in %s", (unsigned long long) a,
              name(o.kind), o.tid, where(o.pc, b1, sizeof b1), name(kind), t, where(pc, b2, sizeof b2));
}

static void record(u64 a, u64 n, u8 kind, u64 pc)
{
    auto& x = *X;
    int t   = E().cur_fiber;
    if (!t)
        return;
    auto& vc = x.f[t].vc;
    u64 end  = a + n;
    for (u64 g = a & ~7ull; g < end; g += 8) {
        auto c = cell(g);
        if (!c)
            return;
        u64 lo  = g < a ? a - g : 0;
        u64 hi  = end - g < 8 ? end - g : 8;
        u8 mask = (u8) ((0xffu >> (8 - (hi - lo))) << lo);
        if (c->stamp != x.stamp) {
            c->stamp = x.stamp;
            c->n     = 0;
        }
        Acc* mine = nullptr;
        for (u32 i = 0; i < c->n; ++i) {
            auto& o = c->a[i];
            if (o.tid == t) {
                if (o.kind == kind && o.mask == mask)
                    mine = &o;
                continue;
            }
            if (!(o.mask & mask) || !((o.kind | kind) & 1) || (o.kind & kind & 2))
                continue;
            ++x.races_checked;
            if (o.clk > vc.c[o.tid] && !x.norace)
                race(o, kind, pc, g, t);
        }
        if (!mine) {
            if (c->n == sizeof c->a / sizeof c->a[0]) {
                // forget what happened before this access: it cannot race with a later one unless this one does
                u32 k = 0;
                for (u32 i = 0; i < c->n; ++i)
                    if (!(c->a[i].clk <= vc.c[c->a[i].tid] && (kind & 1) && (c->a[i].mask & ~mask) == 0))
                        c->a[k++] = c->a[i];
                c->n = k;
                if (k == sizeof c->a / sizeof c->a[0]) {
                    fprintf(stderr, "engine: too many accesses of one word\n");
                    _exit(3);
                }
            }
            mine = &c->a[c->n++];
        }
        *mine = {vc.c[t], (u8) t, kind, mask, pc};
    }
}

static void race_free(u64 a, u64 n)
{
    if (X && X->running)
        record(a, n, 1 | 4, (u64) __builtin_return_address(0));
}

// ---------------------------------------------------------------- scheduling points
static Loc* loc(u64 a)
{
    auto& x = *X;
    u64 hsh = a * 0x9E3779B97F4A7C15ull;
    u32 i   = (u32) (hsh >> 48) & (Conc::NLOC - 1);
    while (x.locs[i].stamp == x.stamp && x.locs[i].addr != a)
        i = (i + 1) & (Conc::NLOC - 1);
    auto l = &x.locs[i];
    if (l->stamp != x.stamp) {
        l->addr    = a;
        l->stamp   = x.stamp;
        l->version = 0;
        memset(&l->rel, 0, sizeof l->rel);
        memset(l->last, -1, sizeof l->last);
        if (++x.nlocs > Conc::NLOC / 2) {
            fprintf(stderr, "engine: too many atomic locations\n");
            _exit(3);
        }
    }
    return l;
}

static void to_scheduler()
{
    auto& x    = *X;
    int t      = E().cur_fiber;
    auto g     = eh();
    auto& f    = x.f[t];
    f.eh_caught   = g->caught;
    f.eh_uncaught = g->uncaught;
    E().in_sut = 0;
    mc_switch(&f.sp, x.sched_sp);
    E().in_sut     = 1;
    E().cur_fiber  = t;
    E().ticks      = 0;
    *g             = {f.eh_caught, f.eh_uncaught};
}

static inline void point(u64 addr, u8 cls, bool blk = false, bool (*eval)(const void*) = nullptr, const void* ctx = nullptr)
{
    X->f[E().cur_fiber].pend = {addr, cls, blk, false, loc(addr)->version, eval, ctx};
    to_scheduler();
}

static inline void tick()
{
    if (__builtin_expect(++E().ticks > E().tick_limit, 0))
        tick_overflow();
}
#define ALWAYS __attribute__((always_inline)) static inline
ALWAYS void on_access(u64 a, unsigned n, bool w)
{
    tick();
    check_access(a, n, w);
    if (X && X->running && E().cur_fiber)
        record(a, n, w, (u64) __builtin_return_address(0));
}
ALWAYS void on_read(u64 a, unsigned n) { on_access(a, n, false); }
ALWAYS void on_write(u64 a, unsigned n) { on_access(a, n, true); }
ALWAYS void on_range(u64 a, u64 n, bool w)
{
    tick();
    check_range(a, n, w);
    if (n && X && X->running && E().cur_fiber)
        record(a, n, w, (u64) __builtin_return_address(0));
}
static inline void on_func() { tick(); }

static inline bool threaded() { return X && X->running && E().cur_fiber; }
constexpr int SPIN = 200; // attempts without effect before a thread waits for the location to change

static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

// kind identifies the operation for the detection of spinning
template <class F>
static inline void before(u64 a, unsigned n, u8 cls, int kind, const F& eval, u64 pc)
{
    auto& f       = X->f[E().cur_fiber];
    bool spin     = false;
    bool noeffect = (!inside(a) || (*SH(a) & ~SH_USER) <= 8) && eval();
    auto fn       = [](const void* c) { return (*(const F*) c)(); };
    if (noeffect && f.spin_addr == a && f.spin_kind == kind && f.spin_version == loc(a)->version) {
        ++f.spin_count;
        spin = cls == WR || f.spin_count > 2;
    } else
        f.spin_count = 0;
    if (!spin)
        point(a, cls, false, fn, &eval);
    else if (f.spin_count > SPIN) {
        point(a, cls, true, fn, &eval);
        f.spin_count = 0;
    }
    tick();
    check_access(a, n, cls == WR);
    record(a, n, cls | 2, pc);
}
static inline void after(u64 a, int kind, bool noeffect)
{
    auto& f   = X->f[E().cur_fiber];
    if (X->effect_of < 0)
        X->effect_of = !noeffect; // further attempts in a row belong to the same transition
    if (!noeffect) {
        f.spin_addr = 0;
        return;
    }
    f.spin_addr    = a;
    f.spin_kind    = kind;
    f.spin_version = loc(a)->version;
}
static inline void sync_load(Loc* l, int mo)
{
    auto& f = X->f[E().cur_fiber];
    if (is_acq(mo))
        f.vc.join(l->rel);
    f.acq_pend.join(l->rel);
}
static inline void sync_store(Loc* l, int mo, bool rmw)
{
    int t   = E().cur_fiber;
    auto& f = X->f[t];
    VC r    = f.fence_rel;
    if (is_rel(mo))
        r = f.vc;
    if (rmw)
        l->rel.join(r); // goes on the release sequence
    else
        l->rel = r;
    if (is_rel(mo))
        ++f.vc.c[t];
}

// A counter far above every value that decides anything: the harness holds hundreds of references to the nodes
// that all empty values share. Operations on it commute (assumption: code compares counters with small values
// only), so they are no scheduling points; they order nothing either, hence a race that the counter would hide
// in some order is reported.
template <class T>
static inline bool far_counter(T* a)
{
    if (sizeof(T) != 4 || !X->far)
        return false;
    return (!inside((u64) a) || (*SH((u64) a) & ~SH_USER) <= 8) && *a >= (T) 512 && *a < (T) (1 << 20);
}

template <class T>
ALWAYS T a_load(T* a, int mo)
{
    u64 p = (u64) a;
    if (!threaded()) {
        on_access(p, sizeof(T), false);
        return *a;
    }
    if (far_counter(a)) {
        tick();
        check_access(p, sizeof(T), false);
        record(p, sizeof(T), 2, (u64) __builtin_return_address(0));
        return *a;
    }
    before(p, sizeof(T), RD, 1, [] { return true; }, (u64) __builtin_return_address(0));
    T v = *a;
    sync_load(loc(p), mo);
    after(p, 1, true);
    return v;
}
template <class T>
ALWAYS void a_store(T* a, T v, int mo)
{
    u64 p = (u64) a;
    if (!threaded()) {
        on_access(p, sizeof(T), true);
        *a = v;
        return;
    }
    before(p, sizeof(T), WR, 2, [] { return false; }, (u64) __builtin_return_address(0));
    auto l = loc(p);
    if (*a != v)
        ++l->version;
    *a = v;
    sync_store(l, mo, false);
    after(p, 2, false);
}
template <class T, class F>
ALWAYS T a_rmw(T* a, int mo, F f)
{
    u64 p = (u64) a;
    if (!threaded()) {
        on_access(p, sizeof(T), true);
        T o = *a;
        *a  = f(o);
        return o;
    }
    if (far_counter(a)) {
        T o = *a, v = f(o);
        if (v == o + 1 || v == o - 1) {
            tick();
            check_access(p, sizeof(T), true);
            record(p, sizeof(T), 1 | 2, (u64) __builtin_return_address(0));
            *a = v;
            return o;
        }
    }
    before(p, sizeof(T), WR, 3, [&] { return f(*a) == *a; }, (u64) __builtin_return_address(0));
    auto l = loc(p);
    T o    = *a;
    *a     = f(o);
    if (*a != o)
        ++l->version;
    sync_load(l, mo);
    sync_store(l, mo, true);
    after(p, 3, *a == o);
    return o;
}
template <class T>
ALWAYS int a_cas(T* a, T* c, T v, int mo, int fmo, bool)
{
    u64 p = (u64) a;
    if (!threaded()) {
        on_access(p, sizeof(T), true);
        if (*a == *c) { *a = v; return 1; }
        *c = *a;
        return 0;
    }
    before(p, sizeof(T), WR, 4, [&] { return *a != *c; }, (u64) __builtin_return_address(0));
    auto l = loc(p);
    if (*a == *c) {
        if (*a != v)
            ++l->version;
        *a = v;
        sync_load(l, mo);
        sync_store(l, mo, true);
        after(p, 4, false);
        return 1;
    }
    *c = *a;
    sync_load(l, fmo);
    after(p, 4, true);
    return 0;
}
static void a_fence(int mo)
{
    if (!threaded())
        return;
    int t   = E().cur_fiber;
    auto& f = X->f[t];
    if (is_acq(mo))
        f.vc.join(f.acq_pend);
    if (is_rel(mo)) {
        f.fence_rel = f.vc;
        ++f.vc.c[t];
    }
}

int this_thread() { return E().cur_fiber; }
void op_call()
{
    if (threaded())
        point(1, CALL);
    X->opclk += 1;
}
void op_return()
{
    if (threaded())
        point(1, RET);
    X->opclk += 1;
}
u64 op_clock() { return X->opclk; }

} // namespace mc
#include "hooks.hpp"

// ---- the parts of the C++ runtime that would block the only OS thread -----------
extern "C" int sched_yield() { return 0; }
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return 0; }
extern "C" int usleep(useconds_t) { return 0; }
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* p, void*)
{
    if (!mc::threaded())
        return 0;
    auto& fb = mc::X->f[E().cur_fiber];
    if (fb.n_exit == 32) {
        fprintf(stderr, "engine: too many thread exit functions\n");
        _exit(3);
    }
    fb.at_exit[fb.n_exit++] = {f, p};
    return 0;
}
// byte 0: initialised, byte 1: in progress
extern "C" int __cxa_guard_acquire(char* g)
{
    for (;;) {
        u8 s = mc::a_load<u8>((u8*) g, 2);
        if (s)
            return 0;
        u8 z = 0;
        if (mc::a_cas<u8>((u8*) g + 1, &z, 1, 4, 2, false)) {
            if (*(volatile u8*) g) {
                *(u8*) (g + 1) = 0;
                return 0;
            }
            return 1;
        }
        if (!mc::threaded())
            violation(vk::hang, "recursive initialisation of a static");
        mc::point((u64) g + 1, mc::RD, true);
    }
}
extern "C" void __cxa_guard_release(char* g)
{
    mc::a_store<u8>((u8*) g, 1, 3);
    mc::a_store<u8>((u8*) g + 1, 0, 3);
}
extern "C" void __cxa_guard_abort(char* g) { mc::a_store<u8>((u8*) g + 1, 0, 3); }

namespace mc {

// ---------------------------------------------------------------- executions
static u8* snap_buf;
static u64 snap_bump;
static std::size_t data_size() { return (std::size_t) (_end - __data_start); }
static void data_copy(u8* dst, bool save)
{
    std::size_t n = data_size(), lo = n, hi = n;
    if (&__start___llvm_prf_cnts[0]) {
        lo = __start___llvm_prf_cnts - __data_start;
        hi = __stop___llvm_prf_cnts - __data_start;
        if (lo > n)
            lo = hi = n;
    }
    char* d = __data_start;
    if (save) {
        memcpy(dst, d, lo);
        memcpy(dst + hi, d + hi, n - hi);
    } else {
        memcpy(d, dst, lo);
        memcpy(d + hi, dst + hi, n - hi);
    }
}
struct Snap
{
    std::vector<u8> b;
    u64 bump;
    void* fl[128];
};
static void save(Snap& s)
{
    u64 used = C().bump - ARENA_BASE;
    s.bump   = C().bump;
    s.b.resize(used + used / 8 + data_size());
    memcpy(s.b.data(), (void*) ARENA_BASE, used);
    memcpy(s.b.data() + used, (void*) SHADOW_BASE, used / 8);
    data_copy(s.b.data() + used + used / 8, true);
    memcpy(s.fl, g_free[0], sizeof s.fl);
}
static void restore(const Snap& s)
{
    u64 cur  = C().bump;
    u64 used = s.bump - ARENA_BASE;
    memcpy((void*) ARENA_BASE, s.b.data(), used);
    memcpy((void*) SHADOW_BASE, s.b.data() + used, used / 8);
    if (cur > s.bump)
        memset((void*) (SHADOW_BASE + used / 8), 0, (cur - s.bump) / 8);
    data_copy((u8*) s.b.data() + used + used / 8, false);
    memset(g_free, 0, sizeof g_free);
    memcpy(g_free[0], s.fl, sizeof s.fl);
    for (int t = 1; t < MAXT; ++t) {
        u64 b = REGION_BASE + REGION * (t - 1);
        if (g_bump[t] > b)
            memset(SH(b), 0, (g_bump[t] - b) / 8);
        g_bump[t] = b;
    }
}

static void fiber_main()
{
    auto& x    = *X;
    int t      = E().cur_fiber;
    E().in_sut = 1;
    try {
        x.h->thread(t - 1);
    } catch (...) {
        violation(vk::exception, "an exception left thread %d", t);
    }
    auto& f = x.f[t];
    while (f.n_exit) {
        auto e = f.at_exit[--f.n_exit];
        e.f(e.p);
    }
    f.done = true;
    E().in_sut = 0;
    u64 dummy;
    mc_switch(&dummy, x.sched_sp);
    abort();
}

static void resume(int t)
{
    auto& x       = *X;
    auto saved    = *eh();
    E().cur_fiber = t;
    if (x.f[t].sp == 0) {
        auto top = (u64*) (x.f[t].stack + (256 << 10) - 128);
        // return address of mc_switch, then an alignment word that stands for the caller of fiber_main
        top[7] = 0;
        top[6] = (u64) fiber_main;
        for (int i = 0; i < 6; ++i)
            top[i] = 0;
        x.f[t].eh_caught   = nullptr;
        x.f[t].eh_uncaught = 0;
        mc_switch(&x.sched_sp, (u64) top);
    } else
        mc_switch(&x.sched_sp, x.f[t].sp);
    E().cur_fiber = 0;
    E().in_sut    = 0;
    *eh()         = saved;
}

static u8 enabled_set()
{
    auto& x = *X;
    u8 m    = 0;
    for (int t = 1; t <= x.nt; ++t)
        if (!x.f[t].done && !(x.f[t].pend.blocked && loc(x.f[t].pend.addr)->version == x.f[t].pend.version))
            m |= 1 << t;
    return m;
}

static inline bool ev_before(const Event& a, const Event& b) { return b.clk.c[a.tid] >= a.seq; }

// the event that has just been executed is the last of evs; add backtracking points for its races
static void find_races(const std::vector<int>& cands)
{
    auto& x = *X;
    int n   = (int) x.evs.size() - 1;
    for (int e : cands) {
        auto& ee = x.evs[e];
        bool immediate = true;
        for (int g : cands)
            if (g != e && ev_before(ee, x.evs[g]))
                immediate = false;
        if (!immediate)
            continue;
        // first events of the threads in v = (what does not depend on e) followed by this event
        u8 init = 0, seen = 0;
        std::vector<int> v;
        for (int k = e + 1; k <= n; ++k) {
            auto& ek = x.evs[k];
            if (k != n && ev_before(ee, ek))
                continue;
            if (!(seen >> ek.tid & 1)) {
                bool first = true;
                for (int g : v)
                    if (ev_before(x.evs[g], ek)) {
                        first = false;
                        break;
                    }
                if (first)
                    init |= 1 << ek.tid;
                seen |= 1 << ek.tid;
            }
            v.push_back(k);
        }
        auto& nd = x.nodes[e];
        init &= nd.enabled;
        if (!init || (init & nd.backtrack))
            continue;
        int p = x.evs[n].tid;
        if (!(init >> p & 1))
            p = __builtin_ctz(init);
        nd.backtrack |= 1 << p;
    }
}

static void report_extra(FILE* fp)
{
    auto& x   = *X;
    x.running = false;
    char buf[400];
    x.h->describe(x.prog, buf, sizeof buf);
    for (char* c = buf; *c; ++c)
        if (*c == '"' || *c == '\\' || *c == '\n')
            *c = '\'';
    fprintf(fp, ", \"seed\": %d, \"schedule\": \"%d:", x.prog, x.prog);
    for (std::size_t i = 0; i < x.nodes.size() && i < x.evs.size() + 1; ++i)
        fprintf(fp, "%s%d", i ? "," : "", x.nodes[i].chosen);
    fprintf(fp, "\", \"history\": \"%s; schedule of the threads:", buf);
    for (std::size_t i = 0; i < x.nodes.size() && i < x.evs.size() + 1; ++i)
        fprintf(fp, " %d", x.nodes[i].chosen);
    fprintf(fp, "\"");
}

struct Run
{
    Conc& x;
    Snap root, start;
    std::int64_t base_use = 0, base_elems = 0;
    std::vector<u8> forced; // replay
    // for the validation of the reduction: every interleaving, and how many are different
    bool naive = opt("naive", 0), count = opt("count", 0);
    // every interleaving with at most that many preemptions
    long bound = opt("pb", -1), pcap = opt("pcap", 0);
    std::unordered_set<u64> traces;
    u64 distinct = 0;

    template <class F>
    void main_thread(const char* phase, F f)
    {
        snprintf(E().phase, sizeof E().phase, "%s", phase);
        E().ticks     = 0;
        E().cur_fiber = 0;
        E().in_sut    = 1;
        f();
        E().in_sut = 0;
    }

    // returns false when the execution was redundant
    bool execute(std::size_t prefix)
    {
        restore(start);
        ++x.stamp;
        x.nlocs = 0;
        x.evs.clear();
        x.opclk = 0;
        memset(x.dclk, 0, sizeof x.dclk);
        memset(x.seq, 0, sizeof x.seq);
        for (int t = 1; t <= x.nt; ++t) {
            auto& f = x.f[t];
            f.sp    = 0;
            f.done  = false;
            f.pend  = {};
            memset(&f.vc, 0, sizeof f.vc);
            memset(&f.fence_rel, 0, sizeof f.vc);
            memset(&f.acq_pend, 0, sizeof f.vc);
            f.vc.c[t]   = 1;
            f.spin_addr = 0;
            f.n_exit    = 0;
        }
        snprintf(E().phase, sizeof E().phase, "threads");
        x.running = true;
        for (int t = 1; t <= x.nt; ++t)
            resume(t); // up to the first scheduling point
        static thread_local std::vector<int> cands;
        for (std::size_t i = 0;; ++i) {
            u8 en = enabled_set();
            if (!en) {
                for (int t = 1; t <= x.nt; ++t)
                    if (!x.f[t].done)
                        violation(vk::hang, "deadlock: every thread waits for another one");
                break;
            }
            if (i >= x.nodes.size()) {
                Node nd{};
                nd.enabled = en;
                if (i && !naive) {
                    auto& pr   = x.nodes[i - 1];
                    u8 s       = (pr.sleep | pr.done) & ~(1 << pr.chosen);
                    auto& pop  = x.evs.back().op;
                    for (int t = 1; t <= x.nt; ++t)
                        if (s >> t & 1) {
                            auto q = pr.pend[t];
                            if (q.cls == WR && q.noeffect)
                                q.cls = RD;
                            if (!dependent(q, pop))
                                nd.sleep |= 1 << t;
                        }
                }
                for (int t = 1; t <= x.nt; ++t) {
                    auto& q = nd.pend[t] = x.f[t].pend;
                    if (!x.f[t].done && q.eval)
                        q.noeffect = (!inside(q.addr) || (*SH(q.addr) & ~SH_USER) <= 8) && q.eval(q.ctx);
                }
                u8 can = en & ~nd.sleep;
                if (!forced.empty() && i < forced.size())
                    can = en & (1 << forced[i]);
                if (!can) {
                    x.running = false;
                    return false;
                }
                nd.chosen = __builtin_ctz(can);
                if (i && (can >> x.nodes[i - 1].chosen & 1))
                    nd.chosen = x.nodes[i - 1].chosen;
                nd.backtrack = naive ? en : 1 << nd.chosen;
                if (naive && i) {
                    auto& pr     = x.nodes[i - 1];
                    int last     = pr.chosen;
                    int before   = i > 1 ? x.nodes[i - 2].chosen : 0;
                    nd.preempted = pr.preempted + (before && before != last && (pr.enabled >> before & 1));
                    if (bound >= 0 && nd.preempted >= bound && (en >> last & 1))
                        nd.backtrack = 1 << last;
                }
                x.nodes.push_back(nd);
                ++x.states;
            } else if (x.nodes[i].enabled != en) {
                fprintf(stderr, "engine: the execution is not deterministic (program %d, step %zu)\n", x.prog, i);
                _exit(3);
            }
            auto& nd = x.nodes[i];
            int p    = nd.chosen;
            if (!(en >> p & 1)) {
                fprintf(stderr, "engine: thread %d cannot go on (program %d, step %zu)\n", p, x.prog, i);
                _exit(3);
            }
            Event ev;
            ev.tid = (u8) p;
            ev.op  = x.f[p].pend;
            ev.seq = ++x.seq[p];
            x.effect_of = -1;
            if (i > 20000)
                violation(vk::hang, "an execution of more than 20000 atomic operations");
            ++x.total_events;
            auto l = loc(ev.op.addr);
            resume(p);
            // an operation that left everything as it was commutes like a read
            if (ev.op.cls == WR && x.effect_of == 0)
                ev.op.cls = RD;
            // happens-before of the transitions
            cands.clear();
            auto look = [&](int cls) {
                for (int t = 1; t <= x.nt; ++t) {
                    int e = l->last[cls][t];
                    if (t != p && e >= 0 && x.evs[e].seq > x.dclk[p].c[t])
                        cands.push_back(e);
                }
            };
            if (ev.op.cls == RD || ev.op.cls == CALL)
                look(1);
            else if (ev.op.cls == RET)
                look(0);
            else {
                look(0);
                look(1);
            }
            ev.clk = x.dclk[p];
            for (int e : cands)
                ev.clk.join(x.evs[e].clk);
            ev.clk.c[p] = ev.seq;
            x.dclk[p]   = ev.clk;
            x.evs.push_back(ev);
            l->last[ev.op.cls & 1][p] = (int) x.evs.size() - 1;
            if (i + 1 >= prefix && !cands.empty() && !naive)
                find_races(cands);
            if (i + 1 >= prefix)
                ++x.transitions;
        }
        x.running = false;
        if (x.evs.size() > x.maxlen)
            x.maxlen = x.evs.size();
        main_thread("finish", [&] { x.h->finish(); });
        if (x.h->in_use() != base_use)
            violation(vk::leak, "%lld memory blocks in use after everything was destroyed (expected %lld)",
                      (long long) x.h->in_use(), (long long) base_use);
        if (!x.h->elems_dead() && C().cnt.live_elems != base_elems)
            violation(vk::leak, "%lld element objects alive after everything was destroyed (expected %lld)",
                      (long long) C().cnt.live_elems, (long long) base_elems);
        ++x.schedules;
        if (count) {
            // equal for executions that differ in the order of independent operations only
            u64 sum = 0;
            for (auto& e : x.evs) {
                u64 k = e.tid * 0x9E3779B97F4A7C15ull + e.seq;
                for (int t = 1; t <= x.nt; ++t)
                    k = (k ^ e.clk.c[t]) * 0xff51afd7ed558ccdull ^ (k >> 29);
                sum += k;
            }
            if (traces.insert(sum).second)
                ++distinct;
        }
        return true;
    }

    void program(int p)
    {
        x.prog = p;
        restore(root);
        x.nodes.clear();
        x.evs.clear();
        main_thread("setup", [&] { x.h->setup(p); });
        x.nt = x.h->num_threads();
        save(start);
        std::size_t prefix = 0;
        u64 before = x.schedules;
        traces.clear();
        for (;;) {
            bool whole = execute(prefix);
            if (!whole)
                ++x.blocked;
            else if (x.samples.size() < 8 && (x.schedules & (x.schedules - 1)) == 0) {
                char buf[400];
                x.h->describe(p, buf, sizeof buf);
                std::string s = buf;
                s += "; threads";
                for (auto& n : x.nodes)
                    s += " " + std::to_string(n.chosen);
                x.samples.push_back(s);
            }
            if (!forced.empty())
                return;
            while (!x.nodes.empty()) {
                auto& nd = x.nodes.back();
                nd.done |= 1 << nd.chosen;
                u8 todo = nd.backtrack & ~nd.done & ~nd.sleep;
                if (todo) {
                    nd.chosen = __builtin_ctz(todo);
                    break;
                }
                x.nodes.pop_back();
            }
            if (x.nodes.empty())
                break;
            prefix = x.nodes.size();
            if (pcap && x.schedules - before >= (u64) pcap && bound < 0) {
                // too many: every schedule with few preemptions instead
                ++x.progs_bounded;
                bool was = naive;
                naive    = true;
                bound    = opt("pcap_pb", 2);
                program(p);
                bound = -1;
                naive = was;
                return;
            }
            if (x.seconds && (x.schedules & 63) == 0 && time(nullptr) - x.t0 > x.seconds) {
                x.capped = true;
                return;
            }
        }
        ++x.progs_done;
        if (x.schedules - before > x.most)
            x.most = x.schedules - before;
    }

    void baseline()
    {
        if (bound >= 0)
            naive = true;
        restore(root);
        main_thread("baseline", [&] {
            if (!opt("cold", 0))
                x.h->warm();
            x.h->setup(0);
            int n = x.h->num_threads();
            for (int i = 0; i < n; ++i)
                x.h->thread(i);
            x.h->finish();
        });
        base_use   = x.h->in_use();
        base_elems = C().cnt.live_elems;
        if (!opt("cold", 0)) {
            // function local statics exist from now on
            save(root);
        } else
            restore(root);
    }
};

static u64 wd_last = ~0ull;
static int wd_strikes;
static void watchdog(int)
{
    u64 now = X->total_events + X->schedules;
    if (now != wd_last) {
        wd_last    = now;
        wd_strikes = 0;
    } else if (++wd_strikes >= 4 && E().in_sut)
        violation(vk::hang, "a thread does not reach its next atomic operation");
}

struct Opts
{
    int argc;
    char** argv;
};
static Opts& opts()
{
    static thread_local Opts o;
    return o;
}

long opt(const char* name, long dflt)
{
    auto& o = opts();
    auto n  = strlen(name);
    for (int i = 1; i < o.argc; ++i)
        if (!strncmp(o.argv[i], name, n) && o.argv[i][n] == '=')
            return atol(o.argv[i] + n + 1);
    return dflt;
}

void explore_args(int argc, char** argv) { opts() = {argc, argv}; }

int conc_main(int argc, char** argv, ConcHarness& h)
{
    opts() = {argc, argv};
    auto map = [](std::size_t n) {
        void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            _exit(3);
        }
        return p;
    };
    X         = new (map(sizeof(Conc))) Conc{};
    auto& x   = *X;
    x.h       = &h;
    x.cells   = (Cell*) map(ARENA_SIZE / 8 * sizeof(Cell));
    x.dcells  = (Cell*) map((data_size() / 8 + 2) * sizeof(Cell));
    x.locs    = (Loc*) map(Conc::NLOC * sizeof(Loc));
    for (int t = 1; t < MAXT; ++t)
        x.f[t].stack = (char*) map(256 << 10);
    for (int t = 1; t < MAXT; ++t)
        g_bump[t] = REGION_BASE + REGION * (t - 1);
    x.seconds        = opt("seconds", 0);
    x.norace         = opt("norace", 0);
    x.far            = opt("far", 1);
    x.t0             = time(nullptr);
    E().reuse        = opt("reuse", 0);
    E().report_extra = report_extra;
    struct sigaction sa
    {};
    sa.sa_handler = watchdog;
    sa.sa_flags   = SA_ONSTACK | SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval it{{10, 0}, {10, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    auto r = new Run{x};
    save(r->root);
    r->baseline();
    for (int i = 1; i < argc; ++i)
        if (!strncmp(argv[i], "replay=", 7)) {
            char* p = argv[i] + 7;
            int pr  = (int) strtol(p, &p, 10);
            while (*p == ':' || *p == ',')
                r->forced.push_back((u8) strtol(p + 1, &p, 10));
            if (r->forced.empty())
                r->forced.push_back(1);
            r->program(pr);
            printf("REPLAY-OK no violation\n");
            fflush(stdout);
            _exit(0);
        }
    int n     = h.num_programs();
    long from = opt("seed0", 0), to = opt("seed1", n), step = opt("seedstep", 1);
    if (to > n)
        to = n;
    long total = 0;
    for (long p = from; p < to && !x.capped; p += step, ++total)
        r->program((int) p);
    printf("STATS {\"schedules\": %llu, \"redundant\": %llu, \"states\": %llu, \"transitions\": %llu, \"executed_events\": %llu, \"deepest\": %llu, "
           "\"seeds\": %ld, \"seeds_completed\": %llu, \"seeds_bounded\": %llu, \"most_schedules\": %llu, \"distinct\": %llu, \"conflicts_checked\": %llu, \"capped\": %s, \"seconds\": %ld, \"samples\": [",
           (unsigned long long) x.schedules, (unsigned long long) x.blocked, (unsigned long long) x.states, (unsigned long long) x.transitions,
           (unsigned long long) x.total_events, (unsigned long long) x.maxlen, total, (unsigned long long) x.progs_done, (unsigned long long) x.progs_bounded, (unsigned long long) x.most, (unsigned long long) r->distinct,
           (unsigned long long) x.races_checked, x.capped ? "true" : "false", (long) (time(nullptr) - x.t0));
    bool first = true;
    for (auto& s : x.samples) {
        for (auto& ch : s)
            if (ch == '"' || ch == '\\')
                ch = '\'';
        printf("%s\"%s\"", first ? "" : ", ", s.c_str());
        first = false;
    }
    printf("]}\n");
    fflush(stdout);
    _exit(0);
}

} // namespace mc
