// Arena allocator, shadow memory, emulated TLS, operator new, reports. See core.hpp.
#pragma once
#include "core.hpp"
#include <dlfcn.h>
#include <exception>
#include <unwind.h>

extern "C" {
extern char __data_start[];
extern char _end[];
extern char __start___llvm_prf_cnts[] __attribute__((weak));
extern char __stop___llvm_prf_cnts[] __attribute__((weak));
}

namespace mc {

static const char* vk_name(vk k)
{
    switch (k) {
    case vk::model: return "model";
    case vk::leak: return "leak";
    case vk::memory: return "memory";
    case vk::lifetime: return "lifetime";
    case vk::assertion: return "assertion";
    case vk::crash: return "crash";
    case vk::hang: return "hang";
    case vk::race: return "race";
    case vk::exception: return "exception";
    case vk::cost: return "cost";
    case vk::gc: return "gc";
    }
    return "?";
}

[[noreturn]] void violation(vk kind, const char* fmt, ...)
{
    auto& e = E();
    e.in_sut = 0;
    if (e.in_violation) {
        // a second problem while reporting the first one
        fflush(stdout);
        _exit(1);
    }
    e.in_violation = true;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char* p = buf; *p; ++p)
        if (*p == '\n' || *p == '"' || *p == '\\')
            *p = ' ';
    printf("RAW-VIOLATION {\"kind\": \"%s\", \"phase\": \"%s\", \"msg\": \"%s\"", vk_name(kind), e.phase, buf);
    if (e.report_extra)
        e.report_extra(stdout);
    printf("}\n");
    fflush(stdout);
    _exit(1);
}

static void on_signal(int sig, siginfo_t* si, void*)
{
    violation(sig == SIGALRM ? vk::hang : vk::crash,
              "signal %d (%s) at address %p", sig, strsignal(sig), si ? si->si_addr : nullptr);
}

// name of the function that called std::terminate, "" when it was the runtime (noexcept, no handler)
static const char* terminate_caller()
{
    static thread_local char name[512];
    struct St
    {
        int n;
        bool past;
        u64 pc;
    } st{0, false, 0};
    // frames: this one, on_terminate, libstdc++ (terminate), then the caller
    _Unwind_Backtrace(
        [](_Unwind_Context* c, void* p) {
            auto s  = (St*) p;
            u64 pc  = _Unwind_GetIP(c);
            Dl_info di;
            bool own = dladdr((void*) pc, &di) && di.dli_fname && !strstr(di.dli_fname, ".so");
            if (!own)
                s->past = true;
            else if (s->past) {
                s->pc = pc;
                return _URC_END_OF_STACK;
            }
            return ++s->n > 12 ? _URC_END_OF_STACK : _URC_NO_REASON;
        },
        &st);
    Dl_info di;
    name[0] = 0;
    if (st.pc && dladdr((void*) (st.pc - 1), &di) && di.dli_sname)
        snprintf(name, sizeof name, "%s", strstr(di.dli_sname, "clang_call_terminate") ? "" : di.dli_sname);
    return name;
}

static void on_terminate()
{
    if (E().terminate_hook)
        E().terminate_hook(terminate_caller());
    violation(vk::crash, "std::terminate called");
}

void core_init()
{
    // E() may not be mapped yet: probe with a MAP_FIXED_NOREPLACE
    void* p = mmap((void*) ENGINE_BASE, 4096, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*) ENGINE_BASE)
        return; // already initialised
    auto m = [](u64 b, u64 n) {
        if (mmap((void*) b, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*) b) {
            fprintf(stderr, "mc: cannot map %llx\n", (unsigned long long) b);
            _exit(3);
        }
    };
    m(ARENA_BASE, ARENA_SIZE);
    m(SHADOW_BASE, SHADOW_SIZE);
    auto& e       = E();
    e.inited      = true;
    e.tick_limit  = 400000000ull;
    C().bump      = ARENA_BASE + ((sizeof(Control) + 63) & ~63ull);
    static_assert(sizeof(Engine) <= 4096, "");
    memset(SH(ARENA_BASE), 8, (C().bump - ARENA_BASE) / 8); // the counters are updated by harness code
    // alternate stack, allocated outside of the program's data
    stack_t ss{};
    ss.ss_size = 1 << 16;
    ss.ss_sp   = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    struct sigaction sa
    {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT})
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
}

__attribute__((constructor(101))) static void core_ctor() { core_init(); }

bool in_arena(const void* p) { return inside((u64) p); }
u64 live_blocks() { return C().live_blocks; }
u64 live_bytes() { return C().live_bytes; }
u64 alloc_count() { return C().n_alloc; }
u64 alloc_bytes() { return C().b_alloc; }
counters_t& counters() { return C().cnt; }

#ifndef MC_ON_ALLOC
#define MC_ON_ALLOC(p, n)
#define MC_ON_FREE(p, n)
#endif
#ifndef MC_BUMP // explorer B gives every thread a region and free lists of its own
#define MC_BUMP c.bump
#define MC_BUMP_END (ARENA_BASE + ARENA_SIZE)
#define MC_FREE_LISTS c.free_ready
#endif

static void gc_collect(bool with_stack);
static void release_block(u64 h0);

static void* raw_alloc(std::size_t n, u32 tag)
{
    auto& c   = C();
    u64 total = (n + 16 + 8 + 15) & ~15ull; // header + >= 8 bytes of red zone
    u64 a     = 0;
    if (E().reuse && total / 16 < 128 && MC_FREE_LISTS[total / 16]) {
        a                         = (u64) MC_FREE_LISTS[total / 16];
        MC_FREE_LISTS[total / 16] = *(void**) (a + 16);
    } else {
        a = MC_BUMP;
        MC_BUMP += total;
        if (MC_BUMP > MC_BUMP_END)
            violation(vk::memory, "arena exhausted (runaway allocation of %zu bytes)", n);
    }
    auto h = (Hdr*) a;
    *h     = {(u32) n, (u32) total, tag, ++c.serial};
    memset((void*) (a + 16), 0xA5, total - 16);
    u8* s = SH(a);
    s[0] = s[1]  = SH_HDR;
    u64 granules = (total - 16) / 8;
    u64 full     = n / 8;
    memset(s + 2, 8, full);
    memset(s + 2 + full, SH_RED, granules - full);
    if (n & 7)
        s[2 + full] = n & 7;
    if (tag != tag_engine) {
        ++c.live_blocks;
        c.live_bytes += n;
        ++c.n_alloc;
        c.b_alloc += n;
    }
    MC_ON_ALLOC(a + 16, n);
    return (void*) (a + 16);
}

void* alloc(std::size_t n, u32 tag)
{
    if (tag != tag_engine)
        fault_point(fk::alloc);
    if (n > (64u << 20))
        violation(vk::memory, "allocation of %zu bytes", n);
    if (E().gc > 1 && E().in_sut)
        gc_collect(true);
    return raw_alloc(n, tag);
}

void dealloc(void* p, std::size_t n, u32 tag, bool check_size)
{
    u64 a = (u64) p;
    if (!inside(a))
        violation(vk::memory, "deallocate of a pointer not from this heap: %p", p);
    u64 h0 = a - 16;
    if ((a & 15) || SH(h0)[0] != SH_HDR || SH(h0)[1] != SH_HDR)
        violation(vk::memory, SH(h0)[0] == SH_FHDR ? "double deallocate of block at %p" : "deallocate of an invalid pointer %p", p);
    auto h = (Hdr*) h0;
    if (check_size && h->size != n)
        violation(vk::memory, "deallocate with size %zu of a block allocated with size %u", n, h->size);
    (void) tag; // the library gives no tags back on deallocation: see DESIGN.md
    MC_ON_FREE(a, h->size);
    auto& c = C();
    if (h->tag != tag_engine) {
        --c.live_blocks;
        c.live_bytes -= h->size;
    }
    release_block(h0);
}

void cached_blocks(int d) { C().cached += d; }
std::int64_t user_blocks() { return C().user; }

void user_take(void* p, std::size_t n)
{
    ++C().user;
    if (!inside((u64) p))
        return;
    auto b = SH((u64) p);
    for (u64 i = 0; i < (n + 7) / 8; ++i) {
        if (b[i] >= (SH_USER | 1) && b[i] <= (SH_USER | 8))
            violation(vk::memory, "a heap gives out memory that is in use: %p, %zu bytes", p, n);
        if (b[i] != SH_FREED && !(b[i] >= 1 && b[i] <= 8))
            violation(vk::memory, "a heap gives out memory that is not its own: %p, %zu bytes", p, n);
    }
    memset(b, SH_USER | 8, n / 8);
    if (n & 7)
        b[n / 8] = SH_USER | (n & 7);
    memset(p, 0xA5, n);
}

void user_give(void* p, std::size_t n)
{
    --C().user;
    if (!inside((u64) p))
        return;
    auto b = SH((u64) p);
    for (u64 i = 0; i < (n + 7) / 8; ++i)
        if (!(b[i] >= (SH_USER | 1) && b[i] <= (SH_USER | 8)))
            violation(vk::memory, "a block of %zu bytes at %p is given back although it is not in use", n, p);
    MC_ON_FREE((u64) p, n);
    memset(p, 0xDE, n);
    memset(b, SH_FREED, (n + 7) / 8);
}

static void release_block(u64 h0)
{
    auto& c = C();
    auto h  = (Hdr*) h0;
    u8* s   = SH(h0);
    s[0] = s[1] = SH_FHDR;
    memset(s + 2, SH_FREED, (h->total - 16) / 8);
    memset((void*) (h0 + 16), 0xDE, h->total - 16);
    if (h->total / 16 < 128) {
#ifdef MC_EAGER_REUSE
        *(void**) (h0 + 16)           = MC_FREE_LISTS[h->total / 16];
        MC_FREE_LISTS[h->total / 16] = (void*) h0;
#else
        *(void**) (h0 + 16) = c.pending;
        c.pending           = (void*) h0;
#endif
    }
}

// The longest chain of pointers between blocks; what refers back into the same chain is not followed.
static int depth_of_range(u64 p, u64 n, u64 own);
static int depth_of_block(u64 g)
{
    const u32 st = E().depth_stamp;
    u32& d = E().depth_mark[(g - ARENA_BASE) / 16];
    if (d >> 8 == st)
        return (int) (d & 0xff);
    d     = st << 8;
    int r = 1 + depth_of_range(g + 16, ((Hdr*) g)->size, g);
    d     = st << 8 | (u32) (r > 255 ? 255 : r);
    return r;
}
static int depth_of_range(u64 p, u64 n, u64 own)
{
    int best = 0;
    for (u64 i = 0; i + 8 <= n; i += 8) {
        u64 w = *(const u64*) (p + i);
        if (!inside(w) || w - ARENA_BASE < sizeof(Control))
            continue;
        u64 g = w & ~7ull;
        u8 s  = *SH(g);
        if (s == SH_NONE || s == SH_FREED || s == SH_FHDR || s == SH_HDR)
            continue;
        while (*SH(g) != SH_HDR)
            g -= 8;
        g -= 8;
        if (g == own)
            continue;
        int k = depth_of_block(g);
        if (k > best)
            best = k;
    }
    return best;
}
static void* pages(std::size_t n)
{
    return mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
int graph_depth(const void* p, std::size_t n)
{
    auto& e = E();
    if (!e.depth_mark)
        e.depth_mark = (u32*) pages(ARENA_SIZE / 16 * sizeof(u32));
    e.depth_stamp = (e.depth_stamp + 1) & 0xffffff;
    if (!e.depth_stamp)
        e.depth_stamp = 1;
    return depth_of_range((u64) p, n, 0);
}
// Blocks that can be reached in more than one way, from the ranges given so far (at most 32 since begin).
static u32 excl_shared;
static void excl_range(u64 p, u64 n, u64 own, u32 id)
{
    auto& e = E();
    for (u64 i = 0; i + 8 <= n; i += 8) {
        u64 w = *(const u64*) (p + i);
        if (!inside(w) || w - ARENA_BASE < sizeof(Control))
            continue;
        u64 g = w & ~7ull;
        u8 s  = *SH(g);
        if (s == SH_NONE || s == SH_FREED || s == SH_FHDR || s == SH_HDR)
            continue;
        while (*SH(g) != SH_HDR)
            g -= 8;
        g -= 8;
        if (g == own)
            continue;
        u32& d = e.depth_mark[(g - ARENA_BASE) / 16];
        if (d >> 8 == e.depth_stamp) {
            excl_shared |= 1u << id | 1u << (d & 0xff);
            continue;
        }
        d = e.depth_stamp << 8 | id;
        excl_range(g + 16, ((Hdr*) g)->size, g, id);
    }
}
void exclusive_begin()
{
    graph_depth(nullptr, 0); // a new stamp
    excl_shared = 0;
}
void exclusive_add(const void* p, std::size_t n, int id) { excl_range((u64) p, n, 0, (u32) id); }
bool exclusive(int id) { return !(excl_shared >> id & 1); }
u64* persistent_words()
{
    auto& e = E();
    if (!e.words)
        e.words = (u64*) pages(4096 * 8);
    return e.words;
}

// What a conservative mark and sweep collector may do at this point: everything that is not reachable
// from the data segment, the thread locals and the stack is poisoned. Blocks allocated with norefs_tag
// are not searched for pointers.
__attribute__((noinline)) static void gc_collect(bool with_stack)
{
    __builtin_unwind_init();
    auto& e = E();
    auto& c = C();
    if (!e.gc_mark)
        e.gc_mark = (u32*) mmap(0, ARENA_SIZE / 16 * sizeof(u32), PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ++e.gc_runs;
    const u32 st    = ++e.gc_stamp;
    const u64 first = ARENA_BASE + ((sizeof(Control) + 63) & ~63ull);
    static thread_local std::vector<u64>* work_;
    if (!work_) {
        int was  = e.in_sut;
        e.in_sut = 0;
        work_    = new std::vector<u64>;
        work_->reserve(1 << 16);
        e.in_sut = was;
    }
    auto& work = *work_;
    work.clear();
    auto visit = [&](u64 w) {
        if (!inside(w) || w < first || w >= c.bump)
            return;
        u64 g = w & ~7ull;
        u8 s  = *SH(g);
        if (s == 0 || s == SH_FREED || s == SH_FHDR)
            return;
        if (s == SH_HDR)
            return;
        while (*SH(g) != SH_HDR)
            g -= 8;
        g -= 8;
        auto& m = e.gc_mark[(g - ARENA_BASE) / 16];
        if (m != st) {
            m = st;
            if (((Hdr*) g)->tag != tag_norefs)
                work.push_back(g);
        }
    };
    auto range = [&](const void* p, std::size_t n) {
        auto q = (const u64*) (((u64) p + 7) & ~7ull);
        for (std::size_t i = 0; i < n / 8; ++i)
            visit(q[i]);
    };
    range(__data_start, _end - __data_start);
    for (int i = 0; i < c.n_tls; ++i)
        visit((u64) c.tls[i].mem);
    if (with_stack) {
        u64 sp;
        asm volatile("mov %%rsp, %0" : "=r"(sp));
        range((void*) sp, e.gc_stack_top - sp);
    }
    while (!work.empty()) {
        u64 g = work.back();
        work.pop_back();
        range((void*) (g + 16), ((Hdr*) g)->size);
    }
    for (u64 h = first; h < c.bump; h += ((Hdr*) h)->total)
        if (*SH(h) == SH_HDR && ((Hdr*) h)->tag != tag_engine && e.gc_mark[(h - ARENA_BASE) / 16] != st) {
            --c.live_blocks;
            c.live_bytes -= ((Hdr*) h)->size;
            ++e.gc_freed;
            release_block(h);
        }
}

// What a collector has freed although a word in a block it does not search still names it (a dead owner
// token, say) is given out next: the worst that the addresses of new blocks can do.
static void prefer_named()
{
    auto& c         = C();
    const u64 first = ARENA_BASE + ((sizeof(Control) + 63) & ~63ull);
    for (u64 h = first; h < c.bump; h += ((Hdr*) h)->total) {
        if (*SH(h) != SH_HDR || ((Hdr*) h)->tag != tag_norefs)
            continue;
        auto q = (const u64*) (h + 16);
        for (u32 k = 0; k < ((Hdr*) h)->size / 8; ++k) {
            u64 w = q[k];
            if (!inside(w) || w < first || w >= c.bump || *SH(w & ~15ull) != SH_FREED)
                continue;
            u64 f = (w & ~15ull) - 16;
            if (*SH(f) != SH_FHDR || ((Hdr*) f)->total / 16 >= 128)
                continue;
            void** l = &c.free_ready[((Hdr*) f)->total / 16];
            while (*l && (u64) *l != f)
                l = (void**) ((char*) *l + 16);
            if (!*l)
                continue;
            auto& head = c.free_ready[((Hdr*) f)->total / 16];
            *l                 = *(void**) (f + 16);
            *(void**) (f + 16) = head;
            head               = (void*) f;
        }
    }
}

void begin_step()
{
    if (E().gc)
        gc_collect(false);
    auto& c = C();
    while (c.pending) {
        auto h       = (u64) c.pending;
        c.pending    = *(void**) (h + 16);
        auto i       = ((Hdr*) h)->total / 16;
        *(void**) (h + 16) = c.free_ready[i];
        c.free_ready[i]    = (void*) h;
    }
    if (E().gc)
        prefer_named();
    E().ticks = 0;
}

bool fault_armed() { return E().f_armed; }

void fault_point(fk)
{
    auto& e = E();
    if (!e.f_armed)
        return;
    int k = e.f_count++;
    if (k == e.f_target) {
        e.f_hit = 1;
        throw fault{k};
    }
}

static const char* access_problem(u64 a, unsigned n)
{
    u8 s = *SH(a);
    if (s == SH_FREED || s == SH_FHDR)
        return "use after free";
    if (s == SH_HDR || s == SH_RED)
        return "out of bounds";
    if (s == 0)
        return "wild pointer";
    (void) n;
    return "out of bounds";
}

[[noreturn]] __attribute__((noinline)) static void bad_access(u64 a, unsigned n, bool w)
{
    violation(vk::memory, "%s: %s of %u bytes at %#llx", access_problem(a, n), w ? "write" : "read", n,
              (unsigned long long) a);
}

static inline void check_access(u64 a, unsigned n, bool w)
{
    if (!inside(a))
        return;
    u8 s = *SH(a) & ~SH_USER;
    if (__builtin_expect(!(s <= 8 && (a & 7) + n <= s), 0)) {
        // crosses granules?
        u64 end = a + n;
        for (u64 x = a; x < end;) {
            u64 stop = (x & ~7ull) + 8;
            if (stop > end)
                stop = end;
            u8 v = *SH(x) & ~SH_USER;
            if (!(v <= 8 && v > 0 && ((stop - 1) & 7) < v))
                bad_access(a, n, w);
            x = stop;
        }
    }
}

static void check_range(u64 a, u64 n, bool w)
{
    if (!n || !inside(a))
        return;
    u64 end = a + n;
    for (u64 x = a; x < end;) {
        u64 stop = (x & ~7ull) + 8;
        if (stop > end)
            stop = end;
        u8 v = *SH(x) & ~SH_USER;
        if (!(v <= 8 && v > 0 && ((stop - 1) & 7) < v))
            bad_access(x, (unsigned) n, w);
        x = stop;
    }
}

static void tick_overflow()
{
    violation(vk::hang, "no termination within the step limit");
}

} // namespace mc

using namespace mc;

// ---- global new/delete ------------------------------------------------------
void* operator new(std::size_t n)
{
    if (E().in_sut)
        return mc::alloc(n, tag_none);
    void* p = malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
static void del(void* p, std::size_t n, bool sized)
{
    if (!p)
        return;
    if (inside((u64) p))
        mc::dealloc(p, n, tag_none, sized);
    else
        free(p);
}
void operator delete(void* p) noexcept { del(p, 0, false); }
void operator delete[](void* p) noexcept { del(p, 0, false); }
void operator delete(void* p, std::size_t n) noexcept { del(p, n, true); }
void operator delete[](void* p, std::size_t n) noexcept { del(p, n, true); }

// ---- assert -----------------------------------------------------------------
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char*) noexcept
{
    const char* b = strrchr(file, '/');
    violation(vk::assertion, "assertion failed: %s (%s:%u)", expr, b ? b + 1 : file, line);
}

// ---- emulated TLS: one copy per fiber, in the arena ---------------------------
struct emutls_object
{
    std::size_t size, align;
    union
    {
        uintptr_t offset;
        void* ptr;
    } loc;
    void* templ;
};

extern "C" void* __emutls_get_address(emutls_object* o)
{
    auto& c = C();
    int f   = E().cur_fiber;
    for (int i = 0; i < c.n_tls; ++i)
        if (c.tls[i].obj == o && c.tls[i].fiber == f)
            return c.tls[i].mem;
    if (c.n_tls == MAX_TLS)
        violation(vk::memory, "engine: too many thread locals");
    void* p = raw_alloc(o->size, tag_engine);
    if (o->templ)
        memcpy(p, o->templ, o->size);
    else
        memset(p, 0, o->size);
    c.tls[c.n_tls++] = {o, f, p};
    return p;
}
