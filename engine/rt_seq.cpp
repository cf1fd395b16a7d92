// Explorer A: explicit-state search over operation histories of the real code.
#include "core_impl.hpp"
#include <new>
#include <algorithm>
#include <csetjmp>
#include <cxxabi.h>
#include <map>
#include <string>
#include <sys/time.h>

namespace mc {
static inline void tick()
{
    if (__builtin_expect(++E().ticks > E().tick_limit, 0))
        tick_overflow();
}
static inline void on_read(u64 a, unsigned n) { tick(); check_access(a, n, false); }
static inline void on_write(u64 a, unsigned n) { tick(); check_access(a, n, true); }
static inline void on_range(u64 a, u64 n, bool w) { tick(); check_range(a, n, w); }
static inline void on_func() { tick(); }
template <class T>
static T a_load(T* a, int) { on_read((u64) a, sizeof(T)); return *a; }
template <class T>
static void a_store(T* a, T v, int) { on_write((u64) a, sizeof(T)); *a = v; }
template <class T, class F>
static T a_rmw(T* a, int, F f) { on_write((u64) a, sizeof(T)); T o = *a; *a = f(o); return o; }
template <class T>
static int a_cas(T* a, T* c, T v, int, int, bool)
{
    on_write((u64) a, sizeof(T));
    if (*a == *c) { *a = v; return 1; }
    *c = *a;
    return 0;
}
static void a_fence(int) {}
} // namespace mc
#include "hooks.hpp"

extern "C" int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }

namespace mc {

// ---------------------------------------------------------------- snapshots
struct Snap
{
    u8* buf = nullptr;
    std::size_t cap = 0;
    u64 bump = 0;
};

static std::size_t data_size() { return (std::size_t) (_end - __data_start); }

static void data_copy(u8* dst, bool save)
{
    // everything but the profile counters of a coverage build
    std::size_t n = data_size();
    std::size_t lo = n, hi = n;
    if (&__start___llvm_prf_cnts[0]) {
        lo = __start___llvm_prf_cnts - __data_start;
        hi = __stop___llvm_prf_cnts - __data_start;
        if (lo > n) lo = hi = n;
    }
    char* d = __data_start;
    if (save) {
        memcpy(dst, d, lo);
        memcpy(dst + hi, d + hi, n - hi);
    } else {
        memcpy(d, dst, lo);
        memcpy(d + hi, dst + hi, n - hi);
    }
}

static void save(Snap& s)
{
    u64 used = C().bump - ARENA_BASE;
    std::size_t need = used + used / 8 + data_size();
    if (s.cap < need) {
        free(s.buf);
        s.cap = need + need / 4;
        s.buf = (u8*) malloc(s.cap);
    }
    s.bump = C().bump;
    memcpy(s.buf, (void*) ARENA_BASE, used);
    memcpy(s.buf + used, (void*) SHADOW_BASE, used / 8);
    data_copy(s.buf + used + used / 8, true);
}

static void restore(const Snap& s)
{
    u64 cur  = C().bump;
    u64 used = s.bump - ARENA_BASE;
    memcpy((void*) ARENA_BASE, s.buf, used);
    memcpy((void*) SHADOW_BASE, s.buf + used, used / 8);
    if (cur > s.bump)
        memset((void*) (SHADOW_BASE + used / 8), 0, (cur - s.bump) / 8);
    data_copy(s.buf + used + used / 8, false);
}

// ---------------------------------------------------------------- canonical form
struct H128
{
    u64 a = 0x9e3779b97f4a7c15ull, b = 0xc2b2ae3d27d4eb4full;
    void add(u64 x)
    {
        a ^= x;
        a *= 0xff51afd7ed558ccdull;
        a ^= a >> 32;
        b += x * 0x9fb21c651e98df25ull;
        b = (b << 29) | (b >> 35);
        b *= 0xc4ceb9fe1a85ec53ull;
        b ^= b >> 31;
    }
};

struct Vis
{
    u32 stamp, idx;
};

struct Explorer
{
    Harness* h = nullptr;
    int max_depth = 2;
    bool faults = false, leak = true, fixpoint = false, do_battery = true, anon = false;
    long shard = 0, nshards = 1, cap_states = 0, seconds = 0;
    time_t t0 = 0;
    // statistics
    u64 transitions = 0, states = 0, fault_runs = 0, batteries = 0, dup = 0, deepest = 0, pruned_by_cap = 0;
    u64 seeds_done = 0, max_blocks = 0, traces = 0;
    bool capped = false;
    std::map<int, u64> per_kind;
    std::vector<std::string> samples;
    // search
    struct Ent
    {
        u64 a;
        u32 b;
        int depth;
    };
    std::vector<Ent> table;
    u64 used = 0;
    std::vector<Op> path;
    int cur_seed = 0, cur_fault = -1;
    Vis* vis     = nullptr;
    u32 stamp    = 0;
    u64 baseline_blocks = 0;
    std::int64_t baseline_elems = 0;
    std::vector<Snap*> pool;

    Snap* get_snap()
    {
        if (pool.empty())
            return new Snap;
        auto s = pool.back();
        pool.pop_back();
        return s;
    }

    H128 canon()
    {
        H128 hh;
        Range roots[256];
        int nr = h->roots(roots, 256);
        if (++stamp == 0)
            stamp = 1;
        static thread_local std::vector<u64>* queue_;
        if (!queue_)
            queue_ = new std::vector<u64>;
        auto& queue = *queue_;
        queue.clear();
        static thread_local std::unordered_map<u64, u64>* vals_;
        if (!vals_)
            vals_ = new std::unordered_map<u64, u64>;
        auto& vals = *vals_;
        vals.clear();
        u32 nidx  = 0;
        auto word = [&](u64 w) {
            if ((w >> 48) == 0xE1E5) {
                if (anon) { // the code under test takes no decision on element values
                    hh.add(0x1000);
                    return;
                }
                auto it = vals.emplace(w, vals.size()).first;
                hh.add(0x1000 + it->second);
            } else if (inside(w) && w - ARENA_BASE >= sizeof(Control)) {
                u64 g = w & ~7ull;
                u8 s  = *SH(g);
                if (s == 0 || s == SH_FREED || s == SH_FHDR || s == SH_HDR) {
                    hh.add(0x7777);
                    return;
                }
                while (*SH(g) != SH_HDR)
                    g -= 8;
                g -= 8; // second granule of the header was met first
                u64 blk = g;
                auto& v = vis[(blk - ARENA_BASE) / 16];
                if (v.stamp != stamp) {
                    v.stamp = stamp;
                    v.idx   = nidx++;
                    queue.push_back(blk);
                }
                hh.add(0x2000000000ull + ((u64) v.idx << 20) + (w - blk));
            } else
                hh.add(w);
        };
        for (int i = 0; i < nr; ++i) {
            hh.add(0xabcd0000 + roots[i].n);
            auto p = (u64*) roots[i].p;
            for (std::size_t k = 0; k < roots[i].n / 8; ++k)
                word(p[k]);
        }
        for (std::size_t q = 0; q < queue.size(); ++q) {
            auto hd = (Hdr*) queue[q];
            hh.add(0xb10c000000ull + hd->size + ((u64) hd->tag << 32));
            auto p = (u64*) (queue[q] + 16);
            u64 n  = hd->size / 8;
            for (u64 k = 0; k < n; ++k)
                word(p[k]);
            if (hd->size & 7) {
                u64 w = 0;
                memcpy(&w, p + n, hd->size & 7);
                hh.add(w);
            }
        }
        if (leak) {
            hh.add(C().live_blocks - C().cached);
            hh.add(C().cnt.live_elems);
        }
        if (queue.size() > max_blocks)
            max_blocks = queue.size();
        return hh;
    }

    // returns true when the state has to be expanded
    enum seen_t { fresh, shallower, known };
    seen_t visit(const H128& hh, int depth)
    {
        if (used * 2 >= table.size()) {
            std::vector<Ent> old;
            old.swap(table);
            table.assign(old.empty() ? 1 << 16 : old.size() * 2, Ent{0, 0, -1});
            for (auto& x : old)
                if (x.depth >= 0)
                    *slot(x.a, x.b) = x;
        }
        auto e = slot(hh.a, (u32) hh.b);
        if (e->depth < 0) {
            *e = {hh.a, (u32) hh.b, depth};
            ++used;
            return fresh;
        }
        if (!fixpoint && e->depth > depth) {
            e->depth = depth;
            return shallower;
        }
        return known;
    }
    Ent* slot(u64 a, u32 b)
    {
        std::size_t m = table.size() - 1, i = a & m;
        while (table[i].depth >= 0 && !(table[i].a == a && table[i].b == b))
            i = (i + 1) & m;
        return &table[i];
    }

    template <class F>
    void sut(const char* phase, F f)
    {
        snprintf(E().phase, sizeof E().phase, "%s", phase);
        E().ticks  = 0;
        if (E().gc)
            enter_gc();
        E().in_sut = 1;
        f();
        E().in_sut = 0;
    }

    // the frames of the code under test start here; what older calls left behind is no reference
    __attribute__((noinline)) void enter_gc()
    {
        E().gc_stack_top = (u64) __builtin_frame_address(0);
        volatile char junk[16384];
        memset((void*) junk, 0, sizeof junk);
        asm volatile("" ::"r"(junk) : "memory");
    }

    void leak_check(const char* when)
    {
        if (!leak)
            return;
        if (C().cnt.live_elems != baseline_elems)
            violation(vk::leak, "%s: %lld element objects alive after everything was destroyed (expected %lld)", when,
                      (long long) C().cnt.live_elems, (long long) baseline_elems);
        if (C().live_blocks - C().cached != baseline_blocks)
            violation(vk::leak, "%s: %llu memory blocks alive after everything was destroyed (expected %llu)", when,
                      (unsigned long long) (C().live_blocks - C().cached), (unsigned long long) baseline_blocks);
    }

    std::string path_str()
    {
        char buf[512];
        h->describe_seed(cur_seed, buf, sizeof buf);
        std::string s = buf;
        for (auto& o : path) {
            h->describe(o, buf, sizeof buf);
            s += "; ";
            s += buf;
        }
        return s;
    }

    void on_new_state(Snap* child)
    {
        if (do_battery) {
            sut("battery", [&] { h->battery(); });
            ++batteries;
            restore(*child);
        }
        sut("teardown", [&] { h->teardown(); });
        leak_check("teardown");
        restore(*child);
    }

    jmp_buf jb;
    const Op* fault_op = nullptr;
    std::map<std::string, u64> known_hits;
    static bool on_terminate_hook(const char* caller)
    {
        auto& x = *self();
        if (!x.fault_op)
            return false;
        auto tag = x.h->known_terminate(*x.fault_op, caller);
        if (!tag)
            return false;
        E().in_sut = 0;
        ++x.known_hits[tag];
        longjmp(x.jb, 1);
    }

    void run_faults(const Op& op, Snap* from, int npoints)
    {
        struct Globals
        {
            void* caught;
            unsigned uncaught;
        };
        auto gl = (Globals*) abi::__cxa_get_globals();
        for (int k = 0; k < npoints; ++k) {
            restore(*from);
            begin_step();
            auto& e    = E();
            cur_fault  = k;
            e.f_target = k;
            e.f_count  = 0;
            e.f_hit    = 0;
            e.f_armed  = true;
            bool thrown = false;
            snprintf(e.phase, sizeof e.phase, "fault");
            e.ticks  = 0;
            Globals saved = *gl;
            fault_op      = &op;
            if (setjmp(jb) == 0) {
                e.in_sut = 1;
                try {
                    h->apply(op);
                } catch (const fault&) {
                    thrown = true;
                } catch (const std::bad_alloc&) { // what gc_heap makes of it
                    thrown = true;
                }
            } else { // a listed finding; the state is restored below
                *gl        = saved;
                e.f_armed  = false;
                fault_op   = nullptr;
                cur_fault  = -1;
                ++fault_runs;
                continue;
            }
            fault_op  = nullptr;
            e.f_armed = false;
            if (!thrown)
                violation(vk::exception, "exception injected at fault point %d did not propagate", k);
            h->after_fault(op);
            h->check();
            e.in_sut = 0;
            if (do_battery)
                sut("battery after fault", [&] { h->battery(); });
            sut("teardown after fault", [&] { h->teardown(); });
            leak_check("teardown after fault");
            ++fault_runs;
            cur_fault = -1;
        }
    }

    bool out_of_time()
    {
        if (capped)
            return true;
        if (seconds && (transitions & 255) == 0 && time(nullptr) - t0 > seconds)
            capped = true;
        if (cap_states && states >= (u64) cap_states)
            capped = true;
        return capped;
    }

    std::vector<Op> enabled(int depth)
    {
        static thread_local std::vector<Op>* buf;
        if (!buf)
            buf = new std::vector<Op>(8192);
        E().in_sut = 1;
        int n      = h->ops(buf->data(), (int) buf->size(), depth);
        E().in_sut = 0;
        return std::vector<Op>(buf->begin(), buf->begin() + n);
    }

    // one transition of the real code from the current state; the last operation of `path`
    seen_t step(const Op& op, int depth, int& npoints)
    {
        begin_step();
        if (faults) {
            E().f_armed  = true;
            E().f_target = -1;
            E().f_count  = 0;
        }
        sut("apply", [&] { h->apply(op); });
        E().f_armed = false;
        npoints     = E().f_count;
        sut("check", [&] { h->check(); });
        ++transitions;
        ++per_kind[op.kind];
        auto hh   = canon();
        auto seen = visit(hh, depth + 1);
        if (seen == fresh) {
            ++states;
            if (samples.size() < 3 || (states & (states - 1)) == 0)
                if (samples.size() < 12)
                    samples.push_back(path_str());
        } else
            ++dup;
        if ((u64) depth + 1 > deepest)
            deepest = depth + 1;
        return seen;
    }

    void step_faults(const Op& op, Snap* here, int npoints)
    {
        bool ok    = false;
        E().in_sut = 1;
        restore(*here);
        ok         = h->faultable(op);
        E().in_sut = 0;
        if (ok)
            run_faults(op, here, npoints);
    }

    void dfs(int depth, Snap* here, bool sharded)
    {
        auto ops   = enabled(depth);
        int n      = (int) ops.size();
        bool first = true;
        for (int i = 0; i < n; ++i) {
            if (sharded && ((i + cur_seed * 7) % nshards) != shard)
                continue;
            if (out_of_time()) {
                ++pruned_by_cap;
                return;
            }
            if (!first)
                restore(*here);
            first = false;
            path.push_back(ops[i]);
            int npoints;
            auto seen   = step(ops[i], depth, npoints);
            bool expand = seen != known && depth + 1 < max_depth;
            if (!expand)
                ++traces; // a maximal history, executed and compared step by step
            if (seen == fresh || expand) {
                auto child = get_snap();
                save(*child);
                if (seen == fresh)
                    on_new_state(child);
                if (expand)
                    dfs(depth + 1, child, false);
                pool.push_back(child);
            }
            if (faults)
                step_faults(ops[i], here, npoints);
            path.pop_back();
        }
    }

    // every state reachable from the seed by histories of any length, as long as the harness calls the
    // states on the way bounded; shortest histories first
    void bfs(Snap* root)
    {
        struct Node
        {
            u32 parent;
            Op op;
        };
        std::vector<Node> nodes{{0, {}}};
        auto here = get_snap();
        auto child = get_snap();
        for (u32 i = 0; i < nodes.size(); ++i) {
            path.clear();
            for (u32 k = i; k; k = nodes[k].parent)
                path.push_back(nodes[k].op);
            std::reverse(path.begin(), path.end());
            restore(*root);
            for (auto& o : path) {
                begin_step();
                sut("apply", [&] { h->apply(o); });
            }
            save(*here);
            int depth = (int) path.size();
            auto ops  = enabled(depth);
            bool first = true;
            for (auto& o : ops) {
                if (out_of_time()) {
                    pruned_by_cap += nodes.size() - i;
                    pool.push_back(here);
                    pool.push_back(child);
                    return;
                }
                if (!first)
                    restore(*here);
                first = false;
                path.push_back(o);
                int npoints;
                auto seen = step(o, depth, npoints);
                if (seen == fresh) {
                    save(*child);
                    bool in    = false;
                    E().in_sut = 1;
                    in         = h->bounded() && (!max_depth || depth + 1 < max_depth);
                    E().in_sut = 0;
                    if (in)
                        nodes.push_back({i, o});
                    else
                        ++traces;
                    on_new_state(child);
                } else
                    ++traces;
                if (faults)
                    step_faults(o, here, npoints);
                path.pop_back();
            }
        }
        pool.push_back(here);
        pool.push_back(child);
    }

    // CPU time without a single finished step: a loop that the access counter does not see
    u64 wd_last = ~0ull;
    int wd_strikes = 0;
    static void watchdog(int)
    {
        auto& x = *self();
        u64 now = x.transitions + x.fault_runs + x.batteries * 3 + x.seeds_done;
        if (now != x.wd_last) {
            x.wd_last    = now;
            x.wd_strikes = 0;
        } else if (++x.wd_strikes >= 4 && E().in_sut)
            violation(vk::hang, "an operation does not end");
    }
    void start_watchdog()
    {
        struct sigaction sa
        {};
        sa.sa_handler = watchdog;
        sa.sa_flags   = SA_ONSTACK | SA_RESTART;
        sigaction(SIGPROF, &sa, nullptr);
        itimerval it{{10, 0}, {10, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
    }

    static Explorer*& self()
    {
        static thread_local Explorer* s;
        return s;
    }

    static void extra(FILE* f)
    {
        auto& x = *self();
        fprintf(f, ", \"seed\": %d, \"fault\": %d, \"ops\": [", x.cur_seed, x.cur_fault);
        for (std::size_t i = 0; i < x.path.size(); ++i) {
            auto& o = x.path[i];
            fprintf(f, "%s[%d,%d,%d,%d,%d,%d]", i ? "," : "", o.kind, o.d, o.a, o.b, o.x, o.y);
        }
        auto s = x.path_str();
        for (auto& ch : s)
            if (ch == '"' || ch == '\\')
                ch = '\'';
        fprintf(f, "], \"history\": \"%s\"", s.c_str());
    }

    void baseline()
    {
        // one throw-away world so that function-local statics exist
        Snap s0;
        save(s0);
        sut("baseline", [&] {
            h->seed(0);
            h->teardown();
        });
        C().n_tls = C().n_tls;
        baseline_blocks = C().live_blocks - C().cached;
        baseline_elems  = C().cnt.live_elems;
    }

    int replay(const char* spec)
    {
        // seed:fault:k,d,a,b,x,y;...
        int off = 0;
        if (sscanf(spec, "%d:%d:%n", &cur_seed, &cur_fault, &off) < 2)
            return 2;
        std::vector<Op> ops;
        const char* p = spec + off;
        while (*p) {
            int v[6], n = 0;
            if (sscanf(p, "%d,%d,%d,%d,%d,%d%n", v, v + 1, v + 2, v + 3, v + 4, v + 5, &n) < 6)
                break;
            ops.push_back({(u8) v[0], (u8) v[1], (u8) v[2], (u8) v[3], v[4], v[5]});
            p += n;
            if (*p == ';')
                ++p;
        }
        int fp = cur_fault;
        cur_fault = -1;
        Snap root, here, tmp;
        save(root);
        begin_step();
        sut("seed", [&] { h->seed(cur_seed); h->check(); });
        save(here);
        on_new_state(&here);
        for (std::size_t i = 0; i < ops.size(); ++i) {
            path.push_back(ops[i]);
            save(here);
            if (fp >= 0 && i + 1 == ops.size()) {
                // all points up to and including fp, in order
                run_faults(ops[i], &here, fp + 1);
                restore(here);
                break;
            }
            begin_step();
            sut("apply", [&] { h->apply(ops[i]); });
            sut("check", [&] { h->check(); });
            save(tmp);
            on_new_state(&tmp);
        }
        printf("REPLAY-OK no violation: %s\n", path_str().c_str());
        return 0;
    }

    int main(int argc, char** argv)
    {
        self()           = this;
        E().report_extra = extra;
        E().terminate_hook = on_terminate_hook;
        max_depth = (int) opt("depth", opt("fix", 0) ? 0 : 2);
        faults    = opt("faults", 0);
        leak      = opt("leak", 1);
        fixpoint  = opt("fix", 0);
        anon      = opt("anon", 0);
        do_battery = opt("battery", 1);
        shard     = opt("shard", 0);
        nshards   = opt("nshards", 1);
        seconds   = opt("seconds", 0);
        cap_states = opt("cap", 0);
        E().reuse = opt("reuse", 1);
        E().gc    = (int) opt("gc", 0);
        t0        = time(nullptr);
        vis = (Vis*) mmap(0, ARENA_SIZE / 16 * sizeof(Vis), PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        start_watchdog();
        baseline();
        for (int i = 1; i < argc; ++i)
            if (!strncmp(argv[i], "replay=", 7))
                return replay(argv[i] + 7);
        Snap* root = get_snap();
        save(*root);
        int ns = h->num_seeds();
        long s_lo = opt("seed0", 0), s_hi = opt("seed1", ns), s_step = opt("seedstep", 1);
        if (s_hi > ns)
            s_hi = ns;
        for (cur_seed = (int) s_lo; cur_seed < s_hi; cur_seed += (int) s_step) {
            restore(*root);
            begin_step();
            path.clear();
            sut("seed", [&] { h->seed(cur_seed); h->check(); });
            auto hh   = canon();
            auto seen = visit(hh, 0);
            auto child = get_snap();
            save(*child);
            if (seen == fresh) {
                ++states;
                on_new_state(child);
            }
            if (fixpoint) {
                if (seen == fresh)
                    bfs(child);
            } else if (seen != known && max_depth > 0)
                dfs(0, child, nshards > 1);
            pool.push_back(child);
            if (capped)
                break;
            ++seeds_done;
        }
        printf("STATS {\"states\": %llu, \"transitions\": %llu, \"duplicates\": %llu, \"fault_runs\": %llu, \"batteries\": %llu, "
               "\"deepest\": %llu, \"depth_bound\": %d, \"fixpoint\": %s, \"seeds\": %d, \"seeds_completed\": %llu, \"capped\": %s, \"gc_runs\": %llu, \"gc_collected\": %llu, \"max_blocks\": %llu, \"traces\": %llu, \"seconds\": %ld, \"per_kind\": {",
               (unsigned long long) states, (unsigned long long) transitions, (unsigned long long) dup,
               (unsigned long long) fault_runs, (unsigned long long) batteries, (unsigned long long) deepest, max_depth,
               fixpoint ? "true" : "false", (int) (s_hi - s_lo), (unsigned long long) seeds_done, capped ? "true" : "false",
               (unsigned long long) E().gc_runs, (unsigned long long) E().gc_freed, (unsigned long long) max_blocks, (unsigned long long) traces, (long) (time(nullptr) - t0));
        bool f = true;
        for (auto& kv : per_kind) {
            printf("%s\"%d\": %llu", f ? "" : ", ", kv.first, (unsigned long long) kv.second);
            f = false;
        }
        printf("}, \"known\": {");
        f = true;
        for (auto& kv : known_hits) {
            printf("%s\"%s\": %llu", f ? "" : ", ", kv.first.c_str(), (unsigned long long) kv.second);
            f = false;
        }
        printf("}, \"samples\": [");
        for (std::size_t i = 0; i < samples.size(); ++i) {
            for (auto& ch : samples[i])
                if (ch == '"' || ch == '\\')
                    ch = '\'';
            printf("%s\"%s\"", i ? ", " : "", samples[i].c_str());
        }
        printf("]}\n");
        fflush(stdout);
        return 0;
    }
};

struct Opts
{
    int argc;
    char** argv;
};
static Opts& opts()
{
    static thread_local Opts o;
    return o;
}

long opt(const char* name, long dflt)
{
    auto& o = opts();
    auto n  = strlen(name);
    for (int i = 1; i < o.argc; ++i)
        if (!strncmp(o.argv[i], name, n) && o.argv[i][n] == '=')
            return atol(o.argv[i] + n + 1);
    return dflt;
}

void explore_args(int argc, char** argv) { opts() = {argc, argv}; }

int explore_main(int argc, char** argv, Harness& h)
{
    opts() = {argc, argv};
    auto x = new Explorer; // not in the program's data segment
    x->h   = &h;
    int r  = x->main(argc, argv);
    h.done();
    fflush(stdout);
    _exit(r);
}

} // namespace mc
