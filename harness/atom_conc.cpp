// immer::atom under every schedule: histories must be linearizable.
#include "common.hpp"
#include "scripts.hpp"
#include <immer/atom.hpp>

using Box  = immer::box<Elem, Policy>;
using Atom = immer::atom<Elem, Policy>;
#if MC_ELEM == 4
#error "PtrE is no element of this harness"
#endif

enum { LOAD, STORE, EXCH, UPD, ASSIGN, CONV, UPD2, N_OPS };
static const char* NAMES[] = {"load", "store", "exchange", "update", "assign", "value", "update(read only)"};

struct Rec
{
    int kind;
    u64 call, ret, arg, res;
};
static Rec recs[4][4];
static int nrec[4];
static Atom* atom_;
static char atom_mem[sizeof(Atom)] __attribute__((aligned(16)));
constexpr u64 INIT = 1;
static u64 pay(const Elem& e) { return val_of(e) & ((1ull << 48) - 1); }
static u64 next_of(u64 v, u64 arg) { return ((v << 6) + arg) & ((1ull << 48) - 1); }

// boxes that a thread got stay what they were
struct Kept
{
    char mem[8][sizeof(Box)] __attribute__((aligned(16)));
    u64 v[8];
    int n;
    Box& at(int i) { return *(Box*) mem[i]; }
    void keep(Box&& b, u64 x)
    {
        new (mem[n]) Box(std::move(b));
        v[n++] = x;
    }
    void check()
    {
        for (int i = 0; i < n; ++i)
            if (pay(at(i).get()) != v[i])
                mc::violation(vk::model, "a box obtained from the atom has changed: %#llx instead of %#llx",
                              (unsigned long long) pay(at(i).get()), (unsigned long long) v[i]);
    }
    void clear()
    {
        check();
        for (int i = 0; i < n; ++i)
            at(i).~Box();
        n = 0;
    }
};

struct H : mc::ConcHarness
{
    Scripts sc;
    int cur[4];

    void init()
    {
        sc.threads = (int) mc::opt("threads", 2);
        sc.words((int) mc::opt("len", 2), (unsigned) mc::opt("mask", 15));
    }
    int num_programs() override { return (int) sc.programs(); }
    void setup(int p) override
    {
        sc.decode(p, cur);
        for (auto& n : nrec)
            n = 0;
        atom_ = new (atom_mem) Atom(Box(Elem(TAG_VAL | INIT)));
    }
    int num_threads() override { return sc.threads; }
    void thread(int t) override
    {
        auto& s = sc.list[cur[t]];
        Kept kept;
        kept.n = 0;
        auto& a = *atom_;
        for (int i = 0; i < s.n; ++i) {
            auto& r = recs[t][nrec[t]];
            r.kind  = s.op[i];
            r.arg   = 2 + (u64) t * 5 + i;
            mc::op_call();
            r.call = mc::op_clock();
            switch (s.op[i]) {
            case LOAD: {
                Box b = t & 1 ? a.load() : a.operator Box();
                r.res = pay(b.get());
                kept.keep(std::move(b), r.res);
                break;
            }
            case CONV: {
                Elem e = a;
                r.res  = pay(e);
                break;
            }
            case STORE: a.store(Box(Elem(TAG_VAL | r.arg))); break;
            case ASSIGN: {
                Box b(Elem(TAG_VAL | r.arg));
                a = b;
                kept.keep(std::move(b), r.arg);
                break;
            }
            case EXCH: {
                Box b = a.exchange(Box(Elem(TAG_VAL | r.arg)));
                r.res = pay(b.get());
                kept.keep(std::move(b), r.res);
                break;
            }
            case UPD: {
                Box b = a.update([&](Elem e) { return Elem(TAG_VAL | next_of(pay(e), r.arg)); });
                r.res = pay(b.get());
                kept.keep(std::move(b), r.res);
                break;
            }
            case UPD2: {
                Box b = a.update([&](const Elem& e) { return e; });
                r.res = pay(b.get());
                kept.keep(std::move(b), r.res);
                break;
            }
            }
            ++nrec[t];
            mc::op_return();
            r.ret = mc::op_clock();
            kept.check();
        }
        kept.clear();
    }

    // is there an order of the operations, consistent with their calls and returns, that explains the results?
    bool linear(int* done, u64 v, u64 final)
    {
        bool all = true;
        for (int t = 0; t < sc.threads; ++t)
            all = all && done[t] == nrec[t];
        if (all)
            return v == final;
        for (int t = 0; t < sc.threads; ++t) {
            if (done[t] == nrec[t])
                continue;
            auto& r = recs[t][done[t]];
            bool ok = true; // no pending operation returned before this one was called
            for (int o = 0; o < sc.threads; ++o)
                if (o != t && done[o] < nrec[o] && recs[o][done[o]].ret < r.call)
                    ok = false;
            if (!ok)
                continue;
            u64 w = v;
            switch (r.kind) {
            case LOAD:
            case CONV:
            case UPD2: ok = r.res == v; break;
            case STORE:
            case ASSIGN: w = r.arg; break;
            case EXCH:
                ok = r.res == v;
                w  = r.arg;
                break;
            case UPD:
                w  = next_of(v, r.arg);
                ok = r.res == w;
                break;
            }
            if (!ok)
                continue;
            ++done[t];
            if (linear(done, w, final))
                return true;
            --done[t];
        }
        return false;
    }
    void finish() override
    {
        u64 final = pay(atom_->load().get());
        int done[4] = {0, 0, 0, 0};
        if (!linear(done, INIT, final)) {
            char b[600];
            int k = 0;
            for (int t = 0; t < sc.threads; ++t)
                for (int i = 0; i < nrec[t]; ++i) {
                    auto& r = recs[t][i];
                    k += snprintf(b + k, sizeof b - k, "%d: %s(%#llx) called at %llu returned %#llx at %llu, ", t + 1, NAMES[r.kind],
                                  (unsigned long long) r.arg, (unsigned long long) r.call, (unsigned long long) r.res, (unsigned long long) r.ret);
                }
            mc::violation(vk::model, "not linearizable: %s final value %#llx", b, (unsigned long long) final);
        }
        atom_->~Atom();
    }
    std::int64_t in_use() override { return policy_is_gc || MC_POLICY == 8 ? 0 : MC_POLICY == 3 ? mc::user_blocks() : (std::int64_t) mc::live_blocks(); }
    std::int64_t elems_dead() override { return policy_is_gc; }
    void describe(int p, char* b, int n) override
    {
        sc.decode(p, cur);
        sc.print(b, n, 0, cur, NAMES);
    }
};

static H h;
int main(int argc, char** argv)
{
    mc::explore_args(argc, argv);
    h.init();
    return mc::conc_main(argc, argv, h);
}
