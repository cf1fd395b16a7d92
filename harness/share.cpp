// Values that share structure used by several threads, under every schedule.
//   MC_KIND 0 vector, 1 flex_vector, 2 array, 3 set, 4 map, 5 table, 6 box
#include "common.hpp"
#include "scripts.hpp"
#define MC_PLAIN __attribute__((no_sanitize("thread")))
#ifndef MC_KIND
#define MC_KIND 0
#endif
#ifndef MC_BB
#define MC_BB 2
#endif
#ifndef MC_BL
#define MC_BL 1
#endif
#if MC_KIND == 0
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
using V = immer::vector<Elem, Policy, MC_BB, MC_BL>;
#elif MC_KIND == 1
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
using V = immer::flex_vector<Elem, Policy, MC_BB, MC_BL>;
#elif MC_KIND == 2
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
using V = immer::array<Elem, Policy>;
#elif MC_KIND == 6
#include <immer/box.hpp>
using V = immer::box<Elem, Policy>;
#else
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
static int scheme;
struct KHash
{
    std::size_t operator()(const Elem& e) const
    {
        u64 k = val_of(e) & 0xff;
        switch (scheme) {
        case 0: return k;                   // a flat node
        case 1: return 7;                   // one collision
        case 2: return (k % 3) << 5;        // collisions below one common path
        case 3: return ((k / 2) << 5) | (k % 2); // two subtrees
        case 4: return k < 2 ? k * (1ull << 30) : k << 5; // a deep path of single nodes
        default: return k * 0x9E3779B97F4A7C15ull;
        }
    }
};
#if MC_KIND == 3
using V = immer::set<Elem, KHash, std::equal_to<>, Policy, MC_BB>;
#elif MC_KIND == 4
using V = immer::map<Elem, Elem, KHash, std::equal_to<>, Policy, MC_BB>;
#else
struct Item
{
    Elem id, val;
    Item() = default;
    Item(Elem k, Elem v)
        : id{std::move(k)}
        , val{std::move(v)}
    {}
    friend bool operator==(const Item& a, const Item& b) { return a.id == b.id && a.val == b.val; }
    friend bool operator!=(const Item& a, const Item& b) { return !(a == b); }
};
using V = immer::table<Item, immer::table_key_fn, KHash, std::equal_to<>, Policy, MC_BB>;
#endif
#endif


constexpr int CAP = 64;
struct M
{
    int n;
    u64 v[CAP]; // sequences: the elements; maps: the value of each key or 0
};
MC_PLAIN static void m_copy(M& d, const M& s)
{
    d.n = s.n;
    for (int i = 0; i < CAP; ++i)
        d.v[i] = s.v[i];
}
MC_PLAIN static void m_clear(M& d)
{
    d.n = 0;
    for (int i = 0; i < CAP; ++i)
        d.v[i] = 0;
}
MC_PLAIN static void m_push(M& d, u64 v)
{
    if (d.n == CAP)
        mc::violation(vk::model, "harness: model full");
    d.v[d.n++] = v;
}
MC_PLAIN static void m_set(M& d, int i, u64 v) { d.v[i] = v; }
MC_PLAIN static u64 m_get(const M& d, int i) { return d.v[i]; }
MC_PLAIN static void m_cut(M& d, int from, int to)
{
    int k = 0;
    for (int i = from; i < to; ++i)
        d.v[k++] = d.v[i];
    d.n = k;
}
MC_PLAIN static void m_cat(M& d, const M& s)
{
    for (int i = 0; i < s.n; ++i)
        m_push(d, s.v[i]);
}
MC_PLAIN static void m_ins(M& d, int at, u64 v)
{
    m_push(d, 0);
    for (int i = d.n - 1; i > at; --i)
        d.v[i] = d.v[i - 1];
    d.v[at] = v;
}
MC_PLAIN static void m_put(M& d, int k, u64 v)
{
    d.n += d.v[k] == 0;
    d.v[k] = v;
}
MC_PLAIN static void m_del(M& d, int k)
{
    d.n -= d.v[k] != 0;
    d.v[k] = 0;
}

// ---------------------------------------------------------------- the world
struct Var
{
    char mem[sizeof(V)] __attribute__((aligned(16)));
    M m;
    V& v() { return *(V*) mem; }
};
static Var own[4], shared;
static u64 ctr[5];
MC_PLAIN static u64 fresh(int t) { return TAG_VAL | (u64) (t + 1) << 16 | ++ctr[t]; }

static u64 key(int k) { return TAG_KEY | (u64) k; }

#if MC_KIND <= 2
static void check(const V& v, const M& m, const char* what)
{
    MC_EXPECT((int) v.size() == m.n, "%s: size is %zu instead of %d", what, (std::size_t) v.size(), m.n);
    int i = 0;
    for (auto it = v.begin(), e = v.end(); it != e; ++it, ++i)
        MC_EXPECT(i < m.n && val_of(*it) == m_get(m, i), "%s: element %d is %#llx instead of %#llx", what, i,
                  (unsigned long long) val_of(*it), (unsigned long long) m_get(m, i));
    MC_EXPECT(i == m.n, "%s: iteration ends after %d elements", what, i);
}
#elif MC_KIND == 6
static void check(const V& v, const M& m, const char* what)
{
    MC_EXPECT(val_of(v.get()) == m_get(m, 0), "%s: the box holds %#llx instead of %#llx", what, (unsigned long long) val_of(v.get()),
              (unsigned long long) m_get(m, 0));
}
#else
#if MC_KIND == 3
static Elem make(int k, u64) { return Elem(key(k)); }
static u64 read(const V::value_type& e, int& k) { k = (int) (val_of(e) & 0xff); return 1; }
static u64 word(u64) { return 1; }
#elif MC_KIND == 4
static V::value_type make(int k, u64 v) { return {Elem(key(k)), Elem(v)}; }
static u64 read(const V::value_type& e, int& k) { k = (int) (val_of(e.first) & 0xff); return val_of(e.second); }
static u64 word(u64 v) { return v; }
#else
static Item make(int k, u64 v) { return {Elem(key(k)), Elem(v)}; }
static u64 read(const V::value_type& e, int& k) { k = (int) (val_of(e.id) & 0xff); return val_of(e.val); }
static u64 word(u64 v) { return v; }
#endif
static void check(const V& v, const M& m, const char* what)
{
    MC_EXPECT((int) v.size() == m.n, "%s: size is %zu instead of %d", what, (std::size_t) v.size(), m.n);
    int n = 0;
    for (auto it = v.begin(), e = v.end(); it != e; ++it, ++n) {
        int k;
        u64 x = read(*it, k);
        MC_EXPECT(k < CAP && m_get(m, k) == x, "%s: key %d has %#llx instead of %#llx", what, k, (unsigned long long) x,
                  (unsigned long long) (k < CAP ? m_get(m, k) : 0));
    }
    MC_EXPECT(n == m.n, "%s: iteration visits %d elements instead of %d", what, n, m.n);
    for (int k = 0; k < 10; ++k)
        MC_EXPECT((int) v.count(Elem(key(k))) == (m_get(m, k) != 0), "%s: count of key %d is wrong", what, k);
}
#endif

enum { COPY, RESET, ASSIGN, READ, ADD, ADDM, SETF, SETFM, SETLM, UPDM, CUTM, CUT2M, DROPM, CATM, CATM2, INSM, ERAM, TRANS, TRANS2, CATSELF, N_OPS };
#if MC_KIND >= 3 && MC_KIND <= 5
static const char* NAMES[] = {"copy", "reset", "assign", "read", "insert own", "move.insert own", "insert first", "move.insert first", "move.insert third", "move.update", "move.erase first", "erase second", "move.erase third", "move.update_if_exists", "update_if_exists", "move.update own", "transient: update_if_exists, erase", "transient", "transient of move", ""};
#else
static const char* NAMES[] = {"copy", "reset", "assign", "read", "add", "move.add", "set first", "move.set first", "move.set last", "move.update",
                              "move.take n-1", "move.take n/2", "move.drop", "move+g", "g+move", "move.insert", "move.erase", "transient", "transient of move", "move+copy"};
#endif

struct H : mc::ConcHarness
{
    Scripts sc;
    int cur[4];
    bool variant3 = false, cold = mc::opt("cold", 0);
    int s0, ns, nvar, v0, sstep;

    void init()
    {
        sc.threads = (int) mc::opt("threads", 2);
        sc.words((int) mc::opt("len", 1), (unsigned) mc::opt("mask", (1 << N_OPS) - 1));
        s0   = (int) mc::opt("s0", 0);
        sstep = (int) mc::opt("sstep", 1);
        ns   = ((int) mc::opt("s1", 8) - s0 + sstep - 1) / sstep;
        v0   = (int) mc::opt("v0", 0);
        nvar = (int) mc::opt("v1", 3) - v0;
    }
    int num_programs() override { return (int) sc.programs() * ns * nvar; }
    void build(V& v, M& m, int s)
    {
        m_clear(m);
#if MC_KIND <= 2
        // sequences: s = the number of elements; from 100 on relaxed shapes
        int n = s < 100 ? s : 0;
        for (int i = 0; i < n; ++i) {
            u64 x = TAG_VAL | (u64) (0x80 + i);
            v     = std::move(v).push_back(Elem(x));
            m_push(m, x);
        }
#if MC_KIND == 1
        if (s >= 100) {
            V a, b;
            M ma, mb;
            int r = s - 100;
            build(a, ma, 3 + r % 8);
            build(b, mb, 4 + r % 5);
            int cut = r % 3;
            b       = b.drop(cut);
            m_cut(mb, cut, mb.n);
            v = a + b;
            m_copy(m, ma);
            m_cat(m, mb);
            if (r & 1) {
                v = v + a;
                m_cat(m, ma);
            }
            if (r & 2) {
                v = v.drop(1);
                m_cut(m, 1, m.n);
            }
        }
#endif
#elif MC_KIND == 6
        u64 x = TAG_VAL | (u64) (0x80 + s);
        v     = V(Elem(x));
        m_push(m, x);
#else
        // s = hash function * 8 + number of keys
        scheme = s / 8;
        for (int k = 0; k < s % 8; ++k) {
            u64 x = TAG_VAL | (u64) (0x80 + k);
            v     = std::move(v).insert(make(k, x));
            m_put(m, k, word(x));
        }
#endif
    }
    int size_seed(int p) { return s0 + p % ns * sstep; }
    int variant(int p) { return v0 + p / ns % nvar; }
    void setup(int p) override
    {
        sc.decode(p / ns / nvar, cur);
        for (auto& c : ctr)
            c = 0;
        int var = variant(p);
        variant3 = var == 3;
        if (var == 3) // the threads create everything
            return;
        {
            V base;
            M mb;
            build(base, mb, size_seed(p));
            // variant 0: copies of one value, which is also shared; 1: only the threads hold it;
            // 2: values derived from one value
            if (var == 1) {
                new (shared.mem) V();
                m_clear(shared.m);
#if MC_KIND == 6
                m_push(shared.m, val_of(shared.v().get()));
#endif
            } else {
                new (shared.mem) V(base);
                m_copy(shared.m, mb);
            }
            for (int t = 0; t < sc.threads; ++t) {
                new (own[t].mem) V(base);
                m_copy(own[t].m, mb);
                if (var == 2)
                    op(t, ADD);
            }
        }
        check_all("set up");
    }
    void warm() override
    {
        // many references to the nodes that all empty values share: see far_counter in the engine
        if (mc::opt("empties", 1)) {
            static char many[1000][sizeof(V)] __attribute__((aligned(16)));
#if MC_KIND != 6
            for (auto& e : many)
                new (e) V();
#endif
        }
#if MC_KIND >= 4 && MC_KIND <= 5
        // the default value of a missing key
        V v;
#if MC_KIND == 4
        (void) v[Elem(key(1))];
        v = v.update(Elem(key(1)), [](Elem e) { return e; });
#else
        (void) v[Elem(key(1))];
        v = v.update(Elem(key(1)), [](Item) { return make(1, TAG_VAL | 1); });
#endif
#endif
    }
    int num_threads() override { return sc.threads; }
    void thread(int t) override
    {
        auto& s = sc.list[cur[t]];
        if (variant3) {
            new (own[t].mem) V();
            m_clear(own[t].m);
#if MC_KIND == 6
            m_push(own[t].m, val_of(own[t].v().get()));
#endif
        }
        for (int i = 0; i < s.n; ++i)
            op(t, s.op[i]);
        check(own[t].v(), own[t].m, "own value");
    }
    void check_all(const char* when)
    {
        (void) when;
        if (!variant3)
            check(shared.v(), shared.m, "shared value");
        for (int t = 0; t < sc.threads; ++t)
            check(own[t].v(), own[t].m, "value of a thread");
    }
    void finish() override
    {
        check_all("end");
        for (int t = 0; t < sc.threads; ++t)
            own[t].v().~V();
        if (!variant3)
            shared.v().~V();
    }
    std::int64_t in_use() override { return cold ? 0 : policy_is_gc || MC_POLICY == 8 ? 0 : MC_POLICY == 3 ? mc::user_blocks() : (std::int64_t) mc::live_blocks(); }
    std::int64_t elems_dead() override { return policy_is_gc || cold; }
    void describe(int p, char* b, int n) override
    {
        sc.decode(p / ns / nvar, cur);
        int k = snprintf(b, n, "size or shape %d, %s", size_seed(p), variant(p) == 0 ? "copies" : variant(p) == 1 ? "held by the threads only" : variant(p) == 2 ? "derived" : "made by the threads");
        sc.print(b, n, k, cur, NAMES);
    }

    void op(int t, int o)
    {
        auto& v       = own[t].v();
        auto& m       = own[t].m;
        const V& g    = shared.v();
        const V& cv   = v;
        switch (o) {
        case COPY: {
            V c = g;
            V d = cv;
            check(c, shared.m, "copy of the shared value");
            check(d, m, "copy of the own value");
            break;
        }
        case READ:
            check(g, shared.m, "shared value");
            check(cv, m, "own value");
#if MC_KIND != 6
            if (cv == g) {}
#endif
            break;
        case ASSIGN:
            v = g;
            m_copy(m, shared.m);
            break;
#if MC_KIND == 6
        case RESET: {
            u64 x = fresh(t);
            v     = V(Elem(x));
            m_set(m, 0, x);
            break;
        }
        case ADD: {
            u64 x = fresh(t);
            v     = cv.update([&](const Elem&) { return Elem(x); });
            m_set(m, 0, x);
            break;
        }
        case UPDM:
        case ADDM: {
            u64 x = fresh(t);
            v     = std::move(v).update([&](Elem e) { return Elem(x); });
            m_set(m, 0, x);
            break;
        }
        case SETFM: {
            V w = std::move(v);
            v   = std::move(w);
            break;
        }
#else
        case RESET:
            v = V{};
            m_clear(m);
            break;
#endif
#if MC_KIND <= 2
        case ADD: {
            u64 x = fresh(t);
            v     = cv.push_back(Elem(x));
            m_push(m, x);
            break;
        }
        case ADDM: {
            u64 x = fresh(t);
            v     = std::move(v).push_back(Elem(x));
            m_push(m, x);
            break;
        }
        case SETF:
            if (m.n) {
                u64 x = fresh(t);
                v     = cv.set(0, Elem(x));
                m_set(m, 0, x);
            }
            break;
        case SETFM:
            if (m.n) {
                u64 x = fresh(t);
                v     = std::move(v).set(0, Elem(x));
                m_set(m, 0, x);
            }
            break;
        case SETLM:
            if (m.n) {
                u64 x = fresh(t);
                int i = m.n > 2 ? m.n - 2 : m.n - 1;
                v     = std::move(v).set(i, Elem(x));
                m_set(m, i, x);
            }
            break;
        case UPDM:
            if (m.n) {
                u64 x = fresh(t);
                int i = m.n / 2;
                v     = std::move(v).update(i, [&](Elem) { return Elem(x); });
                m_set(m, i, x);
            }
            break;
        case CUTM:
            if (m.n) {
                int k = m.n - 1;
                v     = std::move(v).take(k);
                m_cut(m, 0, k);
            }
            break;
        case CUT2M: {
            int k = m.n / 2;
            v     = std::move(v).take(k);
            m_cut(m, 0, k);
            break;
        }
        case TRANS:
        case TRANS2: {
            auto tr = o == TRANS ? cv.transient() : std::move(v).transient();
            if (m.n) {
                u64 x = fresh(t);
                tr.set(0, Elem(x));
                m_set(m, 0, x);
            }
            for (int i = 0; i < 2; ++i) {
                u64 x = fresh(t);
                tr.push_back(Elem(x));
                m_push(m, x);
            }
            v = o == TRANS ? tr.persistent() : std::move(tr).persistent();
            break;
        }
#endif
#if MC_KIND == 1
        case DROPM: {
            int k = m.n / 3;
            v     = std::move(v).drop(k);
            m_cut(m, k, m.n);
            break;
        }
        case CATM:
            v = std::move(v) + g;
            m_cat(m, shared.m);
            break;
        case CATM2: {
            M tmp;
            m_copy(tmp, shared.m);
            m_cat(tmp, m);
            v = g + std::move(v);
            m_copy(m, tmp);
            break;
        }
        case CATSELF: {
            M tmp;
            m_copy(tmp, m);
            m_cat(m, tmp);
            V c = cv;
            v   = std::move(v) + std::move(c);
            break;
        }
        case INSM: {
            u64 x = fresh(t);
            int i = m.n / 2;
            v     = std::move(v).insert(i, Elem(x));
            m_ins(m, i, x);
            break;
        }
        case ERAM:
            if (m.n) {
                int i = m.n / 2;
#if MC_NO_RVALUES
                v = cv.erase(i);
#else
                v = std::move(v).erase(i);
#endif
                M tmp;
                m_copy(tmp, m);
                m_cut(tmp, i + 1, tmp.n);
                m_cut(m, 0, i);
                m_cat(m, tmp);
            }
            break;
#endif
#if MC_KIND >= 3 && MC_KIND <= 5
        case ADD:
        case ADDM: { // a key of the own
            u64 x = fresh(t);
            int k = 4 + t;
            v     = o == ADD ? cv.insert(make(k, x)) : std::move(v).insert(make(k, x));
            m_put(m, k, word(x));
            break;
        }
        case SETF:
        case SETFM: { // a key that most seeds contain
            u64 x = fresh(t);
            v     = o == SETF ? cv.insert(make(0, x)) : std::move(v).insert(make(0, x));
            m_put(m, 0, word(x));
            break;
        }
        case SETLM: {
            u64 x = fresh(t);
            v     = std::move(v).insert(make(2, x));
            m_put(m, 2, word(x));
            break;
        }
#if MC_KIND >= 4
        case UPDM: {
            u64 x = fresh(t);
#if MC_KIND == 4
            v = std::move(v).update(Elem(key(1)), [&](Elem) { return Elem(x); });
#else
            v = std::move(v).update(Elem(key(1)), [&](Item) { return make(1, x); });
#endif
            m_put(m, 1, x);
            break;
        }
        case CATM: { // a key that may be there
            u64 x = fresh(t);
#if MC_KIND == 4
            v = std::move(v).update_if_exists(Elem(key(1)), [&](Elem) { return Elem(x); });
#else
            v = std::move(v).update_if_exists(Elem(key(1)), [&](Item) { return make(1, x); });
#endif
            if (m_get(m, 1))
                m_put(m, 1, x);
            break;
        }
        case CATM2: {
            u64 x = fresh(t);
#if MC_KIND == 4
            v = cv.update_if_exists(Elem(key(0)), [&](Elem) { return Elem(x); });
#else
            v = cv.update_if_exists(Elem(key(0)), [&](Item) { return make(0, x); });
#endif
            if (m_get(m, 0))
                m_put(m, 0, x);
            break;
        }
        case INSM: { // a key of the own that is not there
            u64 x = fresh(t);
            int k = 7 + t;
#if MC_KIND == 4
            v = std::move(v).update(Elem(key(k)), [&](Elem) { return Elem(x); });
#else
            v = std::move(v).update(Elem(key(k)), [&](Item) { return make(k, x); });
#endif
            m_put(m, k, x);
            break;
        }
        case ERAM: {
            auto tr = std::move(v).transient();
            u64 x   = fresh(t);
#if MC_KIND == 4
            tr.update_if_exists(Elem(key(2)), [&](Elem) { return Elem(x); });
#else
            tr.update_if_exists(Elem(key(2)), [&](Item) { return make(2, x); });
#endif
            if (m_get(m, 2))
                m_put(m, 2, x);
            tr.erase(Elem(key(0)));
            m_del(m, 0);
            v = tr.persistent();
            break;
        }
#endif
        case CUTM: // erase
            v = std::move(v).erase(Elem(key(0)));
            m_del(m, 0);
            break;
        case CUT2M:
            v = cv.erase(Elem(key(1)));
            m_del(m, 1);
            break;
        case DROPM:
            v = std::move(v).erase(Elem(key(2)));
            m_del(m, 2);
            break;
        case TRANS:
        case TRANS2: {
            auto tr = o == TRANS ? cv.transient() : std::move(v).transient();
            for (int k = 0; k < 6; k += 5) {
                u64 x = fresh(t);
                tr.insert(make(k, x));
                m_put(m, k, word(x));
            }
            tr.erase(Elem(key(1)));
            m_del(m, 1);
            v = o == TRANS ? tr.persistent() : std::move(tr).persistent();
            break;
        }
#endif
        }
    }
};

static H h;
int main(int argc, char** argv)
{
    mc::explore_args(argc, argv);
    h.init();
    return mc::conc_main(argc, argv, h);
}
