// Sequences: vector (MC_KIND 0), flex_vector (1), array (2), dvektor (3), with their transients.
#include "common.hpp"
#include "cost.hpp"
#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#ifndef MC_KIND
#define MC_KIND 1
#endif
#if MC_KIND == 3
#include <immer/experimental/dvektor.hpp>
#endif
#ifndef MC_BB
#define MC_BB 2
#endif
#ifndef MC_BL
#define MC_BL 1
#endif
#ifndef MC_MAXN
#define MC_MAXN 288
#endif
#define MC_PLAIN __attribute__((no_sanitize("thread"), noinline))

#if MC_KIND == 0
using V = immer::vector<Elem, Policy, MC_BB, MC_BL>;
#elif MC_KIND == 1
using V  = immer::flex_vector<Elem, Policy, MC_BB, MC_BL>;
using VV = immer::vector<Elem, Policy, MC_BB, MC_BL>;
#elif MC_KIND == 2
using V = immer::array<Elem, Policy>;
#elif MC_KIND == 3
using V = immer::dvektor<Elem, MC_BB, Policy>;
#endif

#if MC_KIND <= 2
#define MC_HAS_T 1
using T = V::transient_type;
#else
#define MC_HAS_T 0
struct T
{
    std::size_t size() const { return 0; }
};
#endif
constexpr bool is_flex   = MC_KIND == 1;
constexpr bool is_vec    = MC_KIND <= 1;
constexpr bool is_array  = MC_KIND == 2;
constexpr bool is_dv     = MC_KIND == 3;
constexpr int NP         = 3;
constexpr int NT         = 2;
constexpr int LEAF       = is_vec ? (1 << MC_BL) : (is_dv ? (1 << MC_BB) : 2);

// ---------------------------------------------------------------- the reference model
struct M
{
    int st; // 0: known contents, 1: moved-from or left over by an exception
    int n;
    u64 v[MC_MAXN];
};
MC_PLAIN static void m_copy(M& d, const M& a)
{
    d.st = a.st;
    d.n  = a.n;
    for (int i = 0; i < a.n; ++i)
        d.v[i] = a.v[i];
}
MC_PLAIN static void m_set(M& d, int i, u64 x) { d.v[i] = x; }
MC_PLAIN static void m_push(M& d, u64 x) { d.v[d.n++] = x; }
MC_PLAIN static void m_slice(M& d, int lo, int hi) // keep [lo, hi)
{
    if (hi > d.n)
        hi = d.n;
    if (lo > hi)
        lo = hi;
    for (int i = lo; i < hi; ++i)
        d.v[i - lo] = d.v[i];
    d.n = hi - lo;
}
MC_PLAIN static void m_ins(M& d, int pos, const u64* x, int k)
{
    if (pos > d.n)
        pos = d.n;
    for (int i = d.n - 1; i >= pos; --i)
        d.v[i + k] = d.v[i];
    for (int i = 0; i < k; ++i)
        d.v[pos + i] = x[i];
    d.n += k;
}
MC_PLAIN static void m_erase(M& d, int lo, int hi)
{
    if (hi > d.n)
        hi = d.n;
    if (lo >= hi)
        return;
    for (int i = hi; i < d.n; ++i)
        d.v[lo + i - hi] = d.v[i];
    d.n -= hi - lo;
}

template <class X>
struct Slot
{
    alignas(16) unsigned char mem[(sizeof(X) + 15) & ~15ull];
    X& operator*() { return *std::launder(reinterpret_cast<X*>(mem)); }
};

struct World
{
    Slot<V> p[NP];
    Slot<T> t[NT];
    int pst[NP], tst[NT]; // copies of the flags, for hashing
    M mp[NP], mt[NT];
    u64 next;
    int seed_no;
};
static World w;
static M tmp; // result under construction

static long o_fam, o_nmin, o_nmax, o_vars, o_mask, o_dens[8], o_bat, o_m0, o_m1, o_maxlen, o_cost, o_again, o_nstep, o_self, o_np, o_nt, o_cap;

static u64 fresh() { return TAG_VAL | ++w.next; }

// ---------------------------------------------------------------- building seeds
static V build(int n, M& m)
{
    V v;
    m.n = 0;
    m.st = 0;
    for (int i = 0; i < n; ++i) {
        u64 x = fresh();
        v     = v.push_back(Elem(x));
        m_push(m, x);
    }
    return v;
}
#if MC_KIND == 1
static V build_front(int n, M& m)
{
    V v;
    m.n = 0;
    m.st = 0;
    for (int i = 0; i < n; ++i) {
        u64 x = fresh();
        v     = v.push_front(Elem(x));
        m_ins(m, 0, &x, 1);
    }
    return v;
}
static M tmp2;
static V cat(V a, V b, M& ma, const M& mb)
{
    V r = a + b;
    m_ins(ma, ma.n, mb.v, mb.n);
    return r;
}
static const int rel_sizes[] = {1, 2, 3, 5, 9, 11};
constexpr int n_relaxed = 64;
// relaxed shapes, by number
static V build_relaxed(int k, M& m)
{
    constexpr int L = 1 << MC_BL, N = 1 << MC_BB;
    if (k < 36) { // concatenation of two regular vectors
        int a = rel_sizes[k / 6] * (k % 6 >= 3 ? 1 : 2) + (k & 1), b = rel_sizes[k % 6] + 1;
        V x = build(a, m);
        V y = build(b, tmp2);
        return cat(x, y, m, tmp2);
    }
    k -= 36;
    if (k < 6) { // slice on both sides of a bigger vector
        int n = L * N + L * N / 2 + k;
        V x = build(n + 3, m);
        int lo = k + 1, hi = n - k % 3;
        x = x.take(hi).drop(lo);
        m_slice(m, lo, hi);
        return x;
    }
    k -= 6;
    if (k < 6) { // erase in the middle, several times
        V x = build(L * N + L * 2 + k, m);
        for (int i = 0; i < 3; ++i) {
            int pos = (i * 3 + k) % m.n;
            x = x.erase(pos);
            m_erase(m, pos, pos + 1);
        }
        return x;
    }
    k -= 6;
    if (k < 4) // everything pushed in front
        return build_front(3 + 5 * k, m);
    k -= 4;
    if (k < 6) { // concatenation of small pieces, then drop
        V x;
        m.n = m.st = 0;
        for (int i = 0; i < 4 + k; ++i) {
            V y = build(1 + (i * 7 + k) % (L + 2), tmp2);
            x   = cat(x, y, m, tmp2);
        }
        int lo = k;
        x = x.drop(lo);
        m_slice(m, lo, m.n);
        return x;
    }
    k -= 6;
    // concatenations of concatenations with differing heights
    V x = build(L * N + 1 + k, m);
    V y = build(2 + k, tmp2);
    x   = cat(x, y, m, tmp2);
    y   = build(L * N * (k & 1) + 3, tmp2);
    M* m3 = new M;
    m_copy(*m3, m);
    x = cat(y, x, tmp2, *m3);
    m_copy(m, tmp2);
    delete m3;
    y = x;
    if (m.n * 2 < MC_MAXN / 3) {
        M* m4 = new M;
        m_copy(*m4, m);
        x = cat(x, y, m, *m4);
        delete m4;
    }
    return x;
}
#endif

static V build_any(int fam, int k, M& m)
{
#if MC_KIND == 1
    if (fam)
        return build_relaxed(k, m);
#endif
    (void) fam;
    return build(k, m);
}

// ---------------------------------------------------------------- operations
enum K {
    K_COPY = 1, K_MOVE, K_PUSH, K_SET, K_UPD, K_TAKE, K_DROP, K_PUSHF, K_CAT, K_INS, K_INSV, K_ERASE, K_ERASER,
    K_FILL, K_RANGE, K_INIT,
    K_TRANS = 20, K_PERS, K_TCOPY, K_TMOVE, K_TPUSH, K_TSET, K_TUPD, K_TTAKE, K_TDROP, K_TAPP, K_TPRE, K_TDATA, K_V2F, K_TNEW,
    K_COUNT
};
static const char* knames[K_COUNT] = {};
static void init_names()
{
    const char* a[] = {"", "copy", "move", "push_back", "set", "update", "take", "drop", "push_front", "concat", "insert", "insert-vector", "erase", "erase-range", "ctor-fill", "ctor-range", "ctor-init"};
    for (int i = 1; i <= K_INIT; ++i)
        knames[i] = a[i];
    const char* b[] = {"transient", "persistent", "t-copy", "t-move", "t-push_back", "t-set", "t-update", "t-take", "t-drop", "t-append", "t-prepend", "t-data_mut", "from-vector", "t-new"};
    for (int i = 0; i < 14; ++i)
        knames[K_TRANS + i] = b[i];
}

// ranges of iterators and sentinels that make elements of words
template <class Tag>
struct It
{
    using iterator_category = Tag;
    using value_type        = Elem;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const Elem*;
    using reference         = Elem;
    const u64* p;
    Elem operator*() const
    {
        mc::fault_point(fk::fn);
        return Elem(*p);
    }
    It& operator++() { ++p; return *this; }
    It operator++(int) { auto r = *this; ++p; return r; }
    bool operator==(const It& o) const { return p == o.p; }
    bool operator!=(const It& o) const { return p != o.p; }
};
template <int Subtractable>
struct End
{
    const u64* p;
};
template <class Tag, int S>
bool operator==(const It<Tag>& i, const End<S>& e) { return i.p == e.p; }
template <class Tag, int S>
bool operator!=(const It<Tag>& i, const End<S>& e) { return i.p != e.p; }
template <class Tag, int S>
bool operator==(const End<S>& e, const It<Tag>& i) { return i.p == e.p; }
template <class Tag, int S>
bool operator!=(const End<S>& e, const It<Tag>& i) { return i.p != e.p; }
template <class Tag>
std::ptrdiff_t operator-(const End<1>& e, const It<Tag>& i) { return e.p - i.p; }

struct Caller
{
    u64 expect;
    u64 result;
    int* calls;
    template <class X>
    Elem operator()(X&& e) const
    {
        ++*calls;
        u64 got = val_of(e);
        MC_EXPECT(got == expect, "update function called with value %llu, the element is %llu", (unsigned long long) (got & 0xffffffff),
               (unsigned long long) (expect & 0xffffffff));
        mc::fault_point(fk::fn);
        Elem taken(std::forward<X>(e)); // functions may take the element by value
        MC_EXPECT(val_of(taken) == expect, "update function took value %llu", (unsigned long long) (val_of(taken) & 0xffffffff));
        return Elem(result);
    }
};

static void dump_cost();
static void bat_cost();
static void again_cost(const mc::Op& op);
static void moved_by(const mc::Op& op, bool failed);
static void reset_cost(const mc::Op& op); // cost accounting, see below
static void end_cost(const mc::Op& op, int n_before, int n_b);

template <class F>
static void store_l(int d, F f)
{
    // v = <const expression>
    *w.p[d] = f();
}

static void set_p(int d)
{
    m_copy(w.mp[d], tmp);
    w.pst[d] = w.mp[d].st = 0;
}
static void set_t(int d)
{
    m_copy(w.mt[d], tmp);
    w.tst[d] = w.mt[d].st = 0;
}
static void gone_p(int a) { w.pst[a] = w.mp[a].st = 1; w.mp[a].n = 0; }
static void gone_t(int a) { w.tst[a] = w.mt[a].st = 1; w.mt[a].n = 0; }

#define MC_LR(expr_obj, call)                                                                                            \
    if (!rv)                                                                                                           \
        *w.p[d] = std::as_const(*w.p[a]).call;                                                                        \
    else                                                                                                               \
        *w.p[d] = std::move(*w.p[a]).call;

static void apply(const mc::Op& op)
{
    const int d = op.d, a = op.a, b = op.b, x = op.x, y = op.y;
    const bool rv = b & 1; // for operations of one container
    int calls     = 0;
    (void) x;
    (void) y;
    (void) calls;
    switch (op.kind) {
    case K_COPY:
        m_copy(tmp, w.mp[a]);
        *w.p[d] = *w.p[a];
        set_p(d);
        break;
    case K_MOVE:
        m_copy(tmp, w.mp[a]);
        *w.p[d] = std::move(*w.p[a]);
        set_p(d);
        if (a != d)
            gone_p(a);
        break;
#if MC_KIND <= 2
    case K_PUSH: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        m_push(tmp, v);
        MC_LR(a, push_back(Elem(v)));
        set_p(d);
        break;
    }
    case K_SET: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        m_set(tmp, x, v);
        MC_LR(a, set(x, Elem(v)));
        set_p(d);
        break;
    }
    case K_UPD: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        Caller c{tmp.v[x], v, &calls};
        m_set(tmp, x, v);
        MC_LR(a, update(x, c));
        MC_EXPECT(calls == 1, "update called its function %d times", calls);
        set_p(d);
        break;
    }
    case K_TAKE:
        m_copy(tmp, w.mp[a]);
        m_slice(tmp, 0, x);
        MC_LR(a, take(x));
        set_p(d);
        break;
#endif
#if MC_KIND == 3
    case K_PUSH: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        m_push(tmp, v);
        *w.p[d] = (*w.p[a]).push_back(Elem(v));
        set_p(d);
        break;
    }
    case K_SET: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        m_set(tmp, x, v);
        *w.p[d] = (*w.p[a]).assoc(x, Elem(v));
        set_p(d);
        break;
    }
    case K_UPD: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        Caller c{tmp.v[x], v, &calls};
        m_set(tmp, x, v);
        *w.p[d] = (*w.p[a]).update(x, c);
        MC_EXPECT(calls == 1, "update called its function %d times", calls);
        set_p(d);
        break;
    }
#endif
#if MC_KIND == 1
    case K_DROP:
        m_copy(tmp, w.mp[a]);
        m_slice(tmp, x, tmp.n);
        MC_LR(a, drop(x));
        set_p(d);
        break;
    case K_PUSHF: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        m_ins(tmp, 0, &v, 1);
        *w.p[d] = (*w.p[a]).push_front(Elem(v));
        set_p(d);
        break;
    }
    case K_CAT: {
        m_copy(tmp, w.mp[a]);
        m_ins(tmp, tmp.n, w.mp[b].v, w.mp[b].n);
        auto &l = *w.p[a], &r = *w.p[b];
        const auto &cl = l, &cr = r;
        switch (y) {
        case 0: *w.p[d] = cl + cr; break;
        case 1: *w.p[d] = std::move(l) + cr; break;
        case 2: *w.p[d] = cl + std::move(r); break;
        case 3: *w.p[d] = std::move(l) + std::move(r); break;
        }
        set_p(d);
        break;
    }
    case K_INS: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        m_ins(tmp, x, &v, 1);
        MC_LR(a, insert(x, Elem(v)));
        set_p(d);
        break;
    }
    case K_INSV: { // y: 0 = both const, 1 = a moved, 2 = value moved, 3 = both
        m_copy(tmp, w.mp[a]);
        m_ins(tmp, x, w.mp[b].v, w.mp[b].n);
        switch (y) {
        case 0: *w.p[d] = std::as_const(*w.p[a]).insert(x, *w.p[b]); break;
        case 1: *w.p[d] = std::move(*w.p[a]).insert(x, *w.p[b]); break;
        case 2: *w.p[d] = std::as_const(*w.p[a]).insert(x, std::move(*w.p[b])); break;
        case 3: *w.p[d] = std::move(*w.p[a]).insert(x, std::move(*w.p[b])); break;
        }
        set_p(d);
        break;
    }
    case K_ERASE:
        m_copy(tmp, w.mp[a]);
        m_erase(tmp, x, x + 1);
        MC_LR(a, erase(x));
        set_p(d);
        break;
    case K_ERASER:
        m_copy(tmp, w.mp[a]);
        m_erase(tmp, x, y);
#if MC_NO_RVALUES // the r-value form does not compile without transient r-values: see DESIGN.md
        *w.p[d] = std::as_const(*w.p[a]).erase(x, y);
#else
        MC_LR(a, erase(x, y));
#endif
        set_p(d);
        break;
    case K_V2F: {
        // a vector of x elements, converted
        tmp.n = tmp.st = 0;
        VV v;
        for (int i = 0; i < x; ++i) {
            u64 e = fresh();
            m_push(tmp, e);
            v = std::move(v).push_back(Elem(e));
        }
        if (y == 0)
            *w.p[d] = V(v);
        else if (y == 1)
            *w.p[d] = V(std::move(v));
        set_p(d);
        break;
    }
#endif
#if MC_KIND <= 2
    case K_FILL: {
        u64 v = y ? val_of(Elem{}) : fresh();
        tmp.n = tmp.st = 0;
        for (int i = 0; i < x; ++i)
            m_push(tmp, v);
        *w.p[d] = y ? V(x) : V(x, Elem(v));
        set_p(d);
        break;
    }
    case K_RANGE: {
        tmp.n = tmp.st = 0;
        if (y == 4) { // the iterators of another one, or of itself
            m_copy(tmp, w.mp[a]);
            *w.p[d] = V(std::as_const(*w.p[a]).begin(), std::as_const(*w.p[a]).end());
            set_p(d);
            break;
        }
        for (int i = 0; i < x; ++i)
            m_push(tmp, fresh());
        using Fwd = It<std::forward_iterator_tag>;
        using In  = It<std::input_iterator_tag>;
        if (y == 0)
            *w.p[d] = V(Fwd{tmp.v}, Fwd{tmp.v + x});
        else if (y == 1)
            *w.p[d] = V(Fwd{tmp.v}, End<0>{tmp.v + x});
        else if (y == 2)
            *w.p[d] = V(Fwd{tmp.v}, End<1>{tmp.v + x});
#if MC_KIND <= 1
        else if (y == 3)
            *w.p[d] = V(In{tmp.v}, End<0>{tmp.v + x});
        else
            *w.p[d] = V(In{tmp.v}, In{tmp.v + x});
#endif
        set_p(d);
        break;
    }
    case K_INIT: {
        tmp.n = tmp.st = 0;
        u64 e[3] = {fresh(), fresh(), fresh()};
        for (int i = 0; i < 3; ++i)
            m_push(tmp, e[i]);
        *w.p[d] = V{Elem(e[0]), Elem(e[1]), Elem(e[2])};
        set_p(d);
        break;
    }
#endif
#if MC_HAS_T
    case K_TRANS:
        m_copy(tmp, w.mp[a]);
        if (rv)
            *w.t[d] = std::move(*w.p[a]).transient();
        else
            *w.t[d] = std::as_const(*w.p[a]).transient();
        set_t(d);
        if (rv)
            gone_p(a);
        break;
    case K_PERS:
        m_copy(tmp, w.mt[a]);
        if (rv)
            *w.p[d] = std::move(*w.t[a]).persistent();
        else
            *w.p[d] = (*w.t[a]).persistent();
        set_p(d);
        if (rv)
            gone_t(a);
        break;
    case K_TNEW:
        tmp.n = tmp.st = 0;
        *w.t[d] = T{};
        set_t(d);
        break;
    case K_TCOPY:
        m_copy(tmp, w.mt[a]);
        *w.t[d] = *w.t[a];
        set_t(d);
        break;
    case K_TMOVE:
        m_copy(tmp, w.mt[a]);
        *w.t[d] = std::move(*w.t[a]);
        set_t(d);
        gone_t(a);
        break;
    case K_TPUSH: {
        m_copy(tmp, w.mt[d]);
        u64 v = fresh();
        m_push(tmp, v);
        (*w.t[d]).push_back(Elem(v));
        set_t(d);
        break;
    }
    case K_TSET: {
        m_copy(tmp, w.mt[d]);
        u64 v = fresh();
        m_set(tmp, x, v);
        (*w.t[d]).set(x, Elem(v));
        set_t(d);
        break;
    }
    case K_TUPD: {
        m_copy(tmp, w.mt[d]);
        u64 v = fresh();
        Caller c{tmp.v[x], v, &calls};
        m_set(tmp, x, v);
        (*w.t[d]).update(x, c);
        MC_EXPECT(calls == 1, "update called its function %d times", calls);
        set_t(d);
        break;
    }
    case K_TTAKE:
        m_copy(tmp, w.mt[d]);
        m_slice(tmp, 0, x);
        (*w.t[d]).take(x);
        set_t(d);
        break;
#if MC_KIND == 1
    case K_TDROP:
        m_copy(tmp, w.mt[d]);
        m_slice(tmp, x, tmp.n);
        (*w.t[d]).drop(x);
        set_t(d);
        break;
    case K_TAPP:
    case K_TPRE:
        m_copy(tmp, w.mt[d]);
        m_ins(tmp, op.kind == K_TAPP ? tmp.n : 0, w.mt[a].v, w.mt[a].n);
        if (op.kind == K_TAPP) {
            if (rv)
                (*w.t[d]).append(std::move(*w.t[a]));
            else
                (*w.t[d]).append(*w.t[a]);
        } else {
            if (rv)
                (*w.t[d]).prepend(std::move(*w.t[a]));
            else
                (*w.t[d]).prepend(*w.t[a]);
        }
        set_t(d);
        if (rv)
            gone_t(a);
        break;
#endif
#if MC_KIND == 2
    case K_TDATA: {
        m_copy(tmp, w.mt[d]);
        u64 v = fresh();
        m_set(tmp, x, v);
        auto p = (*w.t[d]).data_mut();
        p[x]   = Elem(v);
        set_t(d);
        break;
    }
#endif
#endif
    }
}

// which variables are left in an unspecified state by an r-value operation
static void moved_by(const mc::Op& op, bool failed)
{
    const int d = op.d, a = op.a, b = op.b, y = op.y;
    switch (op.kind) {
    case K_PUSH: case K_SET: case K_UPD: case K_TAKE: case K_DROP: case K_INS: case K_ERASE: case K_ERASER:
        if ((b & 1) && !is_dv && (a != d || failed))
            gone_p(a);
        break;
    case K_CAT:
    case K_INSV:
        if ((y & 1) && (a != d || failed))
            gone_p(a);
        if ((y & 2) && (b != d || failed))
            gone_p(b);
        break;
    case K_MOVE:
        if (failed && a != d)
            gone_p(a);
        break;
    case K_TRANS:
        if (failed && (b & 1))
            gone_p(a);
        break;
    case K_PERS: // taking the value: the transient itself is not to change
        if (failed && (b & 1))
            gone_t(a);
        break;
    case K_TMOVE:
        if (failed)
            gone_t(a);
        break;
    case K_TCOPY: // assignment between transients: the target may be either
        if (failed)
            gone_t(d);
        break;
    case K_TPUSH: case K_TSET: case K_TUPD: case K_TTAKE: case K_TDROP: case K_TDATA:
        if (failed)
            gone_t(d);
        break;
    case K_TAPP:
    case K_TPRE:
        if (failed) {
            gone_t(d);
            if (b & 1)
                gone_t(a);
        }
        break;
    }
    if (failed && (op.kind == K_TRANS || op.kind == K_TMOVE || op.kind == K_TNEW))
        gone_t(d);
}

// ---------------------------------------------------------------- enumeration
struct Emit
{
    mc::Op* o;
    int n, max;
    void operator()(int k, int d, int a, int b, int x, int y)
    {
        if (n >= max)
            mc::violation(vk::model, "engine: too many operations");
        o[n++] = {(mc::u8) k, (mc::u8) d, (mc::u8) a, (mc::u8) b, x, y};
    }
};

// representative indices in [0, hi]
MC_PLAIN static int indices(int hi, int dens, int* out)
{
    int n = 0;
    if (hi < 0)
        return 0;
    if (dens == 0 || hi < dens) {
        for (int i = 0; i <= hi && n < 1000; ++i)
            out[n++] = i;
        return n;
    }
    int tail = ((hi - 1) / LEAF) * LEAF; // where the last, maybe partial, leaf starts
    int c[]  = {0, hi, hi / 2, 1, tail, LEAF, hi - 1, tail - 1, LEAF - 1, LEAF * 4, hi / 3, hi - LEAF};
    for (int k = 0; k < 12 && n < dens; ++k) {
        int v = c[k];
        if (v < 0 || v > hi)
            continue;
        bool dup = false;
        for (int i = 0; i < n; ++i)
            dup |= out[i] == v;
        if (!dup)
            out[n++] = v;
    }
    return n;
}

enum {
    G_BASIC = 1, G_FLEX = 2, G_CAT = 4, G_RV = 8, G_TCREATE = 16, G_TOPS = 32, G_TCAT = 64, G_ASSIGN = 128, G_CTOR = 256,
    G_UPD = 512, G_ERASER = 1024, G_INSV = 2048, G_OVER = 4096, G_TCOPY = 8192
};

static int enumerate(mc::Op* out, int max, int depth)
{
    Emit emit{out, 0, max};
    int dens = (int) o_dens[depth < 7 ? depth : 7];
    int idx[1024];
    const int np = (int) o_np, nt = (int) o_nt;
    for (int a = 0; a < np; ++a) {
        if (w.mp[a].st)
            continue;
        const int n = w.mp[a].n;
        // destinations: l-value results go to the next variable and to itself; r-value results to itself and next
        int dests[2] = {(a + 1) % np, a};
        for (int di = 0; di < (np > 1 ? 2 : 1); ++di) {
            int d = np > 1 ? dests[di] : a;
            for (int rv = 0; rv < (((o_mask & G_RV) && !is_dv) ? 2 : 1); ++rv) {
                if (!rv && d == a && np > 1 && !(o_self & 1))
                    continue;
                if (rv && d != a && !(o_self & 2))
                    continue;
                if (o_mask & G_BASIC) {
                    if (n < o_maxlen)
                        emit(K_PUSH, d, a, rv, 0, 0);
                    int k = indices(n - 1, dens, idx);
                    for (int i = 0; i < k; ++i)
                        emit(K_SET, d, a, rv, idx[i], 0);
                    if (o_mask & G_UPD)
                        for (int i = 0; i < k; ++i)
                            emit(K_UPD, d, a, rv, idx[i], 0);
                    if (!is_dv) {
                        k = indices(n, dens, idx);
                        for (int i = 0; i < k; ++i)
                            emit(K_TAKE, d, a, rv, idx[i], 0);
                        if ((o_mask & G_OVER))
                            emit(K_TAKE, d, a, rv, n + 1, 0);
                    }
                }
                if (is_flex && (o_mask & G_FLEX)) {
                    int k = indices(n, dens, idx);
                    for (int i = 0; i < k; ++i)
                        emit(K_DROP, d, a, rv, idx[i], 0);
                    if (o_mask & G_OVER)
                        emit(K_DROP, d, a, rv, n + 1, 0);
                    if (n < o_maxlen) {
                        if (!rv)
                            emit(K_PUSHF, d, a, 0, 0, 0);
                        for (int i = 0; i < k; ++i)
                            emit(K_INS, d, a, rv, idx[i], 0);
                    }
                    k = indices(n - 1, dens, idx);
                    for (int i = 0; i < k; ++i)
                        emit(K_ERASE, d, a, rv, idx[i], 0);
                    if (o_mask & G_ERASER)
                        for (int i = 0; i < k; ++i)
                            for (int j = 0; j < k; ++j)
                                emit(K_ERASER, d, a, rv, idx[i], idx[j] + 1);
                }
            }
        }
        if (is_flex)
            for (int b = 0; b < np; ++b) {
                if (w.mp[b].st || n + w.mp[b].n > o_maxlen)
                    continue;
                for (int y = 0; y < ((o_mask & G_RV) ? 4 : 1); ++y) {
                    if (a == b && y)
                        continue;
                    int d = y == 0 ? (a == b ? (a + 1) % np : (np > 2 ? 3 - a - b : a)) : (y & 1) ? a : b;
                    if (o_mask & G_CAT) {
                        emit(K_CAT, d, a, b, 0, y);
                        if (y && (o_self & 2))
                            emit(K_CAT, y == 1 ? b : a, a, b, 0, y);
                    }
                    if (o_mask & G_INSV) {
                        int k = indices(n, dens ? dens : 8, idx);
                        for (int i = 0; i < k; ++i)
                            emit(K_INSV, d, a, b, idx[i], y);
                    }
                }
            }
        if (o_mask & G_ASSIGN)
            for (int d = 0; d < np; ++d) {
                if (d != a)
                    emit(K_COPY, d, a, 0, 0, 0);
                if (o_mask & G_RV)
                    emit(K_MOVE, d, a, 0, 0, 0);
                else if (d == a)
                    emit(K_COPY, d, a, 0, 0, 0);
            }
    }
    if ((o_mask & G_CTOR) && !is_dv) {
        int sz[] = {0, 1, LEAF, LEAF + 1, 5 * LEAF, 5 * LEAF + 1, 0};
        for (int i = 0; i < 6; ++i) {
            emit(K_FILL, 0, 0, 0, sz[i], 0);
            emit(K_RANGE, 0, 0, 0, sz[i], 0);
            if (i == 1 || i == 5)
                for (int k = 1; k < 6; ++k)
                    if (k < 3 || (k != 4 && !is_array))
                        emit(K_RANGE, 0, 0, 0, sz[i], k);
            if (i == 5)
                emit(K_FILL, 0, 0, 0, sz[i], 1);
            if (is_flex) {
                emit(K_V2F, 0, 0, 0, sz[i], 0);
                emit(K_V2F, 0, 0, 0, sz[i], 1);
            }
        }
        emit(K_INIT, 0, 0, 0, 0, 0);
        for (int a = 0; a < NP; ++a)
            if (!w.pst[a])
                emit(K_RANGE, 0, a, 0, 0, 4);
    }
    if (MC_HAS_T) {
        if (o_mask & G_TCREATE) {
            for (int a = 0; a < np; ++a)
                if (!w.mp[a].st)
                    for (int d = 0; d < nt; ++d)
                        for (int rv = 0; rv < 2; ++rv)
                            emit(K_TRANS, d, a, rv, 0, 0);
            for (int a = 0; a < nt; ++a)
                if (!w.mt[a].st)
                    for (int d = 0; d < np; ++d)
                        for (int rv = 0; rv < 2; ++rv)
                            emit(K_PERS, d, a, rv, 0, 0);
        }
        for (int a = 0; a < nt; ++a) {
            if (w.mt[a].st) {
                if (o_mask & G_TCREATE)
                    emit(K_TNEW, a, 0, 0, 0, 0);
                continue;
            }
            const int n = w.mt[a].n;
            if (o_mask & G_TOPS) {
                if (n < o_maxlen)
                    emit(K_TPUSH, a, 0, 0, 0, 0);
                int k = indices(n - 1, dens, idx);
                for (int i = 0; i < k; ++i)
                    emit(K_TSET, a, 0, 0, idx[i], 0);
                if (o_mask & G_UPD)
                    for (int i = 0; i < k; ++i)
                        emit(K_TUPD, a, 0, 0, idx[i], 0);
                if (is_array)
                    for (int i = 0; i < k; ++i)
                        emit(K_TDATA, a, 0, 0, idx[i], 0);
                k = indices(n, dens, idx);
                for (int i = 0; i < k; ++i)
                    emit(K_TTAKE, a, 0, 0, idx[i], 0);
                if (is_flex)
                    for (int i = 0; i < k; ++i)
                        emit(K_TDROP, a, 0, 0, idx[i], 0);
            }
            for (int b = 0; b < nt; ++b) {
                if (b == a || w.mt[b].st)
                    continue;
                if (o_mask & G_TCOPY) {
                    emit(K_TCOPY, a, b, 0, 0, 0);
                    emit(K_TMOVE, a, b, 0, 0, 0);
                }
                if (is_flex && (o_mask & G_TCAT) && n + w.mt[b].n <= o_maxlen)
                    for (int rv = 0; rv < 2; ++rv) {
                        emit(K_TAPP, a, b, rv, 0, 0);
                        emit(K_TPRE, a, b, rv, 0, 0);
                    }
            }
        }
    }
    return emit.n;
}

// ---------------------------------------------------------------- comparison with the model
template <class X>
static void check_one(const X& v, const M& m, const char* what, int i)
{
    MC_EXPECT((int) v.size() == m.n, "%s %d has size %d, expected %d", what, i, (int) v.size(), m.n);
    for (int k = 0; k < m.n; ++k) {
        u64 got = val_of(v[k]);
        MC_EXPECT(got == m.v[k], "%s %d: element %d of %d is %#llx, expected %#llx", what, i, k, m.n, (unsigned long long) got,
               (unsigned long long) m.v[k]);
    }
}

static void check_all()
{
    for (int i = 0; i < NP; ++i)
        if (!w.mp[i].st)
            check_one(std::as_const(*w.p[i]), w.mp[i], "variable", i);
#if MC_HAS_T
    for (int i = 0; i < NT; ++i)
        if (!w.mt[i].st)
            check_one(std::as_const(*w.t[i]), w.mt[i], "transient", i);
#endif
}

enum { BAT_BASIC = 1, BAT_ITER = 2, BAT_EQ = 4, BAT_AT = 8, BAT_ALGO = 16, BAT_COST = 32 };

template <class X>
static void bat_basic(const X& v, const M& m)
{
    MC_EXPECT(v.empty() == (m.n == 0), "empty() is %d for %d elements", (int) v.empty(), m.n);
#if MC_KIND < 2
    if constexpr (std::is_same_v<X, V>)
        MC_EXPECT(V::max_size() >= (std::size_t) m.n, "max_size() is %zu and there are %d elements", (std::size_t) V::max_size(), m.n);
#endif
#if MC_KIND != 3
    if (m.n) {
        if constexpr (MC_KIND == 2 || std::is_same_v<X, V>) {
            MC_EXPECT(val_of(v.front()) == m.v[0], "front() differs");
            MC_EXPECT(val_of(v.back()) == m.v[m.n - 1], "back() differs");
        }
    }
#if MC_KIND == 2
    for (int i = 0; i < m.n; ++i)
        MC_EXPECT(val_of(v.data()[i]) == m.v[i], "data()[%d] differs", i);
#endif
#endif
}

template <class X>
static void bat_at(const X& v, const M& m)
{
#if MC_KIND != 3
    for (int i = 0; i < m.n + 2; ++i) {
        int got = 0;
        u64 x   = 0;
        try {
            x   = val_of(v.at(i));
            got = 1;
        } catch (const std::out_of_range&) {
            got = 2;
        }
        MC_EXPECT(got == (i < m.n ? 1 : 2), "at(%d) of %d elements %s", i, m.n, got == 2 ? "threw" : "did not throw");
        MC_EXPECT(i >= m.n || x == m.v[i], "at(%d) differs", i);
    }
    for (std::size_t big : {~std::size_t{}, ~std::size_t{} / 2, (std::size_t{1} << 32) + 0, (std::size_t{1} << 63)}) {
        int got = 0;
        try {
            (void) v.at(big);
            got = 1;
        } catch (const std::out_of_range&) {
            got = 2;
        }
        MC_EXPECT(got == 2, "at(%zu) of %d elements did not throw", big, m.n);
    }
#endif
}

template <class X>
static void bat_iter(const X& v, const M& m)
{
    auto b = v.begin(), e = v.end();
    int k  = 0;
    for (auto it = b; it != e; ++it, ++k) {
        MC_EXPECT(k < m.n, "iteration visits more than %d elements", m.n);
        MC_EXPECT(val_of(*it) == m.v[k], "iteration: element %d differs", k);
    }
    MC_EXPECT(k == m.n, "iteration visits %d of %d elements", k, m.n);
    k = m.n;
    for (auto it = e; it != b;) {
        --it;
        --k;
        MC_EXPECT(k >= 0, "backward iteration runs over the beginning");
        MC_EXPECT(val_of(*it) == m.v[k], "backward iteration: element %d differs", k);
    }
    MC_EXPECT(k == 0, "backward iteration stops at %d", k);
    k = m.n;
    for (auto it = v.rbegin(); it != v.rend(); ++it) {
        --k;
        MC_EXPECT(k >= 0 && val_of(*it) == m.v[k], "reverse iteration: element %d differs", k);
    }
    MC_EXPECT(k == 0, "reverse iteration stops at %d", k);
    MC_EXPECT((long) (e - b) == m.n, "end - begin is %ld for %d elements", (long) (e - b), m.n);
    // every pair of positions, in both directions, through one iterator that keeps its cached chunk
    int idx[64];
    int c = indices(m.n, 14, idx);
    for (int i = 0; i < c; ++i)
        for (int j = 0; j < c; ++j) {
            auto x = b + idx[i];
            if (idx[i] < m.n)
                MC_EXPECT(val_of(*x) == m.v[idx[i]], "*(begin + %d) differs", idx[i]);
            MC_EXPECT((long) idx[i] + b == x, "%d + begin is not begin + %d", idx[i], idx[i]);
            if constexpr (!std::is_pointer_v<decltype(x)>)
                if (idx[i] < m.n)
                    MC_EXPECT(x.operator->() == &*x, "operator-> at %d differs", idx[i]);
            auto y = x;
            y += idx[j] - idx[i];
            if (idx[j] < m.n)
                MC_EXPECT(val_of(*y) == m.v[idx[j]], "iterator moved from %d to %d: wrong element", idx[i], idx[j]);
            auto z = x;
            z -= idx[i] - idx[j];
            MC_EXPECT(z == y, "iterators at %d differ", idx[j]);
            MC_EXPECT((long) (y - x) == idx[j] - idx[i], "iterator difference is %ld, expected %d", (long) (y - x), idx[j] - idx[i]);
            MC_EXPECT((x == y) == (i == j), "iterator equality of %d and %d", idx[i], idx[j]);
            MC_EXPECT((x != y) == (i != j), "iterator inequality of %d and %d", idx[i], idx[j]);
            MC_EXPECT((x < y) == (idx[i] < idx[j]), "iterator order of %d and %d", idx[i], idx[j]);
            MC_EXPECT((x <= y) == (idx[i] <= idx[j]), "iterator order of %d and %d", idx[i], idx[j]);
            MC_EXPECT((x > y) == (idx[i] > idx[j]), "iterator order of %d and %d", idx[i], idx[j]);
            MC_EXPECT((x >= y) == (idx[i] >= idx[j]), "iterator order of %d and %d", idx[i], idx[j]);
            if (idx[j] < m.n)
                MC_EXPECT(val_of(x[idx[j] - idx[i]]) == m.v[idx[j]], "it[%d] differs", idx[j] - idx[i]);
            // step by one across the position
            if (idx[j] > 0) {
                auto q = y;
                --q;
                MC_EXPECT(val_of(*q) == m.v[idx[j] - 1], "decrement at %d: wrong element", idx[j]);
                auto q2 = q++;
                MC_EXPECT(q == y && val_of(*q2) == m.v[idx[j] - 1], "post-increment at %d", idx[j]);
                auto q3 = q--;
                MC_EXPECT(q3 == y && q == q2, "post-decrement at %d", idx[j]);
            }
        }
}

struct Out
{
    const M* m;
    int k, hi;
    Out& operator*() { return *this; }
    Out& operator++() { return *this; }
    Out& operator++(int) { return *this; }
    Out& operator=(const Elem& e)
    {
        MC_EXPECT(k < hi && val_of(e) == m->v[k], "copy: element %d differs", k);
        ++k;
        return *this;
    }
};
struct Sum // a sum that depends on the order
{
    u64 h;
};
static Sum operator+(Sum a, const Elem& e) { return {a.h * 31 + val_of(e)}; }

template <class R>
static void algo_range(const R& r, int lo, int hi, const M& m)
{
    (void) lo;
    int k = lo;
    immer::for_each(r, [&](const Elem& e) {
        MC_EXPECT(k < hi && val_of(e) == m.v[k], "for_each: element %d differs", k);
        ++k;
    });
    MC_EXPECT(k == hi, "for_each stopped at %d of %d", k, hi);
    k = lo;
    immer::for_each_chunk(r, [&](const Elem* f, const Elem* l) {
        MC_EXPECT(f <= l, "for_each_chunk: negative chunk");
        for (; f != l; ++f, ++k)
            MC_EXPECT(k < hi && val_of(*f) == m.v[k], "for_each_chunk: element %d differs", k);
    });
    MC_EXPECT(k == hi, "for_each_chunk stopped at %d of %d", k, hi);
    // stopping at the s-th chunk
    int nchunks = 0;
    k           = lo;
    bool all    = immer::for_each_chunk_p(r, [&](const Elem* f, const Elem* l) {
        ++nchunks;
        for (; f != l; ++f, ++k)
            MC_EXPECT(k < hi && val_of(*f) == m.v[k], "for_each_chunk_p: element %d differs", k);
        return true;
    });
    MC_EXPECT(all && k == hi, "for_each_chunk_p: returned %d, stopped at %d of %d", (int) all, k, hi);
    int step = nchunks > 6 ? nchunks / 6 : 1;
    for (int s = 1; s <= nchunks; s += step) {
        int seen = 0;
        bool res = immer::for_each_chunk_p(r, [&](const Elem*, const Elem*) { return ++seen != s; });
        MC_EXPECT(!res && seen == s, "for_each_chunk_p: stopping at chunk %d visited %d, returned %d", s, seen, (int) res);
    }
    u64 acc = immer::accumulate(r, u64{7}, [](u64 x, const Elem& e) { return x * 31 + val_of(e); });
    u64 exp = 7;
    for (int i = lo; i < hi; ++i)
        exp = exp * 31 + m.v[i];
    MC_EXPECT(acc == exp, "accumulate differs on [%d, %d)", lo, hi);
    MC_EXPECT(immer::accumulate(r, Sum{7}).h == exp, "accumulate (+) differs on [%d, %d)", lo, hi);
    int st2 = (hi - lo) > 8 ? (hi - lo) / 8 : 1;
    for (int s = lo; s <= hi; s += st2) {
        int seen = 0;
        u64 stop = s < hi ? m.v[s] : 1;
        bool res = immer::all_of(r, [&](const Elem& e) {
            ++seen;
            return val_of(e) != stop;
        });
        int first = hi;
        for (int i = hi - 1; i >= lo; --i)
            if (m.v[i] == stop)
                first = i;
        MC_EXPECT(res == (first == hi), "all_of returned %d", (int) res);
        MC_EXPECT(seen == (first == hi ? hi - lo : first - lo + 1), "all_of called its predicate %d times on [%d, %d) with the first failure at %d", seen, lo, hi, first);
    }
    auto o = immer::copy(r, Out{&m, lo, hi});
    MC_EXPECT(o.k == hi, "copy stopped at %d of %d", o.k, hi);
}

template <class It>
struct Sub
{
    It b, e;
    It begin() const { return b; }
    It end() const { return e; }
};

template <class X>
static void bat_algo(const X& v, const M& m)
{
#if MC_KIND <= 2
    if constexpr (std::is_same_v<X, V>)
        algo_range(v, 0, m.n, m);
    int idx[64];
    int c = indices(m.n, 9, idx);
    for (int i = 0; i < c; ++i)
        for (int j = 0; j < c; ++j)
            if (idx[i] <= idx[j]) {
                // iterators reached in different ways
                auto b = v.begin() + idx[i];
                auto e = v.begin() + idx[j];
                if ((i + j) & 1) {
                    b = v.end() - (m.n - idx[i]);
                    if (idx[i] < m.n)
                        (void) *b;
                }
                int k = idx[i];
                immer::for_each_chunk(b, e, [&](const Elem* f, const Elem* l) {
                    MC_EXPECT(f <= l, "for_each_chunk: negative chunk");
                    for (; f != l; ++f, ++k)
                        MC_EXPECT(k < idx[j] && val_of(*f) == m.v[k], "for_each_chunk [%d, %d): element %d differs", idx[i], idx[j], k);
                });
                MC_EXPECT(k == idx[j], "for_each_chunk [%d, %d) stopped at %d", idx[i], idx[j], k);
                u64 acc = immer::accumulate(b, e, u64{7}, [](u64 x, const Elem& q) { return x * 31 + val_of(q); });
                u64 exp = 7;
                for (int q = idx[i]; q < idx[j]; ++q)
                    exp = exp * 31 + m.v[q];
                MC_EXPECT(acc == exp, "accumulate differs on [%d, %d)", idx[i], idx[j]);
                MC_EXPECT(immer::accumulate(b, e, Sum{7}).h == exp, "accumulate (+) differs on [%d, %d)", idx[i], idx[j]);
                k = idx[i];
                immer::for_each(b, e, [&](const Elem& q) {
                    MC_EXPECT(k < idx[j] && val_of(q) == m.v[k], "for_each [%d, %d): element %d differs", idx[i], idx[j], k);
                    ++k;
                });
                MC_EXPECT(k == idx[j], "for_each [%d, %d) stopped at %d", idx[i], idx[j], k);
                auto o = immer::copy(b, e, Out{&m, idx[i], idx[j]});
                MC_EXPECT(o.k == idx[j], "copy [%d, %d) stopped at %d", idx[i], idx[j], o.k);
                int seen = 0;
                u64 stop = idx[i] < idx[j] ? m.v[(idx[i] + idx[j]) / 2] : 1;
                bool res = immer::all_of(b, e, [&](const Elem& q) { ++seen; return val_of(q) != stop; });
                int first = idx[j];
                for (int q = idx[j] - 1; q >= idx[i]; --q)
                    if (m.v[q] == stop)
                        first = q;
                MC_EXPECT(res == (first == idx[j]) && seen == (first == idx[j] ? idx[j] - idx[i] : first - idx[i] + 1),
                       "all_of on [%d, %d): %d calls, returned %d", idx[i], idx[j], seen, (int) res);
                if (i <= 2 && j <= 2) {
                    int cs = 0;
                    int nc = 0;
                    (void) immer::for_each_chunk_p(b, e, [&](auto, auto) { ++nc; return true; });
                    for (int s = 1; s <= nc; ++s) {
                        cs = 0;
                        bool rr = immer::for_each_chunk_p(b, e, [&](auto, auto) { return ++cs != s; });
                        MC_EXPECT(!rr && cs == s, "for_each_chunk_p on [%d, %d): stop at %d visited %d", idx[i], idx[j], s, cs);
                    }
                }
            }
#endif
    (void) v;
    (void) m;
}

#if MC_KIND <= 2
// other ways to build the same sequence
static void others(const M& m, int how, V& r)
{
    r = V{};
    if (how == 0) {
        for (int i = 0; i < m.n; ++i)
            r = std::move(r).push_back(Elem(m.v[i]));
    }
#if MC_KIND == 1
    else if (how == 1) {
        for (int i = m.n; i-- > 0;)
            r = r.push_front(Elem(m.v[i]));
    } else if (how == 2) {
        V a, b;
        int h = m.n / 3;
        for (int i = 0; i < h; ++i)
            a = std::move(a).push_back(Elem(m.v[i]));
        for (int i = h; i < m.n; ++i)
            b = std::move(b).push_back(Elem(m.v[i]));
        r = a + b;
    } else if (how == 3) {
        r = std::move(r).push_back(Elem(m.n ? m.v[0] : TAG_VAL)).push_back(Elem(TAG_VAL));
        for (int i = 0; i < m.n; ++i)
            r = std::move(r).push_back(Elem(m.v[i]));
        r = std::move(r).push_back(Elem(TAG_VAL));
        r = r.drop(2).take(m.n);
    }
#endif
}
static bool m_eq(const M& a, const M& b)
{
    if (a.n != b.n)
        return false;
    for (int i = 0; i < a.n; ++i)
        if (a.v[i] != b.v[i])
            return false;
    return true;
}
static M tmpe;
static void bat_eq()
{
    for (int i = 0; i < o_np; ++i)
        for (int j = 0; j < o_np; ++j) {
            if (w.mp[i].st || w.mp[j].st)
                continue;
            bool e = m_eq(w.mp[i], w.mp[j]);
            const V &x = *w.p[i], &y = *w.p[j];
            MC_EXPECT((x == y) == e, "%d == %d gives %d, contents are %s", i, j, (int) !e, e ? "equal" : "different");
            MC_EXPECT((x != y) == !e, "%d != %d gives %d, contents are %s", i, j, (int) e, e ? "equal" : "different");
#if MC_KIND != 3
            MC_EXPECT(!(x.identity() == y.identity()) || e, "%d and %d have the same identity and different contents", i, j);
#endif
        }
    const int nh = is_flex ? 4 : 1;
    for (int i = 0; i < o_np; ++i) {
        if (w.mp[i].st)
            continue;
        if (i > 0 && m_eq(w.mp[i], w.mp[0]))
            continue;
        const V& x = *w.p[i];
        const M& m = w.mp[i];
        for (int how = 0; how < nh; ++how) {
            V r;
            others(m, how, r);
            MC_EXPECT(x == r && r == x, "variable %d and an equal sequence built in way %d compare different", i, how);
            MC_EXPECT(!(x != r) && !(r != x), "variable %d and an equal sequence built in way %d: != is true", i, how);
            int idx[32];
            int c = indices(m.n - 1, 7, idx);
            for (int k = 0; k < c; ++k) {
                V q = r.set(idx[k], Elem(TAG_VAL | 0xffffff));
                MC_EXPECT(!(x == q) && !(q == x) && x != q, "sequences that differ at %d of %d compare equal", idx[k], m.n);
                V z = x.set(idx[k], Elem(TAG_VAL | 0xffffff));
                MC_EXPECT(!(x == z) && !(z == x) && z != x, "a value and its own update at %d of %d compare equal", idx[k], m.n);
#if MC_KIND != 3
                MC_EXPECT(!(x.identity() == z.identity()), "a value and its own update at %d of %d have the same identity", idx[k], m.n);
#endif
                MC_EXPECT(z == q && q == z, "sequences updated equally at %d of %d compare different", idx[k], m.n);
            }
            if (m.n) {
                V q = r.take(m.n - 1);
                MC_EXPECT(!(x == q) && !(q == x), "a proper prefix compares equal");
            }
            V q = r.push_back(Elem(m.n ? m.v[0] : TAG_VAL));
            MC_EXPECT(!(x == q) && !(q == x), "a longer sequence compares equal");
            V xq = x.push_back(Elem(m.n ? m.v[0] : TAG_VAL));
#if MC_KIND != 3
            MC_EXPECT(!(x.identity() == xq.identity()), "a value of %d elements and a longer one have the same identity", m.n);
            for (int k = 0; k < c; ++k) {
                V t1 = x.take(idx[k]);
                MC_EXPECT(!(x.identity() == t1.identity()), "a value of %d elements and its prefix have the same identity", m.n);
#if MC_KIND == 1
                V d1 = x.drop(m.n - idx[k]);
                MC_EXPECT(!(x.identity() == d1.identity()), "a value of %d elements and its suffix have the same identity", m.n);
                MC_EXPECT(!(t1.identity() == d1.identity()) || t1 == d1, "a prefix and a suffix have the same identity and different contents");
#endif
            }
#endif
            MC_EXPECT(xq == q && q == xq, "equal longer sequences compare different");
#if MC_KIND == 1
            V d1 = x + r, d2 = r + x;
            MC_EXPECT(d1 == d2 && d2 == d1, "equal concatenations compare different");
            if (m.n) {
                V e1 = x.drop(1), e2 = r.drop(1);
                MC_EXPECT(e1 == e2 && e2 == e1, "equal suffixes compare different");
                for (int k = 0; k < c; ++k) {
                    V f1 = e1.push_front(Elem(m.v[0]));
                    MC_EXPECT(f1 == x && x == f1, "drop(1).push_front(front) compares different");
                    V g1 = x.erase(idx[k]).insert(idx[k], Elem(m.v[idx[k]]));
                    MC_EXPECT(g1 == x && x == g1, "erase(%d).insert(%d) compares different", idx[k], idx[k]);
                    V g2 = x.erase(idx[k]).insert(idx[k], Elem(TAG_VAL | 0xffffff));
                    MC_EXPECT(!(g2 == x) && !(x == g2), "different after erase(%d).insert(%d) compares equal", idx[k], idx[k]);
                }
            }
#endif
        }
    }
    (void) tmpe;
}
#else
static void bat_eq() {}
#endif

template <class X>
static void bat_one(const X& v, const M& m)
{
    if (o_bat & BAT_BASIC)
        bat_basic(v, m);
    if (o_bat & BAT_AT)
        bat_at(v, m);
    if (o_bat & BAT_ITER)
        bat_iter(v, m);
    if (o_bat & BAT_ALGO)
        bat_algo(v, m);
}

// ---------------------------------------------------------------- the harness
struct H : mc::Harness
{
    int nvars() { return __builtin_popcountl(o_vars); }
    int nshapes()
    {
        switch (o_fam) {
        case 0: return (int) ((o_nmax - o_nmin) / o_nstep + 1);
        case 1: return (int) ((o_nmax - o_nmin) / o_nstep + 1) * (int) (o_m1 - o_m0 + 1);
        case 2: return is_flex ? 64 : 0;
        case 3: return is_flex ? 64 * (int) (o_m1 - o_m0 + 1) : 0;
        case 4: return is_flex ? (int) (o_nmax - o_nmin + 1) * (int) (o_nmax - o_nmin + 1) : 0;
        }
        return 0;
    }
    int num_seeds() override { return nshapes() * nvars(); }
    void decode(int i, int& shape, int& var)
    {
        shape = i / nvars();
        int k = i % nvars();
        for (var = 0;; ++var)
            if (o_vars >> var & 1)
                if (k-- == 0)
                    break;
    }
    void shape_args(int shape, int& fa, int& x, int& fb, int& y)
    {
        fa = fb = 0;
        y       = (int) o_m0;
        switch (o_fam) {
        case 0: x = (int) (o_nmin + shape * o_nstep); break;
        case 1: {
            int k = (int) ((o_nmax - o_nmin) / o_nstep + 1);
            x     = (int) (o_nmin + (shape % k) * o_nstep);
            y     = (int) (o_m0 + shape / k);
            break;
        }
        case 2: fa = 1; x = shape; break;
        case 3: fa = 1; x = shape % 64; y = (int) (o_m0 + shape / 64); break;
        case 4: {
            int k = (int) (o_nmax - o_nmin + 1);
            fa = fb = 1;
            x       = (int) o_nmin + shape % k;
            y       = (int) o_nmin + shape / k;
            break;
        }
        default: x = 0;
        }
    }
    void seed(int i) override
    {
        int shape, var;
        decode(i, shape, var);
        int fa, x, fb, y;
        shape_args(shape, fa, x, fb, y);
        w.seed_no = i;
#if MC_KIND == 1
        {
            VV warm; // statics of the vector the conversions start from
        }
#endif
        for (int k = 0; k < NP; ++k) {
            new (w.p[k].mem) V;
            w.mp[k].n = w.mp[k].st = w.pst[k] = 0;
        }
#if MC_HAS_T
        for (int k = 0; k < NT; ++k) {
            new (w.t[k].mem) T;
            w.mt[k].n = w.mt[k].st = w.tst[k] = 0;
        }
#endif
        M& m0 = w.mp[0];
        switch (var) {
        case 0: // alias: every variable shares with variable 0
            *w.p[0] = build_any(fa, x, m0);
            if (o_np > 1) {
                *w.p[1] = *w.p[0];
                m_copy(w.mp[1], m0);
            }
            if (o_np > 2) {
                *w.p[2] = build_any(fb, y, w.mp[2]);
            }
            break;
        case 1: // unshared, next to an unrelated value
            *w.p[0] = build_any(fa, x, m0);
            if (o_np > 1)
                *w.p[1] = build_any(fb, y, w.mp[1]);
            break;
#if MC_HAS_T
        case 2: // unshared transients
            *w.t[0] = build_any(fa, x, w.mt[0]).transient();
            if (o_nt > 1)
                *w.t[1] = build_any(fb, y, w.mt[1]).transient();
            break;
        case 3: // transients of values that are still around
            *w.p[0] = build_any(fa, x, m0);
            *w.t[0] = std::as_const(*w.p[0]).transient();
            m_copy(w.mt[0], m0);
            if (o_np > 1)
                *w.p[1] = build_any(fb, y, w.mp[1]);
            if (o_nt > 1 && o_np > 1) {
                *w.t[1] = std::as_const(*w.p[1]).transient();
                m_copy(w.mt[1], w.mp[1]);
            }
            break;
        case 4: { // transients filled in place, then partially shared: value taken, more pushed
            m_copy(tmp, m0);
            for (int k = 0; k < x && fa == 0; ++k) {
                u64 e = fresh();
                (*w.t[0]).push_back(Elem(e));
                m_push(w.mt[0], e);
            }
            *w.p[0] = (*w.t[0]).persistent();
            m_copy(w.mp[0], w.mt[0]);
            for (int k = 0; k < y; ++k) {
                u64 e = fresh();
                (*w.t[0]).push_back(Elem(e));
                m_push(w.mt[0], e);
            }
            if (o_nt > 1)
                for (int k = 0; k < x / 2 + 1; ++k) {
                    u64 e = fresh();
                    (*w.t[1]).push_back(Elem(e));
                    m_push(w.mt[1], e);
                }
            break;
        }
        case 5: // both transients of the same value
            *w.p[0] = build_any(fa, x, m0);
            *w.t[0] = std::as_const(*w.p[0]).transient();
            m_copy(w.mt[0], m0);
            if (o_nt > 1) {
                *w.t[1] = std::as_const(*w.p[0]).transient();
                m_copy(w.mt[1], m0);
            }
            break;
#endif
        }
        for (int k = 0; k < NP; ++k)
            w.pst[k] = w.mp[k].st = 0;
        for (int k = 0; k < NT; ++k)
            w.tst[k] = w.mt[k].st = 0;
    }
    void describe_seed(int i, char* buf, int n) override
    {
        int shape, var;
        decode(i, shape, var);
        int fa, x, fb, y;
        shape_args(shape, fa, x, fb, y);
        snprintf(buf, n, "seed %d: %s %d, other %s %d, sharing %d", i, fa ? "relaxed shape" : "regular of size", x,
                 fb ? "relaxed shape" : "regular of size", y, var);
    }
    bool bounded() override
    {
        for (int i = 0; i < NP; ++i)
            if (w.mp[i].n > o_cap)
                return false;
        for (int i = 0; i < NT; ++i)
            if (w.mt[i].n > o_cap)
                return false;
        return true;
    }
    int ops(mc::Op* out, int max, int depth) override { return enumerate(out, max, depth); }
    void apply(const mc::Op& op) override
    {
        int na = op.kind == K_PERS ? w.mt[op.a].n : op.kind == K_TRANS ? w.mp[op.a].n : op.kind >= K_TRANS ? w.mt[op.d].n : w.mp[op.a].n;
        int nb = op.kind == K_CAT || op.kind == K_INSV ? w.mp[op.b].n : 0;
        reset_cost(op);
        ::apply(op);
        moved_by(op, false);
        end_cost(op, na, nb);
        again_cost(op);
    }
    void done() override
    {
        if (o_cost == 2)
            dump_cost();
    }
    void check() override { check_all(); }
    void battery() override
    {
        if (o_bat & BAT_COST)
            bat_cost();
        for (int i = 0; i < o_np; ++i)
            if (!w.mp[i].st)
                bat_one(std::as_const(*w.p[i]), w.mp[i]);
#if MC_HAS_T
        for (int i = 0; i < o_nt; ++i)
            if (!w.mt[i].st)
                bat_one(std::as_const(*w.t[i]), w.mt[i]);
#endif
        if (o_bat & BAT_EQ)
            bat_eq();
    }
    void teardown() override
    {
        for (int i = 0; i < NP; ++i) {
            if (w.mp[i].st)
                *w.p[i] = V{};
            (*w.p[i]).~V();
        }
#if MC_HAS_T
        for (int i = 0; i < NT; ++i) {
            if (w.mt[i].st)
                *w.t[i] = T{};
            (*w.t[i]).~T();
        }
#endif
    }
    int roots(mc::Range* r, int) override
    {
        r[0] = {w.p, sizeof w.p};
        r[1] = {w.t, MC_HAS_T ? sizeof w.t : 0};
        r[2] = {w.pst, sizeof w.pst + sizeof w.tst};
        return 3;
    }
    void describe(const mc::Op& op, char* buf, int n) override
    {
        snprintf(buf, n, "%s d=%d a=%d b=%d x=%d y=%d", knames[op.kind] ? knames[op.kind] : "?", op.d, op.a, op.b, op.x, op.y);
    }
    void after_fault(const mc::Op& op) override { moved_by(op, true); }
    // concat_merger_mut::abort() gives up when a concatenation in place fails, see DESIGN.md
    const char* known_terminate(const mc::Op& op, const char* caller) override
    {
        bool cat_mut = op.kind == K_TAPP || op.kind == K_TPRE || (op.kind == K_CAT && op.y) || (op.kind == K_INSV && op.y) || ((op.kind == K_INS || op.kind == K_ERASE || op.kind == K_ERASER) && (op.b & 1));
        if (policy_is_gc && is_flex && cat_mut && caller[0])
            return "concat-mut-terminate";
        return nullptr;
    }
};

// ---------------------------------------------------------------- cost (C20)
static int deepest()
{
    int d = 0;
    for (int i = 0; i < NP; ++i)
        if (int k = mc::graph_depth(w.p[i].mem, sizeof w.p[i].mem); k > d)
            d = k;
    for (int i = 0; MC_HAS_T && i < NT; ++i)
        if (int k = mc::graph_depth(w.t[i].mem, sizeof w.t[i].mem); k > d)
            d = k;
    return d;
}
// The height of a tree of n elements when every node but the last on each level is full.
static int full_height(int n)
{
    int h = 2;
    for (long k = (long) LEAF << MC_BB; k < n; k <<= MC_BB)
        ++h;
    return h;
}
static void judge_height(const mc::Op& op, int n, const void* p, std::size_t size, bool grows)
{
    auto* top = mc::persistent_words() + 4000;
    int d     = mc::graph_depth(p, size), full = is_array ? 1 : full_height(n), most = cost::before + grows;
    if (d - full > (int) top[0])
        top[0] = d - full, top[1] = n, top[2] = d;
    if (o_again)
        most = most > full + 1 ? most : full + 1;
    else // all there is was made from nothing, by operations on no more than a few elements
        most = full + 1;
    most += policy_is_gc; // the block that tells the owner of a node
    if (Policy::prefer_fewer_bigger_objects && is_flex && o_again)
        return; // the sizes of a relaxed node may be part of the block of another node
    if (d > most)
        mc::violation(vk::cost, "%s leaves %d elements in %d levels (at most %d; %d are enough)", knames[op.kind], n, d, most, full);
}
static bool owned_before; // nobody else has a part of what the operation changes in place
static bool owns(const mc::Op& op)
{
    bool t = false;
    switch (op.kind) {
    case K_PUSH: case K_SET: case K_UPD: case K_TAKE: case K_DROP:
        if (MC_NO_RVALUES || is_dv || !(op.b & 1))
            return false;
        break;
    case K_TPUSH: case K_TSET: case K_TUPD: case K_TDATA: case K_TTAKE: case K_TDROP: t = true; break;
    default: return false;
    }
    if (policy_is_gc)
        return false;
    V none; // what all empty values refer to
    mc::exclusive_begin();
    mc::exclusive_add(&none, sizeof none, 31);
    for (int i = 0; i < NP; ++i)
        mc::exclusive_add(w.p[i].mem, sizeof w.p[i].mem, i);
    for (int i = 0; MC_HAS_T && i < NT; ++i)
        mc::exclusive_add(w.t[i].mem, sizeof w.t[i].mem, NP + i);
    return mc::exclusive(t ? NP + op.d : op.a);
}
static void reset_cost(const mc::Op& op)
{
    if (!o_cost)
        return;
    owned_before = owns(op);
    cost::start(deepest());
}
// Bounds in paths from the root to a leaf. A block is a node or the sizes of a relaxed node; the depth counts blocks,
// so that a path has at most `depth` nodes, each with sizes of its own.
static void end_cost(const mc::Op& op, int na, int nb)
{
    if (!o_cost)
        return;
    cost::stop();
    int now     = deepest();
    cost::depth = cost::depth > now ? cost::depth : now;
    const int path = 2 * cost::depth + 2, n = na + nb;
    // a concatenation makes up to two nodes full of children anew on every level
    const int cat_a = 2 * ((1 << MC_BB) + 2) * (cost::depth + 1), cat_c = (2 * (1 << MC_BB) + 2) * LEAF;
    const int token = policy_is_gc ? 2 : 0; // what tells the owner of a transient
    int a = -1, c = -1;
    switch (op.kind) {
    case K_COPY: case K_MOVE: case K_TMOVE: a = c = 0; break;
    case K_TRANS: case K_TCOPY: a = token, c = 0; break;
    case K_PERS: // an array gives back what it does not use, when it cannot be used later either
        a = token, c = is_array && MC_NO_RVALUES ? n : 0;
        break;
    case K_SET: case K_UPD: case K_TSET: case K_TUPD: case K_PUSH: case K_TPUSH: case K_TAKE: case K_TTAKE: case K_TDATA:
        a = is_array ? 1 : path;
        c = (is_array ? n : LEAF) + (op.kind == K_UPD || op.kind == K_TUPD); // the function takes a copy
        break;
    case K_DROP: case K_TDROP: a = path, c = 2 * LEAF; break;
    case K_CAT: case K_TAPP: case K_TPRE: case K_PUSHF: a = cat_a, c = cat_c; break;
    case K_INS: case K_INSV: case K_ERASE: case K_ERASER: a = 2 * cat_a, c = 2 * cat_c; break;
    }
    int rv = op.kind == K_CAT || op.kind == K_INSV ? op.y : op.b & 1;
    if (owned_before && !is_array) { // as in again_cost
        c = op.kind == K_DROP || op.kind == K_TDROP ? LEAF : 0; // a regular node may have no room for sizes
        if (op.kind == K_SET || op.kind == K_UPD || op.kind == K_TSET || op.kind == K_TUPD)
            a = 0;
        cost::judge(op.kind * 8 + 5, knames[op.kind], " in place", n, a, c);
    } else
    cost::judge(op.kind * 8 + rv, knames[op.kind], rv ? " of an r-value" : "", n, a, c);
    bool grows = op.kind == K_PUSH || op.kind == K_TPUSH || op.kind == K_PUSHF || op.kind == K_CAT || op.kind == K_INS || op.kind == K_INSV || op.kind == K_TAPP || op.kind == K_TPRE;
    for (int i = 0; i < NP; ++i)
        judge_height(op, w.mp[i].n, w.p[i].mem, sizeof w.p[i].mem, grows);
    for (int i = 0; MC_HAS_T && i < NT; ++i)
        judge_height(op, w.mt[i].n, w.t[i].mem, sizeof w.t[i].mem, grows);
}
// The same once more, in place: everything it touches was made by the first one and belongs to nobody else.
static void again_cost(const mc::Op& op)
{
    if (!o_cost || !o_again)
        return;
    mc::Op o = op;
    o.a      = op.d;
    int n, more = 1;
    switch (op.kind) {
    case K_PUSH: case K_SET: case K_UPD: case K_TAKE: case K_DROP:
        if (MC_NO_RVALUES || is_dv)
            return;
        o.b = 1;
        n   = w.mp[o.d].n;
        break;
    case K_TPUSH: case K_TSET: case K_TUPD: case K_TDATA: case K_TTAKE: case K_TDROP:
        o.a = op.a;
        n   = w.mt[o.d].n;
        break;
    default: return;
    }
    if (op.kind == K_TAKE || op.kind == K_TTAKE) {
        if (!n)
            return;
        o.x = n - 1;
    }
    if (op.kind == K_DROP || op.kind == K_TDROP) {
        if (!n)
            return;
        o.x = 1;
    }
    const bool push = op.kind == K_PUSH || op.kind == K_TPUSH;
    if (is_array && push) // twice the size: it is made bigger at most twice
        for (more = 1; more < n + 2 && n + more < MC_MAXN; ++more)
            ;
    mc::begin_step();
    cost::start(deepest());
    for (int i = 0; i < more; ++i) {
        ::apply(o);
        moved_by(o, false);
    }
    cost::stop();
    int now     = deepest();
    cost::depth = cost::depth > now ? cost::depth : now;
    int a = 0, c = 0;
    switch (op.kind) {
    case K_PUSH: case K_TPUSH:
        a = is_array ? 2 : 2 * cost::depth + 2;
        c = is_array ? 3 * n + 4 : 0;
        break;
    case K_TAKE: case K_TTAKE:
        a = is_array ? 0 : 2 * cost::depth + 2;
        c = is_array ? 0 : LEAF;
        break;
    case K_DROP: case K_TDROP: a = 2 * cost::depth + 2, c = 2 * LEAF; break;
    }
    cost::judge(op.kind * 8 + 4, knames[op.kind], " in place, again,", n, a, c);
}
static void dump_cost()
{
    cost::dump(knames, K_COUNT);
    cost::dump_calls(K_COUNT);
    auto* top = mc::persistent_words() + 4000;
    fprintf(stderr, "HEIGHT more %d: %d elements, %d blocks\n", (int) top[0], (int) top[1], (int) top[2]);
}

#if MC_KIND != 3
static void pair_cost(int slot, const V& x, const V& y, const char* what, int n, int most)
{
    cost::start(0);
    volatile bool e = x == y;
    (void) e;
    cost::judge_calls(K_COUNT * 8 + slot, what, n, most);
}
#endif
static void bat_cost()
{
#if MC_KIND != 3
    for (int i = 0; i < o_np; ++i) {
        if (w.mp[i].st)
            continue;
        const V& x = *w.p[i];
        const int n = w.mp[i].n;
        V y        = x;
        pair_cost(0, x, y, "comparing a value with its copy", n, 0);
        int idx[32];
        int c = indices(n - 1, 7, idx);
        for (int k = 0; k < c; ++k) {
            V z = x.set(idx[k], Elem(w.mp[i].v[idx[k]]));
            pair_cost(1, x, z, "comparing a value with one with an element replaced", n, is_array ? n : LEAF);
            pair_cost(1, z, x, "comparing a value with one with an element replaced", n, is_array ? n : LEAF);
        }
        V p = x.push_back(Elem(TAG_VAL | 0xffffff));
        pair_cost(2, x, p, "comparing a value with a longer one", n, 0);
    }
#endif
}

int main(int argc, char** argv)
{
    init_names();
    static H h;
    mc::explore_args(argc, argv);
    o_fam    = mc::opt("fam", 0);
    o_nmin   = mc::opt("nmin", 0);
    o_nmax   = mc::opt("nmax", 20);
    o_nstep  = mc::opt("nstep", 1);
    o_vars   = mc::opt("vars", 1);
    o_mask   = mc::opt("mask", 1);
    o_bat    = mc::opt("bat", 0);
    o_m0     = mc::opt("m0", 3);
    o_m1     = mc::opt("m1", o_m0);
    o_maxlen = mc::opt("maxlen", MC_MAXN / 2 - 2);
    o_self   = mc::opt("self", 1);
    o_np     = mc::opt("np", 2);
    o_nt     = mc::opt("nt", 2);
    o_cap    = mc::opt("maxn", MC_MAXN);
    o_cost   = mc::opt("cost", 0);
    o_again  = mc::opt("again", 1);
    char nm[16];
    for (int i = 0; i < 8; ++i) {
        snprintf(nm, sizeof nm, "dens%d", i);
        o_dens[i] = mc::opt(nm, i ? o_dens[i - 1] : 0);
    }
    mc::persistent_words();
    return mc::explore_main(argc, argv, h);
}
