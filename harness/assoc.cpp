// Hash tries: set (KIND 0), map (1), table (2), with their transients.
#include "common.hpp"
#include "cost.hpp"
#include <immer/algorithm.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#ifndef MC_KIND
#define MC_KIND 1
#endif
#ifndef MC_HASHT // what the hash function returns
#define MC_HASHT std::size_t
#endif
#ifndef MC_BB
#define MC_BB 5
#endif
#ifndef MC_K
#define MC_K 6
#endif
#define MC_PLAIN __attribute__((no_sanitize("thread"), noinline))

constexpr int NK = MC_K; // keys 0 .. NK - 1
constexpr int B  = MC_BB;
constexpr int NP = 3;
constexpr int NT = 2;

using Key = Elem;
using Val = Elem;

struct World;
static u64 hash_of(u64 kv);

struct KRef
{
    int k;
};

struct KHash
{
    using is_transparent = void;
    MC_HASHT operator()(const Key& k) const
    {
        ++mc::counters().calls;
        mc::fault_point(fk::hash);
        return hash_of(val_of(k));
    }
    MC_HASHT operator()(const KRef& k) const { return hash_of(TAG_KEY | k.k); }
};
struct KEq
{
    using is_transparent = void;
    bool operator()(const Key& a, const Key& b) const { return a == b; }
    bool operator()(const Key& a, const KRef& b) const { return val_of(a) == (TAG_KEY | b.k); }
};

#if MC_KIND == 0
using V = immer::set<Key, KHash, KEq, Policy, B>;
#elif MC_KIND == 1
using V = immer::map<Key, Val, KHash, KEq, Policy, B>;
#else
struct Item
{
    Key id;
    Val val;
    Item()                       = default;
    Item(Key k, Val v)
        : id(std::move(k))
        , val(std::move(v))
    {}
    friend bool operator==(const Item& a, const Item& b) { return a.id == b.id && a.val == b.val; }
    friend bool operator!=(const Item& a, const Item& b) { return !(a == b); }
};
using V = immer::table<Item, immer::table_key_fn, KHash, KEq, Policy, B>;
#endif
using T  = V::transient_type;
using VT = V::value_type;

MC_PLAIN static u64 key_word(int k) { return TAG_KEY | (u64) k; }

static VT make(int k, u64 v)
{
#if MC_KIND == 0
    (void) v;
    return Key(key_word(k));
#elif MC_KIND == 1
    return VT{Key(key_word(k)), Val(v)};
#else
    return Item{Key(key_word(k)), Val(v)};
#endif
}
static void read(const VT& e, int& k, u64& v)
{
#if MC_KIND == 0
    u64 kw = val_of(e);
    v      = 1;
#elif MC_KIND == 1
    u64 kw = val_of(e.first);
    v      = val_of(e.second);
#else
    u64 kw = val_of(e.id);
    v      = val_of(e.val);
#endif
    MC_EXPECT((kw >> 48) == (TAG_KEY >> 48) && (kw & 0xffffffffffff) < (u64) NK, "an element has a key never inserted: %#llx",
              (unsigned long long) kw);
    k = (int) (kw & 0xffffffffffff);
}

// ---------------------------------------------------------------- the reference model
struct M
{
    int st, n;
    u64 v[NK]; // 0: absent
};
MC_PLAIN static void m_copy(M& d, const M& a) { d = a; }
MC_PLAIN static void m_put(M& d, int k, u64 v)
{
    d.n += d.v[k] == 0;
    d.v[k] = v;
}
MC_PLAIN static void m_del(M& d, int k)
{
    d.n -= d.v[k] != 0;
    d.v[k] = 0;
}
MC_PLAIN static void m_clear(M& d)
{
    for (int i = 0; i < NK; ++i)
        d.v[i] = 0;
    d.n = d.st = 0;
}
MC_PLAIN static bool m_eq(const M& a, const M& b)
{
    for (int i = 0; i < NK; ++i)
        if (a.v[i] != b.v[i])
            return false;
    return true;
}

template <class X>
struct Slot
{
    alignas(16) unsigned char mem[(sizeof(X) + 15) & ~15ull];
    X& operator*() { return *std::launder(reinterpret_cast<X*>(mem)); }
};

struct World
{
    Slot<V> p[NP];
    Slot<T> t[NT];
    int pst[NP], tst[NT];
    u64 h[NK];
    M mp[NP], mt[NT];
    u64 next;
    int seed_no;
};
static World w;
static M tmp;
MC_PLAIN static u64 hash_of(u64 kv)
{
    if ((kv >> 48) != (TAG_KEY >> 48) || (kv & 0xffffffffffff) >= (u64) NK) {
        if ((kv >> 48) == (TAG_MOVED >> 48))
            mc::violation(vk::lifetime, "a key is hashed after it was moved from");
        return 0; // the default constructed key
    }
    return w.h[kv & 0xffffffffffff];
}

static long o_fam, o_nmin, o_nmax, o_nstep, o_vars, o_mask, o_bat, o_keys, o_np, o_nt, o_self, o_s0, o_s1, o_pat, o_m0, o_cost, o_cap;

static u64 fresh()
{
#if MC_KIND == 0
    return 1;
#else
    return TAG_VAL | ++w.next;
#endif
}
static M* model(bool t, int i) { return t ? &w.mt[i] : &w.mp[i]; }

// ---------------------------------------------------------------- operations
enum K {
    K_COPY = 1, K_MOVE, K_INS, K_SET, K_UPD, K_UIE, K_ERASE, K_RANGE, K_INIT,
    K_TRANS = 20, K_PERS, K_TCOPY, K_TMOVE, K_TNEW, K_TINS, K_TSET, K_TUPD, K_TUIE, K_TERASE,
    K_COUNT
};
static const char* knames[K_COUNT] = {};
static void init_names()
{
    const char* a[] = {"", "copy", "move", "insert", "set", "update", "update_if_exists", "erase", "ctor-range", "ctor-init"};
    for (int i = 1; i <= K_INIT; ++i)
        knames[i] = a[i];
    const char* b[] = {"transient", "persistent", "t-copy", "t-move", "t-new", "t-insert", "t-set", "t-update", "t-update_if_exists", "t-erase"};
    for (int i = 0; i < 10; ++i)
        knames[K_TRANS + i] = b[i];
}

struct Caller
{
    int key;
    u64 expect; // 0: the default value
    u64 result;
    int* calls;
    static void cmp(u64 got, u64 want)
    {
        MC_EXPECT(got == want, "update function called with value %#llx, the current value is %#llx", (unsigned long long) got,
                  (unsigned long long) want);
    }
#if MC_KIND == 2
    template <class X>
    Item operator()(X&& e) const
    {
        ++*calls;
        cmp(val_of(e.val), expect ? expect : DEFAULT_WORD);
        if (expect)
            MC_EXPECT(val_of(e.id) == key_word(key), "update function called with an element of another key");
        mc::fault_point(fk::fn);
        Item r{std::forward<X>(e)};
        r.val = Val(result);
        return r;
    }
#else
    template <class X>
    Val operator()(X&& e) const
    {
        ++*calls;
        cmp(val_of(e), expect ? expect : DEFAULT_WORD);
        mc::fault_point(fk::fn);
        Val taken(std::forward<X>(e)); // functions may take the value by value
        cmp(val_of(taken), expect ? expect : DEFAULT_WORD);
        return Val(result);
    }
#endif
};

static void set_p(int d)
{
    m_copy(w.mp[d], tmp);
    w.pst[d] = w.mp[d].st = 0;
}
static void set_t(int d)
{
    m_copy(w.mt[d], tmp);
    w.tst[d] = w.mt[d].st = 0;
}
static void gone_p(int a) { m_clear(w.mp[a]); w.pst[a] = w.mp[a].st = 1; }
static void gone_t(int a) { m_clear(w.mt[a]); w.tst[a] = w.mt[a].st = 1; }

#define MC_LR(call)                                                                                                   \
    if (!rv)                                                                                                           \
        *w.p[d] = std::as_const(*w.p[a]).call;                                                                        \
    else                                                                                                               \
        *w.p[d] = std::move(*w.p[a]).call;

template <class Tag>
struct It
{
    using iterator_category = Tag;
    using value_type        = VT;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const VT*;
    using reference         = VT;
    int k;
    VT operator*() const
    {
        mc::fault_point(fk::fn);
        int q = k % NK; // more than NK: duplicates, the last one wins
        return make(q, tmp.v[q]);
    }
    It& operator++() { ++k; return *this; }
    It operator++(int) { auto r = *this; ++k; return r; }
    bool operator==(const It& o) const { return k == o.k; }
    bool operator!=(const It& o) const { return k != o.k; }
};
struct End
{
    int k;
};
template <class Tag>
bool operator==(const It<Tag>& i, const End& e) { return i.k == e.k; }
template <class Tag>
bool operator!=(const It<Tag>& i, const End& e) { return i.k != e.k; }
template <class Tag>
bool operator==(const End& e, const It<Tag>& i) { return i.k == e.k; }
template <class Tag>
bool operator!=(const End& e, const It<Tag>& i) { return i.k != e.k; }

// the value an insertion writes: new, or the one another variable has for the key
static u64 pick(const M& m, int key, int y)
{
#if MC_KIND == 0
    return 1;
#else
    if (y == 1 && m.v[key])
        return m.v[key];
    return fresh();
#endif
}

static void apply(const mc::Op& op)
{
    const int d = op.d, a = op.a, x = op.x, y = op.y;
    const bool rv = op.b & 1;
    int calls     = 0;
    switch (op.kind) {
    case K_COPY:
        m_copy(tmp, w.mp[a]);
        *w.p[d] = *w.p[a];
        set_p(d);
        break;
    case K_MOVE:
        m_copy(tmp, w.mp[a]);
        *w.p[d] = std::move(*w.p[a]);
        set_p(d);
        if (a != d)
            gone_p(a);
        break;
    case K_INS: {
        m_copy(tmp, w.mp[a]);
        u64 v = pick(w.mp[(a + 1) % o_np], x, y);
        m_put(tmp, x, v);
        MC_LR(insert(make(x, v)));
        set_p(d);
        break;
    }
#if MC_KIND == 1
    case K_SET: {
        m_copy(tmp, w.mp[a]);
        u64 v = pick(w.mp[(a + 1) % o_np], x, y);
        m_put(tmp, x, v);
        MC_LR(set(Key(key_word(x)), Val(v)));
        set_p(d);
        break;
    }
#endif
#if MC_KIND >= 1
    case K_UPD: {
        m_copy(tmp, w.mp[a]);
        u64 v = fresh();
        Caller c{x, tmp.v[x], v, &calls};
        m_put(tmp, x, v);
        MC_LR(update(Key(key_word(x)), c));
        MC_EXPECT(calls == 1, "update called its function %d times", calls);
        set_p(d);
        break;
    }
    case K_UIE: {
        m_copy(tmp, w.mp[a]);
        u64 v    = fresh();
        bool has = tmp.v[x] != 0;
        Caller c{x, tmp.v[x], v, &calls};
        if (has)
            m_put(tmp, x, v);
        MC_LR(update_if_exists(Key(key_word(x)), c));
        MC_EXPECT(calls == (has ? 1 : 0), "update_if_exists called its function %d times, the key is %s", calls, has ? "present" : "absent");
        set_p(d);
        break;
    }
#endif
    case K_ERASE: {
        m_copy(tmp, w.mp[a]);
        m_del(tmp, x);
        MC_LR(erase(Key(key_word(x))));
        set_p(d);
        break;
    }
    case K_RANGE: {
        if (y == 2) { // the iterators of another one, or of itself
            m_copy(tmp, w.mp[a]);
            *w.p[d] = V(std::as_const(*w.p[a]).begin(), std::as_const(*w.p[a]).end());
            set_p(d);
            break;
        }
        m_clear(tmp);
        for (int i = 0; i < x && i < NK; ++i)
            m_put(tmp, i, fresh());
        using Fwd = It<std::forward_iterator_tag>;
        using In  = It<std::input_iterator_tag>;
        if (y)
            *w.p[d] = V(In{0}, End{x});
        else
            *w.p[d] = V(Fwd{0}, Fwd{x});
        set_p(d);
        break;
    }
    case K_INIT: {
        m_clear(tmp);
        u64 v0 = fresh(), v1 = fresh(), v2 = fresh();
        m_put(tmp, 0, v2);
        m_put(tmp, NK - 1, v1);
        *w.p[d] = V{make(0, v0), make(NK - 1, v1), make(0, v2)};
        set_p(d);
        break;
    }
    case K_TRANS:
        m_copy(tmp, w.mp[a]);
        if (rv)
            *w.t[d] = std::move(*w.p[a]).transient();
        else
            *w.t[d] = std::as_const(*w.p[a]).transient();
        set_t(d);
        if (rv)
            gone_p(a);
        break;
    case K_PERS:
        m_copy(tmp, w.mt[a]);
        if (rv)
            *w.p[d] = std::move(*w.t[a]).persistent();
        else
            *w.p[d] = (*w.t[a]).persistent();
        set_p(d);
        if (rv)
            gone_t(a);
        break;
    case K_TNEW:
        m_clear(tmp);
        *w.t[d] = T{};
        set_t(d);
        break;
    case K_TCOPY:
        m_copy(tmp, w.mt[a]);
        *w.t[d] = *w.t[a];
        set_t(d);
        break;
    case K_TMOVE:
        m_copy(tmp, w.mt[a]);
        *w.t[d] = std::move(*w.t[a]);
        set_t(d);
        gone_t(a);
        break;
    case K_TINS: {
        m_copy(tmp, w.mt[d]);
        u64 v = pick(w.mp[0], x, y);
        m_put(tmp, x, v);
        (*w.t[d]).insert(make(x, v));
        set_t(d);
        break;
    }
#if MC_KIND == 1
    case K_TSET: {
        m_copy(tmp, w.mt[d]);
        u64 v = pick(w.mp[0], x, y);
        m_put(tmp, x, v);
        (*w.t[d]).set(Key(key_word(x)), Val(v));
        set_t(d);
        break;
    }
#endif
#if MC_KIND >= 1
    case K_TUPD: {
        m_copy(tmp, w.mt[d]);
        u64 v = fresh();
        Caller c{x, tmp.v[x], v, &calls};
        m_put(tmp, x, v);
        (*w.t[d]).update(Key(key_word(x)), c);
        MC_EXPECT(calls == 1, "update called its function %d times", calls);
        set_t(d);
        break;
    }
    case K_TUIE: {
        m_copy(tmp, w.mt[d]);
        u64 v    = fresh();
        bool has = tmp.v[x] != 0;
        Caller c{x, tmp.v[x], v, &calls};
        if (has)
            m_put(tmp, x, v);
        (*w.t[d]).update_if_exists(Key(key_word(x)), c);
        MC_EXPECT(calls == (has ? 1 : 0), "update_if_exists called its function %d times, the key is %s", calls, has ? "present" : "absent");
        set_t(d);
        break;
    }
#endif
    case K_TERASE: {
        m_copy(tmp, w.mt[d]);
        m_del(tmp, x);
        (*w.t[d]).erase(Key(key_word(x)));
        set_t(d);
        break;
    }
    }
}

static void moved_by(const mc::Op& op, bool failed)
{
    const int d = op.d, a = op.a;
    switch (op.kind) {
    case K_INS: case K_SET: case K_UPD: case K_UIE: case K_ERASE:
        if ((op.b & 1) && (a != d || failed))
            gone_p(a);
        break;
    case K_MOVE:
        if (failed && a != d)
            gone_p(a);
        break;
    case K_TRANS:
        if (failed) {
            gone_t(d);
            if (op.b & 1)
                gone_p(a);
        }
        break;
    case K_PERS:
        if (failed && (op.b & 1))
            gone_t(a);
        break;
    case K_TMOVE:
        if (failed) {
            gone_t(a);
            gone_t(d);
        }
        break;
    case K_TCOPY: case K_TNEW: case K_TINS: case K_TSET: case K_TUPD: case K_TUIE: case K_TERASE:
        if (failed)
            gone_t(d);
        break;
    }
}

// ---------------------------------------------------------------- enumeration
enum { G_INS = 1, G_SET = 2, G_UPD = 4, G_UIE = 8, G_ERASE = 16, G_RV = 32, G_ASSIGN = 64, G_CTOR = 128, G_TCREATE = 256, G_TOPS = 512,
       G_TCOPY = 1024, G_SAME = 2048 };

struct Emit
{
    mc::Op* o;
    int n, max;
    void operator()(int k, int d, int a, int b, int x, int y)
    {
        if (n >= max)
            mc::violation(vk::model, "engine: too many operations");
        o[n++] = {(mc::u8) k, (mc::u8) d, (mc::u8) a, (mc::u8) b, x, y};
    }
};

// the keys operations are tried with: the first, the last, and some in between
static int op_keys(int* out)
{
    int n = 0;
    if (o_keys <= 0 || o_keys >= NK) {
        for (int i = 0; i < NK; ++i)
            out[n++] = i;
        return n;
    }
    for (int i = 0; i < o_keys; ++i)
        out[n++] = (int) (i * (NK - 1) / (o_keys > 1 ? o_keys - 1 : 1));
    return n;
}

static int enumerate(mc::Op* out, int max)
{
    Emit emit{out, 0, max};
    int keys[NK];
    int nk       = op_keys(keys);
    const int np = (int) o_np, nt = (int) o_nt;
    for (int a = 0; a < np; ++a) {
        if (w.mp[a].st)
            continue;
        int dests[2] = {(a + 1) % np, a};
        for (int di = 0; di < (np > 1 ? 2 : 1); ++di) {
            int d = np > 1 ? dests[di] : a;
            for (int rv = 0; rv < ((o_mask & G_RV) ? 2 : 1); ++rv) {
                if (!rv && d == a && np > 1 && !(o_self & 1))
                    continue;
                if (rv && d != a && !(o_self & 2))
                    continue;
                for (int i = 0; i < nk; ++i) {
                    int k = keys[i];
                    if (o_mask & G_INS)
                        for (int y = 0; y < ((o_mask & G_SAME) && w.mp[(a + 1) % np].v[k] && MC_KIND ? 2 : 1); ++y)
                            emit(K_INS, d, a, rv, k, y);
                    if (MC_KIND == 1 && (o_mask & G_SET))
                        emit(K_SET, d, a, rv, k, 0);
                    if (MC_KIND >= 1 && (o_mask & G_UPD))
                        emit(K_UPD, d, a, rv, k, 0);
                    if (MC_KIND >= 1 && (o_mask & G_UIE))
                        emit(K_UIE, d, a, rv, k, 0);
                    if (o_mask & G_ERASE)
                        emit(K_ERASE, d, a, rv, k, 0);
                }
            }
        }
        if (o_mask & G_ASSIGN)
            for (int d = 0; d < np; ++d) {
                emit(K_COPY, d, a, 0, 0, 0);
                if (o_mask & G_RV)
                    emit(K_MOVE, d, a, 0, 0, 0);
            }
    }
    if (o_mask & G_CTOR) {
        emit(K_RANGE, 0, 0, 0, 0, 0);
        emit(K_RANGE, 0, 0, 0, NK / 2 + 1, 0);
        emit(K_RANGE, 0, 0, 0, NK, 0);
        emit(K_RANGE, 0, 0, 0, 2 * NK, 0);
        emit(K_INIT, 0, 0, 0, 0, 0);
        emit(K_RANGE, 0, 0, 0, NK, 1);
        for (int a = 0; a < NP; ++a)
            if (!w.pst[a])
                emit(K_RANGE, 0, a, 0, 0, 2);
    }
    if (o_mask & G_TCREATE) {
        for (int a = 0; a < np; ++a)
            if (!w.mp[a].st)
                for (int d = 0; d < nt; ++d)
                    for (int rv = 0; rv < 2; ++rv)
                        emit(K_TRANS, d, a, rv, 0, 0);
        for (int a = 0; a < nt; ++a)
            if (!w.mt[a].st)
                for (int d = 0; d < np; ++d)
                    for (int rv = 0; rv < 2; ++rv)
                        emit(K_PERS, d, a, rv, 0, 0);
    }
    for (int a = 0; a < nt; ++a) {
        if (w.mt[a].st) {
            if (o_mask & G_TCREATE)
                emit(K_TNEW, a, 0, 0, 0, 0);
            continue;
        }
        if (o_mask & G_TOPS)
            for (int i = 0; i < nk; ++i) {
                int k = keys[i];
                emit(K_TINS, a, 0, 0, k, 0);
                if (MC_KIND == 1 && (o_mask & G_SET))
                    emit(K_TSET, a, 0, 0, k, 0);
                if (MC_KIND >= 1 && (o_mask & G_UPD))
                    emit(K_TUPD, a, 0, 0, k, 0);
                if (MC_KIND >= 1 && (o_mask & G_UIE))
                    emit(K_TUIE, a, 0, 0, k, 0);
                emit(K_TERASE, a, 0, 0, k, 0);
            }
        for (int b = 0; b < nt; ++b)
            if (b != a && !w.mt[b].st && (o_mask & G_TCOPY)) {
                emit(K_TCOPY, a, b, 0, 0, 0);
                emit(K_TMOVE, a, b, 0, 0, 0);
            }
    }
    return emit.n;
}

// ---------------------------------------------------------------- comparison with the model
template <class X>
static void check_one(const X& v, const M& m, const char* what, int i)
{
    MC_EXPECT((int) v.size() == m.n, "%s %d has size %d, expected %d", what, i, (int) v.size(), m.n);
    for (int k = 0; k < NK; ++k) {
        auto p = v.find(KRef{k});
        MC_EXPECT((p != nullptr) == (m.v[k] != 0), "%s %d: key %d is %s", what, i, k, p ? "present" : "absent");
        if (!p)
            continue;
#if MC_KIND == 0
        MC_EXPECT(val_of(*p) == key_word(k), "%s %d: find(%d) finds another element", what, i, k);
#elif MC_KIND == 1
        MC_EXPECT(val_of(*p) == m.v[k], "%s %d: key %d maps to %#llx, expected %#llx", what, i, k, (unsigned long long) val_of(*p),
                  (unsigned long long) m.v[k]);
#else
        MC_EXPECT(val_of(p->id) == key_word(k), "%s %d: find(%d) finds another element", what, i, k);
        MC_EXPECT(val_of(p->val) == m.v[k], "%s %d: key %d has value %#llx, expected %#llx", what, i, k, (unsigned long long) val_of(p->val),
                  (unsigned long long) m.v[k]);
#endif
    }
}

static void check_all()
{
    for (int i = 0; i < NP; ++i)
        if (!w.mp[i].st)
            check_one(std::as_const(*w.p[i]), w.mp[i], "variable", i);
    for (int i = 0; i < NT; ++i)
        if (!w.mt[i].st)
            check_one(std::as_const(*w.t[i]), w.mt[i], "transient", i);
}

enum { BAT_BASIC = 1, BAT_ITER = 2, BAT_EQ = 4, BAT_DIFF = 8, BAT_COST = 16 };

template <class X, class Q>
static void lookups(const X& v, const M& m, int k, const Q& key)
{
    bool has = m.v[k] != 0;
    MC_EXPECT(v.count(key) == (has ? 1u : 0u), "count(%d) is %d", k, (int) v.count(key));
    auto p = v.find(key);
    MC_EXPECT((p != nullptr) == has, "find(%d) is %s", k, p ? "not null" : "null");
#if MC_KIND >= 1
    int got = 0;
    u64 x   = 0;
    try {
#if MC_KIND == 1
        x = val_of(v.at(key));
#else
        x = val_of(v.at(key).val);
#endif
        got = 1;
    } catch (const std::out_of_range&) {
        got = 2;
    }
    MC_EXPECT(got == (has ? 1 : 2), "at(%d) %s", k, got == 2 ? "threw" : "did not throw");
    MC_EXPECT(!has || x == m.v[k], "at(%d) differs", k);
#if MC_KIND == 1
    x = val_of(v[key]);
#else
    x = val_of(v[key].val);
#endif
    MC_EXPECT(x == (has ? m.v[k] : DEFAULT_WORD), "[%d] differs", k);
#endif
}

template <class X>
static void bat_basic(const X& v, const M& m)
{
    MC_EXPECT(v.empty() == (m.n == 0), "empty() is %d for %d elements", (int) v.empty(), m.n);
    for (int k = 0; k < NK; ++k) {
        lookups(v, m, k, Key(key_word(k)));
        lookups(v, m, k, KRef{k});
    }
}

struct Seen
{
    int c[NK];
    int n;
    void clear()
    {
        for (int i = 0; i < NK; ++i)
            c[i] = 0;
        n = 0;
    }
    void add(const VT& e, const M& m, const char* what)
    {
        int k;
        u64 v;
        read(e, k, v);
        MC_EXPECT(m.v[k] != 0, "%s visits key %d, which is absent", what, k);
        MC_EXPECT(v == m.v[k], "%s visits a wrong value for key %d", what, k);
        MC_EXPECT(++c[k] == 1, "%s visits key %d twice", what, k);
        ++n;
    }
    void done(const M& m, const char* what) { MC_EXPECT(n == m.n, "%s visits %d of %d elements", what, n, m.n); }
};

struct Collect
{
    Seen* s;
    const M* m;
    Collect& operator*() { return *this; }
    Collect& operator++() { return *this; }
    Collect& operator++(int) { return *this; }
    Collect& operator=(const VT& e)
    {
        s->add(e, *m, "copy");
        return *this;
    }
};
struct Count
{
    int n;
};
static Count operator+(Count a, const VT&) { return {a.n + 1}; }

template <class X>
static void bat_iter(const X& v, const M& m)
{
    Seen s;
    s.clear();
    for (auto it = v.begin(); it != v.end(); ++it) {
        s.add(*it, m, "iteration");
        MC_EXPECT(it.operator->() == &*it, "operator-> of an iterator differs");
    }
    s.done(m, "iteration");
    s.clear();
    auto e = v.end();
    for (auto it = v.begin(); it != e;) {
        auto copy = it;
        MC_EXPECT(copy == it, "a copied iterator differs");
        s.add(*copy, m, "iteration");
        auto old = it++;
        MC_EXPECT(old == copy && &*old == &*copy, "post-increment returns another position");
        MC_EXPECT(!(it == copy), "an iterator does not advance");
        ++copy;
        MC_EXPECT(copy == it, "two iterators advance differently");
    }
    s.done(m, "iteration");
    MC_EXPECT((long) std::distance(v.begin(), v.end()) == m.n, "distance(begin, end) differs");
    MC_EXPECT((v.begin() == v.end()) == (m.n == 0), "begin == end on %d elements", m.n);
    if constexpr (std::is_same_v<X, V>) {
        s.clear();
        immer::for_each(v, [&](const VT& q) { s.add(q, m, "for_each"); });
        s.done(m, "for_each");
        s.clear();
        immer::for_each_chunk(v, [&](const VT* f, const VT* l) {
            MC_EXPECT(f <= l, "for_each_chunk: negative chunk");
            for (; f != l; ++f)
                s.add(*f, m, "for_each_chunk");
        });
        s.done(m, "for_each_chunk");
        MC_EXPECT(immer::accumulate(v, Count{0}).n == m.n, "accumulate (+) does not visit all of %d elements", m.n);
        s.clear();
        immer::copy(v, Collect{&s, &m});
        s.done(m, "copy");
        int cnt = immer::accumulate(v, 0, [&](int c, const VT&) { return c + 1; });
        MC_EXPECT(cnt == m.n, "accumulate visits %d of %d elements", cnt, m.n);
    }
}

struct DiffCheck
{
    const M* a;
    const M* b;
    int c[NK];
    DiffCheck(const M& x, const M& y)
        : a{&x}
        , b{&y}
    {
        for (int i = 0; i < NK; ++i)
            c[i] = 0;
    }
    void added(const VT& e)
    {
        int k;
        u64 v;
        read(e, k, v);
        MC_EXPECT(!a->v[k] && b->v[k], "diff: added called for key %d", k);
        MC_EXPECT(v == b->v[k], "diff: added called with a wrong value for key %d", k);
        MC_EXPECT(++c[k] == 1, "diff: key %d reported twice", k);
    }
    void removed(const VT& e)
    {
        int k;
        u64 v;
        read(e, k, v);
        MC_EXPECT(a->v[k] && !b->v[k], "diff: removed called for key %d", k);
        MC_EXPECT(v == a->v[k], "diff: removed called with a wrong value for key %d", k);
        MC_EXPECT(++c[k] == 1, "diff: key %d reported twice", k);
    }
    void changed(const VT& e, const VT& f)
    {
        int k, k2;
        u64 v, v2;
        read(e, k, v);
        read(f, k2, v2);
        MC_EXPECT(k == k2, "diff: changed called with keys %d and %d", k, k2);
        MC_EXPECT(a->v[k] && b->v[k] && a->v[k] != b->v[k], "diff: changed called for key %d", k);
        MC_EXPECT(v == a->v[k] && v2 == b->v[k], "diff: changed called with wrong values for key %d", k);
        MC_EXPECT(++c[k] == 1, "diff: key %d reported twice", k);
    }
    void done()
    {
        for (int k = 0; k < NK; ++k)
            MC_EXPECT(c[k] == (a->v[k] != b->v[k]), "diff: key %d not reported", k);
    }
};

static void diff_pair(const V& x, const M& mx, const V& y, const M& my)
{
    DiffCheck d{mx, my};
    immer::diff(
        x, y, [&](const VT& e) { d.added(e); }, [&](const VT& e) { d.removed(e); },
        [&](const VT& e, const VT& f) { d.changed(e, f); });
    d.done();
    int na = 0, nr = 0;
    immer::diff(x, y, [&](const VT&) { ++na; }, [&](const VT&) { ++nr; });
    int ea = 0, er = 0;
    for (int k = 0; k < NK; ++k) {
        ea += !mx.v[k] && my.v[k];
        er += mx.v[k] && !my.v[k];
    }
    MC_EXPECT(na == ea && nr == er, "diff without changed: %d added, %d removed, expected %d and %d", na, nr, ea, er);
}

static void eq_pair(const V& x, const M& mx, const V& y, const M& my, const char* what)
{
    bool e = m_eq(mx, my);
    MC_EXPECT((x == y) == e, "%s: == is %d, contents are %s", what, (int) !e, e ? "equal" : "different");
    MC_EXPECT((x != y) == !e, "%s: != is %d, contents are %s", what, (int) e, e ? "equal" : "different");
#if MC_KIND != 2
    MC_EXPECT(x.identity() != y.identity() || e, "%s: the same identity, different contents", what);
#endif
}

// the same contents, reached in another way
static V rebuild(const M& m, int how)
{
    V r;
    if (how == 0)
        for (int k = 0; k < NK; ++k) {
            if (m.v[k])
                r = std::move(r).insert(make(k, m.v[k]));
        }
    else if (how == 1)
        for (int k = NK; k-- > 0;) {
            if (m.v[k])
                r = r.insert(make(k, m.v[k]));
        }
    else {
        // with everything else in between
        for (int k = 0; k < NK; ++k)
            r = r.insert(make(k, TAG_VAL | 0xfffff0));
        for (int k = 0; k < NK; ++k)
            if (!m.v[k])
                r = how == 2 ? r.erase(Key(key_word(k))) : std::move(r).erase(Key(key_word(k)));
        for (int k = NK; k-- > 0;)
            if (m.v[k])
                r = r.insert(make(k, m.v[k]));
    }
    return r;
}

static void bat_pairs()
{
    for (int i = 0; i < o_np; ++i)
        for (int j = 0; j < o_np; ++j) {
            if (w.mp[i].st || w.mp[j].st)
                continue;
            if (o_bat & BAT_EQ)
                eq_pair(*w.p[i], w.mp[i], *w.p[j], w.mp[j], "two variables");
            if (o_bat & BAT_DIFF)
                diff_pair(*w.p[i], w.mp[i], *w.p[j], w.mp[j]);
        }
    int keys[NK];
    int nk = op_keys(keys);
    for (int i = 0; i < o_np; ++i) {
        if (w.mp[i].st)
            continue;
        const V& x = *w.p[i];
        const M& m = w.mp[i];
        for (int how = 0; how < 4; ++how) {
            V r = rebuild(m, how);
            if (o_bat & BAT_EQ) {
                eq_pair(x, m, r, m, "a value and the same contents built anew");
                eq_pair(r, m, x, m, "a value and the same contents built anew");
            }
            if (o_bat & BAT_DIFF) {
                diff_pair(x, m, r, m);
                diff_pair(r, m, x, m);
            }
            // one element more, less, changed; two changes
            for (int q = 0; q < nk; ++q) {
                int k = keys[q];
                M mm;
                m_copy(mm, m);
                V y = r;
                if (m.v[k]) {
                    m_del(mm, k);
                    y = y.erase(Key(key_word(k)));
                } else {
                    m_put(mm, k, MC_KIND ? TAG_VAL | 0xfffff1 : 1);
                    y = y.insert(make(k, TAG_VAL | 0xfffff1));
                }
                if (o_bat & BAT_EQ) {
                    eq_pair(x, m, y, mm, "a value and another with one element more or less");
                    eq_pair(y, mm, x, m, "a value and another with one element more or less");
                }
                if (o_bat & BAT_DIFF) {
                    diff_pair(x, m, y, mm);
                    diff_pair(y, mm, x, m);
                }
                // an exchange: same size, one key different
                int k2 = keys[(q + 1) % nk];
                if (k2 != k && !m.v[k2] != !m.v[k]) {
                    M m2;
                    m_copy(m2, mm);
                    V z = y;
                    if (m.v[k2]) {
                        m_del(m2, k2);
                        z = z.erase(Key(key_word(k2)));
                    } else {
                        m_put(m2, k2, MC_KIND ? TAG_VAL | 0xfffff2 : 1);
                        z = z.insert(make(k2, TAG_VAL | 0xfffff2));
                    }
                    if (o_bat & BAT_EQ) {
                        eq_pair(x, m, z, m2, "a value and another of the same size");
                        eq_pair(z, m2, x, m, "a value and another of the same size");
                    }
                    if (o_bat & BAT_DIFF) {
                        diff_pair(x, m, z, m2);
                        diff_pair(z, m2, x, m);
                    }
                }
                if (MC_KIND && m.v[k]) {
                    M m2;
                    m_copy(m2, m);
                    m_put(m2, k, TAG_VAL | 0xfffff3);
                    V z = r.insert(make(k, TAG_VAL | 0xfffff3));
                    if (o_bat & BAT_EQ) {
                        eq_pair(x, m, z, m2, "a value and another with one element changed");
                        eq_pair(z, m2, x, m, "a value and another with one element changed");
                    }
                    if (o_bat & BAT_DIFF) {
                        diff_pair(x, m, z, m2);
                        diff_pair(z, m2, x, m);
                    }
                }
            }
        }
        V e;
        M me;
        m_clear(me);
        if (o_bat & BAT_DIFF) {
            diff_pair(x, m, e, me);
            diff_pair(e, me, x, m);
        }
        if (o_bat & BAT_EQ) {
            eq_pair(x, m, e, me, "a value and the empty one");
            eq_pair(e, me, x, m, "a value and the empty one");
        }
    }
}

template <class X>
static void bat_one(const X& v, const M& m)
{
    if (o_bat & BAT_BASIC)
        bat_basic(v, m);
    if (o_bat & BAT_ITER)
        bat_iter(v, m);
}

// ---------------------------------------------------------------- hashes
constexpr int LEVELS = (64 + B - 1) / B;
constexpr u64 pat(int i)
{
    u64 one = 1;
    switch (i) {
    case 0: return 0;
    case 1: return one;
    case 2: return one << B;
    case 3: return one << (B * (LEVELS - 1)); // the last level
    case 4: return ~u64{};
    case 5: return (one << B) | one;
    case 6: return one << 63;
    case 7: return (one << (2 * B)) | ((one << B) - 1);
    }
    return i;
}
constexpr int n_schemes = 10;
static u64 scheme(int s, int k)
{
    u64 one = 1;
    switch (s) {
    case 0: return k;                                                             // dense
    case 1: return 42;                                                            // one collision node
    case 2: return k / 2;                                                         // pairs that collide
    case 3: return (u64) k << (B * (LEVELS - 1));                                 // differ on the last level only
    case 4: return k < 2 ? 0 : one << (B * (k % LEVELS));                         // each on its own level
    case 5: return k % 3 == 0 ? 7 : (k % 3 == 1 ? 7 + (one << (B * 2)) * (1 + k / 3) : k);
    case 6: return ~u64{} - (k / 2);                                              // the last slots
    case 7: return (u64) k << B;                                                  // common first level
    case 8: return (k % 2 ? one << 63 : 0) | ((u64) (k / 4) << (B * 3));          // pairs of pairs
    case 9: return (u64) k * 0x9e3779b97f4a7c15ull;                               // spread
    }
    return k;
}

// ---------------------------------------------------------------- the harness
struct H : mc::Harness
{
    int nvars() { return __builtin_popcountl(o_vars); }
    int nsizes() { return (int) ((o_nmax - o_nmin) / o_nstep + 1); }
    // the number of ways to give the NK keys one of o_pat hashes, up to order
    int multisets()
    {
        long r = 1;
        for (int i = 1; i <= NK; ++i)
            r = r * (o_pat - 1 + i) / i;
        return (int) r;
    }
    int nshapes() { return o_fam == 0 ? (int) (o_s1 - o_s0) * nsizes() : multisets(); }
    int num_seeds() override { return nshapes() * nvars(); }
    void decode(int i, int& shape, int& var)
    {
        shape = i / nvars();
        int k = i % nvars();
        for (var = 0;; ++var)
            if (o_vars >> var & 1)
                if (k-- == 0)
                    break;
    }
    void hashes(int shape, int& n)
    {
        if (o_fam == 0) {
            int s = (int) o_s0 + shape / nsizes();
            n     = (int) (o_nmin + (shape % nsizes()) * o_nstep);
            for (int k = 0; k < NK; ++k)
                w.h[k] = scheme(s, k);
        } else {
            int c[NK] = {};
            for (int q = 0; q < shape; ++q) { // next non-decreasing sequence
                int i = NK - 1;
                while (i >= 0 && c[i] == o_pat - 1)
                    --i;
                ++c[i];
                for (int j = i + 1; j < NK; ++j)
                    c[j] = c[i];
            }
            for (int k = 0; k < NK; ++k)
                w.h[k] = pat(c[k]);
            n = (int) o_nmin;
        }
        if (n > NK)
            n = NK;
    }
    static V fill(int n, M& m)
    {
        V v;
        m_clear(m);
        for (int k = 0; k < n; ++k) {
            u64 x = fresh();
            m_put(m, k, x);
            v = v.insert(make(k, x));
        }
        return v;
    }
    void seed(int i) override
    {
        int shape, var, n;
        decode(i, shape, var);
        hashes(shape, n);
        w.seed_no = i;
        for (int k = 0; k < NP; ++k) {
            new (w.p[k].mem) V;
            m_clear(w.mp[k]);
        }
        for (int k = 0; k < NT; ++k) {
            new (w.t[k].mem) T;
            m_clear(w.mt[k]);
        }
#if MC_KIND >= 1
        (void) (*w.p[0])[KRef{0}]; // the static default value
#endif
        M& m0 = w.mp[0];
        switch (var) {
        case 0:
            *w.p[0] = fill(n, m0);
            *w.p[1] = *w.p[0];
            m_copy(w.mp[1], m0);
            break;
        case 1:
            *w.p[0] = fill(n, m0);
            *w.p[1] = fill((int) o_m0, w.mp[1]);
            break;
        case 2:
            *w.t[0] = fill(n, w.mt[0]).transient();
            *w.t[1] = fill((int) o_m0, w.mt[1]).transient();
            break;
        case 3:
            *w.p[0] = fill(n, m0);
            *w.t[0] = std::as_const(*w.p[0]).transient();
            m_copy(w.mt[0], m0);
            break;
        case 4: {
            for (int k = 0; k < n; ++k) {
                u64 e = fresh();
                (*w.t[0]).insert(make(k, e));
                m_put(w.mt[0], k, e);
            }
            *w.p[0] = (*w.t[0]).persistent();
            m_copy(w.mp[0], w.mt[0]);
            for (int k = 0; k < o_m0; ++k) {
                u64 e = fresh();
                (*w.t[0]).insert(make(k, e));
                m_put(w.mt[0], k, e);
            }
            break;
        }
        case 5:
            *w.p[0] = fill(n, m0);
            *w.t[0] = std::as_const(*w.p[0]).transient();
            m_copy(w.mt[0], m0);
            *w.t[1] = std::as_const(*w.p[0]).transient();
            m_copy(w.mt[1], m0);
            break;
        case 6: // everything, then erased down to n
            *w.p[0] = fill(NK, m0);
            *w.p[1] = *w.p[0];
            m_copy(w.mp[1], m0);
            for (int k = NK; k-- > n;) {
                *w.p[0] = (*w.p[0]).erase(Key(key_word(k)));
                m_del(m0, k);
            }
            break;
        }
        for (int k = 0; k < NP; ++k)
            w.pst[k] = w.mp[k].st = 0;
        for (int k = 0; k < NT; ++k)
            w.tst[k] = w.mt[k].st = 0;
    }
    void describe_seed(int i, char* buf, int n) override
    {
        int shape, var, sz;
        decode(i, shape, var);
        u64 keep[NK];
        memcpy(keep, w.h, sizeof keep);
        hashes(shape, sz);
        int o = snprintf(buf, n, "seed %d: %d of %d keys, sharing %d, hashes", i, sz, NK, var);
        for (int k = 0; k < NK && k < 10 && o < n; ++k)
            o += snprintf(buf + o, n - o, " %llx", (unsigned long long) w.h[k]);
        memcpy(w.h, keep, sizeof keep);
    }
    bool bounded() override
    {
        for (int i = 0; i < NP; ++i)
            if (w.mp[i].n > o_cap)
                return false;
        for (int i = 0; i < NT; ++i)
            if (w.mt[i].n > o_cap)
                return false;
        return true;
    }
    int ops(mc::Op* out, int max, int) override { return enumerate(out, max); }
    void apply(const mc::Op& op) override
    {
        if (!o_cost) {
            ::apply(op);
            moved_by(op, false);
            return;
        }
        owned_before = owns(op);
        cost::start(deepest());
        ::apply(op);
        cost::stop();
        int d = cost::depth, now = deepest();
        cost::depth = d > now ? d : now;
        end_cost(op, (op.b & 1) && op.kind < K_TRANS ? 1 : 0);
        moved_by(op, false);
        again_cost(op);
    }
    bool owned_before; // nobody else has a part of what the operation changes in place
    static bool owns(const mc::Op& op)
    {
        bool t = false;
        switch (op.kind) {
        case K_INS: case K_SET: case K_UPD: case K_UIE: case K_ERASE:
            if (MC_NO_RVALUES || !(op.b & 1))
                return false;
            break;
        case K_TINS: case K_TSET: case K_TUPD: case K_TUIE: case K_TERASE: t = true; break;
        default: return false;
        }
        if (policy_is_gc)
            return false;
        V none; // what all empty values refer to
        mc::exclusive_begin();
        mc::exclusive_add(&none, sizeof none, 31);
        for (int i = 0; i < NP; ++i)
            mc::exclusive_add(w.p[i].mem, sizeof w.p[i].mem, i);
        for (int i = 0; i < NT; ++i)
            mc::exclusive_add(w.t[i].mem, sizeof w.t[i].mem, NP + i);
        return mc::exclusive(t ? NP + op.d : op.a);
    }
    static int deepest()
    {
        int a = mc::graph_depth(w.p, sizeof w.p), b = mc::graph_depth(w.t, sizeof w.t);
        return a > b ? a : b;
    }
    // the greatest number of keys with one hash
    static int collisions()
    {
        int best = 1;
        for (int i = 0; i < NK; ++i) {
            int n = 0;
            for (int k = 0; k < NK; ++k)
                n += w.h[k] == w.h[i];
            best = n > best ? n : best;
        }
        return best;
    }
    // immer::table_key_fn gives the key of an element out by value
    static int table_keys() { return MC_KIND == 2 ? 2 * collisions() + 4 : 0; }
    // Bounds in paths from the root to a leaf: a node and its values on every level.
    void end_cost(const mc::Op& op, int rv)
    {
        const int each  = MC_KIND == 0 ? 1 : 2; // Elem in an element
        const int path  = 2 * cost::depth + 2;
        const int full  = each * ((cost::depth * (1 << B)) + collisions() + 1) + table_keys();
        const int token = policy_is_gc ? 2 : 0;
        int a = -1, c = -1;
        switch (op.kind) {
        case K_COPY: case K_MOVE: case K_TMOVE: a = c = 0; break;
        case K_TRANS: case K_PERS: case K_TCOPY: a = token, c = 0; break;
        case K_INS: case K_SET: case K_UPD: case K_UIE: case K_ERASE:
        case K_TINS: case K_TSET: case K_TUPD: case K_TUIE: case K_TERASE: a = path, c = full; break;
        }
        if (owned_before) { // as in again_cost
            c = table_keys() + (op.kind == K_UPD || op.kind == K_TUPD ? 2 : op.kind == K_UIE || op.kind == K_TUIE ? 1 : 0); // a new key, and what the function takes
            rv = 5;
        }
        cost::judge(op.kind * 8 + rv, knames[op.kind], rv == 5 ? " in place" : rv ? " of an r-value" : "", op.kind >= K_TRANS ? w.mt[op.d].n : w.mp[op.d].n, a, c);
    }
    // The same once more, in place: what it touches belongs to nobody else. Without reference counts only what
    // a transient has marked as its own is known to: one more level with every operation.
    static void again_cost(const mc::Op& op)
    {
        mc::Op o = op;
        o.a      = op.d;
        switch (op.kind) {
        case K_INS: case K_SET: case K_UPD: case K_UIE: case K_ERASE:
            if (MC_NO_RVALUES)
                return;
            o.b = 1;
            break;
        case K_TINS: case K_TSET: case K_TUPD: case K_TUIE: case K_TERASE: o.a = op.a; break;
        default: return;
        }
        for (int i = policy_is_gc ? cost::depth : 0; i >= 0; --i) {
            mc::begin_step();
            cost::start(cost::depth);
            ::apply(o);
            cost::stop();
            moved_by(o, false);
        }
        // the function of update gets a copy when it is given an r-value
        cost::judge(op.kind * 8 + 4, knames[op.kind], " in place, again,", op.kind >= K_TRANS ? w.mt[op.d].n : w.mp[op.d].n, 0, table_keys() + (op.kind == K_UPD || op.kind == K_UIE || op.kind == K_TUPD || op.kind == K_TUIE ? 1 : 0));
    }
    void done() override
    {
        if (o_cost == 2)
            cost::dump(knames, K_COUNT), cost::dump_calls(K_COUNT);
    }
    void check() override { check_all(); }
    // looking up, comparing and telling apart use the structure: what is shared is not looked at (C20)
    template <class X>
    static void lookup_cost(const X& v, const M&)
    {
        for (int k = 0; k < NK; ++k) {
            int same = 0;
            for (int i = 0; i < NK; ++i)
                same += w.h[i] == w.h[k];
            Key key(key_word(k));
            cost::start(0);
            v.count(key);
            cost::judge_calls(K_COUNT * 8, "count", NK, same + 1);
            cost::start(0);
            v.find(key);
            cost::judge_calls(K_COUNT * 8 + 1, "find", NK, same + 1);
        }
    }
    static void pair_cost(const V& x, const V& y, const char* what, int n, int eq, int diff)
    {
        cost::start(0);
        volatile bool e = x == y;
        (void) e;
        cost::judge_calls(K_COUNT * 8 + 2 + (eq > 0), what, n, eq);
        cost::start(0);
        immer::diff(x, y, [](const VT&) {}, [](const VT&) {}, [](const VT&, const VT&) {});
        cost::judge_calls(K_COUNT * 8 + 4 + (diff > 0), what, n, diff);
    }
    static void bat_cost()
    {
        int keys[NK];
        int nk = op_keys(keys);
        for (int i = 0; i < o_np; ++i) {
            if (w.mp[i].st)
                continue;
            const V& x = *w.p[i];
            lookup_cost(x, w.mp[i]);
            V y        = x;
            pair_cost(x, y, "telling a value from its copy", w.mp[i].n, 0, 0);
            const int d = deepest() + 1, c = collisions(), eq = (1 << B) * d + c * c + 1, df = 2 * eq;
            for (int q = 0; q < nk; ++q) {
                V z = w.mp[i].v[keys[q]] ? x.erase(Key(key_word(keys[q]))) : x.insert(make(keys[q], TAG_VAL | 0xfffff1));
                pair_cost(x, z, "telling a value from one with an element more or less", w.mp[i].n, eq, df);
                pair_cost(z, x, "telling a value from one with an element more or less", w.mp[i].n, eq, df);
#if MC_KIND
                if (w.mp[i].v[keys[q]]) {
                    V u = x.insert(make(keys[q], TAG_VAL | 0xfffff2));
                    pair_cost(x, u, "telling a value from one with an element changed", w.mp[i].n, eq, df);
                    u = x.insert(make(keys[q], w.mp[i].v[keys[q]]));
                    pair_cost(u, x, "telling a value from one with an element replaced", w.mp[i].n, eq, df);
                }
#endif
            }
        }
        for (int i = 0; i < o_nt; ++i)
            if (!w.mt[i].st)
                lookup_cost(std::as_const(*w.t[i]), w.mt[i]);
    }
    void battery() override
    {
        if (o_bat & BAT_COST)
            bat_cost();
        for (int i = 0; i < o_np; ++i)
            if (!w.mp[i].st)
                bat_one(std::as_const(*w.p[i]), w.mp[i]);
        for (int i = 0; i < o_nt; ++i)
            if (!w.mt[i].st)
                bat_one(std::as_const(*w.t[i]), w.mt[i]);
        if (o_bat & (BAT_EQ | BAT_DIFF))
            bat_pairs();
    }
    void teardown() override
    {
        for (int i = 0; i < NP; ++i) {
            if (w.mp[i].st)
                *w.p[i] = V{};
            (*w.p[i]).~V();
        }
        for (int i = 0; i < NT; ++i) {
            if (w.mt[i].st)
                *w.t[i] = T{};
            (*w.t[i]).~T();
        }
    }
    int roots(mc::Range* r, int) override
    {
        r[0] = {w.p, sizeof w.p};
        r[1] = {w.t, sizeof w.t};
        r[2] = {w.pst, sizeof w.pst + sizeof w.tst};
        r[3] = {w.h, sizeof w.h};
        return 4;
    }
    void describe(const mc::Op& op, char* buf, int n) override
    {
        snprintf(buf, n, "%s d=%d a=%d %s key=%d%s", knames[op.kind] ? knames[op.kind] : "?", op.d, op.a, op.b & 1 ? "r-value" : "l-value", op.x,
                 op.y ? " same value as the other variable" : "");
    }
    void after_fault(const mc::Op& op) override { moved_by(op, true); }
};

int main(int argc, char** argv)
{
    init_names();
    static H h;
    mc::explore_args(argc, argv);
    o_fam   = mc::opt("fam", 0);
    o_nmin  = mc::opt("nmin", 0);
    o_nmax  = mc::opt("nmax", NK);
    o_nstep = mc::opt("nstep", 1);
    o_vars  = mc::opt("vars", 1);
    o_mask  = mc::opt("mask", 31);
    o_bat   = mc::opt("bat", 0);
    o_keys  = mc::opt("keys", 0);
    o_np    = mc::opt("np", 2);
    o_nt    = mc::opt("nt", 2);
    o_self  = mc::opt("self", 1);
    o_s0    = mc::opt("s0", 0);
    o_s1    = mc::opt("s1", n_schemes);
    o_pat   = mc::opt("pat", 4);
    o_m0    = mc::opt("m0", 2);
    o_cap   = mc::opt("maxn", NK);
    o_cost  = mc::opt("cost", 0);
    return mc::explore_main(argc, argv, h);
}
