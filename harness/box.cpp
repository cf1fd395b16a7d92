// box: histories of construction, copies, moves, assignments, updates and comparisons.
#include "common.hpp"
#include <immer/box.hpp>
#ifndef MC_KIND
#define MC_KIND 0
#endif

// what the boxes hold: a plain value, a value made of two, or another box
constexpr int NV = 3;
static u64 word(int v) { return TAG_KEY | (u64) (v + 1); }
static int back(u64 x)
{
    int v = (int) (x & 0xffff) - 1;
    return (x >> 48) == (TAG_KEY >> 48) && v >= 0 && v < NV ? v : -1;
}

struct Two
{
    Elem a;
    Elem b;
    Two()
        : a{word(0)}
        , b{word(0)}
    {}
    Two(u64 x, u64 y)
        : a{x}
        , b{y}
    {}
    friend bool operator==(const Two& x, const Two& y) { return x.a == y.a && x.b == y.b; }
    friend bool operator!=(const Two& x, const Two& y) { return !(x == y); }
};
static bool operator<(const Elem& a, const Elem& b) { return val_of(a) < val_of(b); }
static bool operator<(const Two& a, const Two& b) { return a.a < b.a || (a.a == b.a && a.b < b.b); }

struct One : Elem
{
    One()
        : Elem{word(0)}
    {}
    explicit One(u64 x)
        : Elem{x}
    {}
};
#if MC_KIND == 0
using X = One;
static X make_x(int v) { return X{word(v)}; }
static int x_of(const X& x) { return back(val_of(x)); }
#elif MC_KIND == 1
using X = Two;
static X make_x(int v) { return X{word(v), word((v + 1) % NV)}; }
static int x_of(const X& x)
{
    int a = back(val_of(x.a)), b = back(val_of(x.b));
    return a == 0 && b == 0 ? 0 : a >= 0 && b == (a + 1) % NV ? a : -1; // what is made by default is 0, 0
}
#elif MC_KIND == 3
// a list: a value and maybe a box with the rest
struct Rec
{
    using Box = immer::box<Rec, Policy>;
    Elem a;
    bool has = false;
    alignas(8) unsigned char mem[sizeof(void*)];
    Rec()
        : a{word(0)}
    {}
    explicit Rec(u64 x)
        : a{x}
    {}
    Rec(u64 x, const Box& n);
    Rec(const Rec& o);
    Rec(Rec&& o) noexcept(noexcept(Elem(std::declval<Elem>())));
    Rec& operator=(Rec&& o);
    ~Rec();
    Box& next() { return *std::launder(reinterpret_cast<Box*>(mem)); }
    const Box& next() const { return *std::launder(reinterpret_cast<const Box*>(mem)); }
};
using X = Rec;
static int rec_len(int v) { return v < 2 ? 1 : v < 6 ? 2 : 3; }
// the code of the list that has head x before the list of code v
static int rec_cons(int x, int v) { return v < 2 ? 2 + 2 * x + v : 6 + 4 * x + v - 2; }
static int rec_tail(int v) { return v < 6 ? (v - 2) & 1 : 2 + ((v - 6) & 3); }
static X make_x(int v) { return X{word(v)}; }
static int x_of(const X& x);
static bool operator==(const Rec& x, const Rec& y) { return x_of(x) == x_of(y); }
static bool operator!=(const Rec& x, const Rec& y) { return !(x == y); }
static bool operator<(const Rec& x, const Rec& y) { return x_of(x) < x_of(y); }
#else
using X = immer::box<One, Policy>;
static X make_x(int v) { return X{One{word(v)}}; }
static int x_of(const X& x) { return back(val_of(x.get())); }
#endif
#if MC_KIND == 3
Rec::Rec(u64 x, const Box& n)
    : a{x}
    , has{true}
{
    new (mem) Box(n);
}
Rec::Rec(const Rec& o)
    : a{o.a}
    , has{o.has}
{
    if (has)
        new (mem) Box(o.next());
}
Rec::Rec(Rec&& o) noexcept(noexcept(Elem(std::declval<Elem>())))
    : a{std::move(o.a)}
    , has{o.has}
{
    if (has)
        new (mem) Box(o.next());
}
Rec& Rec::operator=(Rec&& o)
{
    a = std::move(o.a);
    if (has && o.has) {
        next() = o.next();
    } else if (has) {
        has = false;
        next().~Box();
    } else if (o.has) {
        new (mem) Box(o.next());
        has = true;
    }
    return *this;
}
Rec::~Rec()
{
    if (has)
        next().~Box();
}
static int x_of(const X& x)
{
    int h = back(val_of(x.a));
    if (!x.has || h < 0)
        return h;
    int t = x_of(x.next().get());
    return t < 0 || t >= 6 ? -1 : rec_cons(h, t);
}
static int succ(int v) { return (v + 1) % 2; }
#else
static int succ(int v) { return (v + 1) % NV; }
#endif
namespace std {
#if MC_KIND == 3
template <>
struct hash<Rec>
{
    size_t operator()(const Rec& e) const { return x_of(e) * 31 + 7; }
};
#endif
template <>
struct hash<One>
{
    size_t operator()(const One& e) const { return val_of(e) * 31 + 7; }
};
template <>
struct hash<Two>
{
    size_t operator()(const Two& e) const { return val_of(e.a) * 31 + val_of(e.b); }
};
} // namespace std

using B = immer::box<X, Policy>;

constexpr int NP = 4;
struct Slot
{
    alignas(16) unsigned char mem[(sizeof(B) + 15) & ~15ull];
    B& operator*() { return *std::launder(reinterpret_cast<B*>(mem)); }
};
struct World
{
    Slot p[NP];
    int st[NP];  // 1: moved-from
    int v[NP];
};
static World w;
static long o_np, o_len;

enum { K_DFLT = 1, K_VALUE, K_VALUEL, K_TWO, K_COPYC, K_MOVEC, K_COPYA, K_MOVEA, K_SWAP, K_UPDL, K_UPDR, K_UPDREF, K_FROMREF, K_NEST, K_LINK, K_NEXT, K_COUNT };
static const char* names[] = {"?", "default", "assign-value", "from-lvalue", "two-args", "copy-construct", "move-construct", "copy-assign", "move-assign", "swap", "update", "update-rvalue", "update-by-reference", "assign-get", "update-nested", "cons", "assign-tail"};

struct Inc
{
    int expect;
    int result;
    int* calls;
    template <class Y>
    X operator()(Y&& y) const
    {
        ++*calls;
        MC_EXPECT(x_of(y) == expect, "update function called with value %d, the box holds %d", x_of(y), expect);
        mc::fault_point(fk::fn);
        X taken(std::forward<Y>(y)); // functions may take the value by value
        MC_EXPECT(x_of(taken) == expect, "update function took value %d", x_of(taken));
        return make_x(result);
    }
};

struct Cost
{
    u64 a, c, m;
    Cost()
        : a{mc::alloc_count()}
        , c{mc::counters().copies}
        , m{mc::counters().moves}
    {}
    void nothing(const char* what) const
    {
        if (mc::alloc_count() != a || mc::counters().copies != c || mc::counters().moves != m)
            mc::violation(vk::cost, "%s of a box made %d allocations, %d copies and %d moves of boxed values", what, (int) (mc::alloc_count() - a),
                          (int) (mc::counters().copies - c), (int) (mc::counters().moves - m));
    }
};

static void set(int d, int v)
{
    w.v[d]  = v;
    w.st[d] = 0;
}
static void gone(int a)
{
    w.v[a]  = -1;
    w.st[a] = 1;
}

struct H : mc::Harness
{
    int num_seeds() override { return 1; }
    void seed(int) override
    {
        for (int i = 0; i < NP; ++i) {
            new (w.p[i].mem) B{};
            set(i, 0);
        }
    }
    void describe_seed(int, char* buf, int n) override { snprintf(buf, n, "boxes made by default"); }
    int ops(mc::Op* out, int, int) override
    {
        int n     = 0;
        auto emit = [&](int k, int d, int a, int x) { out[n++] = {(mc::u8) k, (mc::u8) d, (mc::u8) a, 0, x, 0}; };
        for (int d = 0; d < o_np; ++d) {
            emit(K_DFLT, d, 0, 0);
            for (int x = 0; x < (MC_KIND == 3 ? 2 : NV); ++x) {
                emit(K_VALUE, d, 0, x);
                if (x == 1) {
                    emit(K_VALUEL, d, 0, x);
                    if (MC_KIND == 1)
                        emit(K_TWO, d, 0, x);
                }
            }
            for (int a = 0; a < o_np; ++a) {
                emit(K_SWAP, d, a, 0);
                emit(K_MOVEA, d, a, 0); // also of what was moved from
                if (a != d)
                    emit(K_MOVEC, d, a, 0);
                if (w.st[a])
                    continue;
                emit(K_COPYA, d, a, 0);
                if (a != d)
                    emit(K_COPYC, d, a, 0);
                emit(K_UPDL, d, a, 0);
                emit(K_UPDR, d, a, 0);
                emit(K_UPDREF, d, a, 0);
                emit(K_FROMREF, d, a, 0);
#if MC_KIND == 3
                if (rec_len(w.v[a]) < o_len) {
                    emit(K_LINK, d, a, 0);
                    emit(K_LINK, d, a, 1);
                }
                if (rec_len(w.v[a]) > 1)
                    emit(K_NEXT, d, a, 0); // d and a may be the same box
#endif
                if (MC_KIND == 2)
                    emit(K_NEST, d, a, 0);
            }
        }
        return n;
    }
    void apply(const mc::Op& op) override
    {
        const int d = op.d, a = op.a, x = op.x;
        const int va = w.v[a], sa = w.st[a];
        int calls = 0;
        switch (op.kind) {
        case K_DFLT:
            *w.p[d] = B{};
            set(d, 0);
            break;
        case K_VALUE:
            *w.p[d] = make_x(x);
            set(d, x);
            break;
        case K_VALUEL: {
            const X l = make_x(x);
            *w.p[d] = B{l};
            MC_EXPECT(x_of(l) == x, "making a box from an l-value changed it");
            set(d, x);
            break;
        }
#if MC_KIND == 1
        case K_TWO:
            *w.p[d] = B{word(x), word((x + 1) % NV)};
            set(d, x);
            break;
#endif
        case K_COPYC: {
            (*w.p[d]).~B();
            Cost c;
            new (w.p[d].mem) B(std::as_const(*w.p[a]));
            c.nothing("copy");
            set(d, va);
            break;
        }
        case K_MOVEC: {
            (*w.p[d]).~B();
            Cost c;
            new (w.p[d].mem) B(std::move(*w.p[a]));
            c.nothing("move");
            sa ? gone(d) : set(d, va);
            gone(a);
            break;
        }
        case K_COPYA: {
            Cost c;
            *w.p[d] = std::as_const(*w.p[a]);
            c.nothing("copy assignment");
            set(d, va);
            break;
        }
        case K_MOVEA: {
            Cost c;
            *w.p[d] = std::move(*w.p[a]);
            c.nothing("move assignment");
            if (a != d) {
                sa ? gone(d) : set(d, va);
                gone(a);
            }
            break;
        }
        case K_SWAP: {
            Cost c;
            swap(*w.p[d], *w.p[a]);
            c.nothing("swap");
            const int vd = w.v[d], sd = w.st[d];
            sa ? gone(d) : set(d, va);
            sd ? gone(a) : set(a, vd);
            break;
        }
        case K_UPDL:
            *w.p[d] = std::as_const(*w.p[a]).update(Inc{va, succ(va), &calls});
            set(d, succ(va));
            MC_EXPECT(calls == 1, "update called its function %d times", calls);
            break;
        case K_UPDR:
            *w.p[d] = std::move(*w.p[a]).update(Inc{va, succ(va), &calls});
            if (a != d)
                gone(a);
            set(d, succ(va));
            MC_EXPECT(calls == 1, "update called its function %d times", calls);
            break;
        case K_UPDREF: // the function returns what it was given
            *w.p[d] = std::as_const(*w.p[a]).update([](const X& e) -> const X& { return e; });
            set(d, va);
            break;
        case K_FROMREF:
            *w.p[d] = (*w.p[a]).get();
            set(d, va);
            break;
#if MC_KIND == 3
        case K_LINK:
            *w.p[d] = B{word(x), std::as_const(*w.p[a])};
            set(d, rec_cons(x, va));
            break;
        case K_NEXT: {
            Cost c;
            *w.p[d] = std::as_const(*w.p[a]).get().next();
            c.nothing("copy assignment");
            set(d, rec_tail(va));
            break;
        }
#endif
#if MC_KIND == 2
        case K_NEST: // changes the box in the box, in place where it can
            *w.p[d] = std::move(*w.p[a]).update([&](auto&& in) {
                return X(std::forward<decltype(in)>(in).update([&](auto&&) { return One{word(succ(va))}; }));
            });
            if (a != d)
                gone(a);
            set(d, succ(va));
            break;
#endif
        }
    }
    void after_fault(const mc::Op& op) override
    {
        if (op.kind == K_UPDR || op.kind == K_NEST)
            gone(op.a);
    }
    void check() override
    {
        for (int i = 0; i < NP; ++i)
            if (!w.st[i]) {
                const B& b = *w.p[i];
                MC_EXPECT(x_of(b.get()) == w.v[i], "box %d holds %d, expected %d", i, x_of(b.get()), w.v[i]);
                MC_EXPECT(&*b == &b.get() && b.operator->() == &b.get() && &static_cast<const X&>(b) == &b.get(), "ways to look into box %d disagree", i);
            }
    }
    void battery() override
    {
        for (int i = 0; i < NP; ++i)
            for (int j = 0; j < NP; ++j) {
                if (w.st[i] || w.st[j])
                    continue;
                const B &a = *w.p[i], &b = *w.p[j];
                const X &x = a.get(), &y = b.get();
                bool e = x == y, l = x < y;
                MC_EXPECT((a == b) == e, "== of boxes %d and %d is not that of their values", i, j);
                MC_EXPECT((a != b) == !e, "!= of boxes %d and %d is not that of their values", i, j);
                MC_EXPECT((a < b) == l, "< of boxes %d and %d is not that of their values", i, j);
#if MC_KIND != 2
                MC_EXPECT((a == y) == e && (x == b) == e, "== of boxes and values %d and %d is not that of their values", i, j);
                MC_EXPECT((a != y) == !e && (x != b) == !e, "!= of boxes and values %d and %d is not that of their values", i, j);
                MC_EXPECT((a < y) == l && (x < b) == l, "< of boxes and values %d and %d is not that of their values", i, j);
#endif
                MC_EXPECT(std::hash<B>{}(a) == std::hash<X>{}(x), "hash of box %d is not that of its value", i);
            }
    }
    void teardown() override
    {
        for (int i = 0; i < NP; ++i)
            (*w.p[i]).~B();
    }
    int roots(mc::Range* r, int) override
    {
        r[0] = {w.p, sizeof w.p};
        r[1] = {w.st, sizeof w.st};
        return 2;
    }
    void describe(const mc::Op& op, char* buf, int n) override { snprintf(buf, n, "%s d=%d a=%d x=%d", names[op.kind], op.d, op.a, op.x); }
};

int main(int argc, char** argv)
{
    static H h;
    mc::explore_args(argc, argv);
    o_np  = mc::opt("np", NP);
    o_len = mc::opt("len", 3);
    return mc::explore_main(argc, argv, h);
}
