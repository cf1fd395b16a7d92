from .table import *

S = "seed"
NDEBUG = ("-DNDEBUG",)
# more than six levels: the narrowest vectors reach them with 130 elements, the narrowest flex_vectors with 4097
TALL_V = dict(bb=1, bl=1, extra=("-DMC_MAXN=1300",))
TALL_F = dict(bb=2, bl=0, extra=("-DMC_MAXN=10000",))
GEO_V = [(1, 1), (2, 0), (2, 2), (3, 1), (1, 2)]
GEO_F = [(2, 0), (2, 2), (3, 1), (2, 3)]


@prop("C01")
def c01(deep):
    r = []
    fx = dict(fix=1, nmax=0, vars=1, leak=0, anon=1)
    r.append(run("fixpoint: every vector up to %d elements, B2L1" % (60 if deep else 40), seq(VEC), 1, "op", mask=BASIC, np=1, nt=0, maxn=60 if deep else 40, bat=B_BASIC, **fx))
    r.append(run("fixpoint: two vectors sharing structure, B2L1", seq(VEC), 1, "op", mask=BASIC | ASSIGN, np=2, nt=0, maxn=9 if deep else 7, **fx))
    r.append(run("fixpoint: every vector, B1L1", seq(VEC, bb=1, bl=1), 1, "op", mask=BASIC, np=1, nt=0, maxn=40, **fx))
    m1 = BASIC | UPD | ASSIGN
    n = 75 if deep else 44
    v = seq(VEC)
    r.append(run("B2L1 every size and index, 1 step", v, 2, S, nmax=n, vars=3, mask=m1 | CTOR | OVER, depth=1, leak=0, bat=B_BASIC))
    r.append(run("B2L1 every size, 2 steps", v, 6, S, nmax=n, vars=1, mask=m1 | OVER, depth=2, leak=0, dens0=0 if deep else 6, dens1=8 if deep else 4))
    r.append(run("B2L1 3 steps", v, 8, S, nmax=36 if deep else 22, vars=1, mask=BASIC | ASSIGN, depth=3, leak=0, dens0=5 if deep else 3))
    r.append(run("B2L1 from small, long histories", v, 8, "op", nmax=2, vars=1, mask=BASIC, depth=8 if deep else 6, leak=0, dens0=2))
    for b, l in GEO_V:
        x = seq(VEC, bb=b, bl=l, extra=("-DMC_MAXN=400",) + (NDEBUG if (b, l) == (2, 2) else ()))
        r.append(run("B%dL%d every size, 1 step" % (b, l), x, 1, S, nmax=150 if deep else 70, vars=3, mask=m1 | CTOR | OVER, depth=1, leak=0, dens0=0 if deep else 12, bat=B_BASIC))
        r.append(run("B%dL%d 2 steps" % (b, l), x, 2, S, nmax=40 if deep else 24, vars=1, mask=m1, depth=2, leak=0, dens0=6 if deep else 3))
    for p in (1, 2, 3, 4, 5, 8):
        r.append(run("policy %d, 2 steps" % p, seq(VEC, policy=p, elem=p % 2), 2, S, nmax=30, vars=3, mask=m1 | OVER, depth=2, leak=0, dens0=6 if deep else 3))
    x = seq(VEC, **TALL_V)
    r.append(run("tall, B1L1, every size, 1 step", x, 4, S, nmin=100, nmax=600 if deep else 300, vars=1, mask=m1 | OVER, depth=1, leak=0, dens0=16 if deep else 12, bat=B_BASIC | B_ITER))
    r.append(run("tall, B1L1, around a new level, 2 steps", x, 4, S, nmin=124, nmax=136, vars=3, mask=m1, depth=2, leak=0, dens0=8 if deep else 3))
    r.append(run("tall, B1L1, around the next one, 2 steps", x, 4, S, nmin=254, nmax=262, vars=3, mask=m1, depth=2, leak=0, dens0=6 if deep else 2))
    r.append(run("tall, B2L1, 1 step", seq(VEC, extra=("-DMC_MAXN=17000",)), 2, S, nmin=8184, nmax=8204, nstep=1 if deep else 4, vars=1, mask=m1, depth=1, leak=0, dens0=8 if deep else 4, bat=B_BASIC))
    # the default branching: 32 children, leaves sized after the element
    x = seq(VEC, policy=8, elem=0, bb=5, bl=5, extra=("-DMC_MAXN=2300",))
    r.append(run("B5L5 around 32 and 1024", x, 2, S, nmin=1020, nmax=1060, vars=1, mask=m1 | OVER, depth=2 if deep else 1, leak=0, dens0=12))
    r.append(run("B5L5 small", x, 1, S, nmin=0, nmax=100, nstep=3, vars=1, mask=m1, depth=1, leak=0, dens0=12))
    return r


@prop("C02")
def c02(deep):
    r = []
    fx = dict(fix=1, nmax=0, vars=1, leak=0, anon=1)
    r.append(run("fixpoint: every flex_vector up to %d elements, B2L1" % (11 if deep else 9), seq(FLX), 1, "op", mask=BASIC | FLEX | CAT, np=1, nt=0, maxn=11 if deep else 9, **fx))
    r.append(run("fixpoint: every flex_vector up to %d elements, B2L0" % (9 if deep else 7), seq(FLX, bl=0), 1, "op", mask=BASIC | FLEX | CAT, np=1, nt=0, maxn=9 if deep else 7, **fx))
    r.append(run("fixpoint: two flex_vectors sharing structure, B2L1", seq(FLX), 1, "op", mask=BASIC | FLEX | CAT, np=2, nt=0, maxn=4, **fx))
    f = seq(FLX)
    m1 = BASIC | UPD | FLEX | ERASER | INSV | CAT | OVER
    m2 = BASIC | FLEX | CAT
    r.append(run("B2L1 every size and index, 1 step", f, 4, S, nmax=44 if deep else 26, vars=1, mask=m1 | CTOR | ASSIGN, depth=1, leak=0))
    r.append(run("B2L1 64 relaxed shapes, every index, 1 step", f, 8, S, fam=2, vars=1, mask=m1, depth=1, leak=0, dens0=0 if deep else 14))
    r.append(run("B2L1 relaxed shapes x sizes, 1 step", f, 8, S, fam=3, m0=0, m1=20 if deep else 6, vars=2, mask=CAT | INSV, depth=1, leak=0, dens0=6))
    r.append(run("B2L1 pairs of relaxed shapes, concatenation", f, 8, S, fam=4, nmin=0, nmax=63, vars=2, mask=CAT | FLEX | BASIC if deep else CAT | BASIC, depth=1, leak=0, dens0=3))
    r.append(run("B2L1 pairs of sizes, concatenation", f, 4, S, fam=1, nmin=0, nmax=44 if deep else 34, m0=0, m1=70 if deep else 34, vars=2, mask=CAT, depth=1, leak=0))
    r.append(run("B2L1 pairs of sizes, concatenation then everything", f, 8, S, fam=1, nmin=0, nmax=26, nstep=1 if deep else 3, m0=1, m1=26 if deep else 12, vars=2, mask=m2, depth=2, leak=0, dens0=2))
    r.append(run("B2L1 relaxed shapes, 2 steps", f, 16, S, fam=2, vars=1, mask=m2, depth=2, leak=0, dens0=8 if deep else 4, dens1=6 if deep else 4))
    r.append(run("B2L1 small, 3 steps", f, 16, S, nmax=12, vars=1, mask=m2, depth=3, leak=0, dens0=4 if deep else 2))
    r.append(run("B2L1 pairs of relaxed shapes, concatenate twice", f, 8, S, fam=4, nmin=0, nmax=63 if deep else 24, vars=2, mask=CAT, depth=3, leak=0))
    for b, l in GEO_F:
        x = seq(FLX, bb=b, bl=l, extra=("-DMC_MAXN=600",) + (NDEBUG if (b, l) == (2, 2) else ()))
        r.append(run("B%dL%d relaxed shapes, 1 step" % (b, l), x, 2, S, fam=2, vars=3, mask=m1, depth=1, leak=0, dens0=16 if deep else 8))
        r.append(run("B%dL%d relaxed shapes, 2 steps" % (b, l), x, 4, S, fam=2, vars=1, mask=m2, depth=2, leak=0, dens0=5 if deep else 2))
        r.append(run("B%dL%d relaxed pairs" % (b, l), x, 2, S, fam=4, nmin=0, nmax=63 if deep else 30, vars=2, mask=CAT, depth=1, leak=0))
    for p in (1, 2, 3, 4, 5, 8):
        r.append(run("policy %d, relaxed, 1 step" % p, seq(FLX, policy=p, elem=p % 2), 1, S, fam=2, vars=3, mask=m1, depth=1, leak=0, dens0=5))
    x = seq(FLX, **TALL_F)
    r.append(run("tall, B2L0, 1 step", x, 4, S, fam=1, nmin=4088, nmax=4104, nstep=1 if deep else 4, m0=0, m1=5 if deep else 3, vars=2, mask=m2 | OVER, depth=1, leak=0, dens0=8 if deep else 4, bat=B_BASIC))
    r.append(run("tall, B2L0, concatenated halves, 2 steps", x, 4, S, fam=1, nmin=2040, nmax=2060, nstep=5 if deep else 20, m0=2044, m1=2056 if deep else 2050, vars=2, mask=m2, depth=2, leak=0, dens0=2 if deep else 1, bat=B_BASIC))
    x = seq(FLX, policy=8, elem=0, bb=5, bl=5, extra=("-DMC_MAXN=4800",))
    r.append(run("B5L5 around 1024", x, 2, S, fam=1, nmin=1020, nmax=1060, nstep=4, m0=1, m1=2 if not deep else 34, vars=2, mask=m2 | OVER, depth=1, leak=0, dens0=8))
    r.append(run("B5L5 relaxed", x, 4, S, fam=2, vars=1, mask=m2, depth=1, leak=0, dens0=8))
    return r


@prop("C03")
def c03(deep):
    r = []
    r.append(run("fixpoint: two arrays and a transient", seq(ARR), 1, "op", fix=1, nmax=0, vars=1, leak=0, anon=1, mask=BASIC | FLEX | CAT | RV, np=2, nt=1, maxn=3))
    m = BASIC | UPD | ASSIGN
    t = TCREATE | TOPS | TCOPY
    for p, e in ((0, 1), (0, 0), (0, 3), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (5, 0), (8, 1)):
        x = seq(ARR, policy=p, elem=e)
        r.append(run("policy %d elem %d, every size, 2 steps" % (p, e), x, 2, S, nmax=20 if deep else 9, vars=3, mask=m | CTOR | RV | OVER, depth=2, leak=0, bat=B_BASIC, self=3))
        r.append(run("policy %d elem %d, transients" % (p, e), x, 2, S, nmax=12 if deep else 6, vars=60, mask=t | BASIC | RV, depth=2, leak=0, bat=B_BASIC, dens0=0 if deep else 3))
    r.append(run("small, 4 steps", seq(ARR), 8, "op", nmax=4, vars=1, mask=BASIC | ASSIGN | RV | OVER, depth=5 if deep else 4, leak=0, dens0=2))
    r.append(run("small with transients, 4 steps", seq(ARR), 8, "op", nmin=1, nmax=4, vars=1, mask=BASIC | TCREATE | TOPS, depth=5 if deep else 4, leak=0, dens0=1, np=2, nt=1))
    r.append(run("ndebug", seq(ARR, extra=NDEBUG), 1, S, nmax=9, vars=3, mask=m | RV | OVER, depth=2, leak=0, bat=B_BASIC))
    return r


@prop("C07")
def c07(deep):
    r = []
    fx = dict(fix=1, nmax=0, vars=1, leak=0, anon=1)
    r.append(run("fixpoint: a vector and a transient", seq(VEC), 1, "op", mask=127, np=1, nt=1, maxn=8 if deep else 7, **fx))
    r.append(run("fixpoint: a flex_vector and a transient", seq(FLX), 1, "op", mask=127, np=1, nt=1, maxn=3, **fx))
    t = TCREATE | TOPS | TCOPY
    for p in (0, 2):
        v = seq(VEC, policy=p)
        f = seq(FLX, policy=p)
        r.append(run("vector policy %d, every size, 2 steps" % p, v, 4, S, nmax=40 if deep else 24, vars=60, mask=t | UPD | BASIC, depth=2, leak=0, dens0=6 if deep else 3, np=1))
        r.append(run("vector policy %d, 3 steps" % p, v, 4, S, nmax=20, nstep=1 if deep else 3, vars=60, mask=t, depth=3, leak=0, dens0=2, np=1))
        r.append(run("flex policy %d, every size, 2 steps" % p, f, 6, S, nmax=30 if deep else 20, vars=60, mask=t | TCAT | BASIC | FLEX, depth=2, leak=0, dens0=4 if deep else 2, np=1))
        r.append(run("flex policy %d, relaxed shapes, 2 steps" % p, f, 8, S, fam=3, m0=3, m1=11, vars=60 - 16 if deep else 12, mask=t | TCAT, depth=2, leak=0, dens0=3 if deep else 2, np=1))
        r.append(run("flex policy %d, relaxed pairs, 1 step" % p, f, 4, S, fam=4, nmin=0, nmax=63, vars=12, mask=TOPS | TCAT | TCREATE, depth=1, leak=0, dens0=3))
        r.append(run("flex policy %d, pairs of sizes, append and prepend" % p, f, 4, S, fam=1, nmin=0, nmax=30, m0=0, m1=40 if deep else 22, vars=12, mask=TCAT, depth=2, leak=0))
        r.append(run("flex policy %d, 3 steps" % p, f, 8, S, nmax=14, nstep=1 if deep else 2, vars=60, mask=TCREATE | TOPS | TCAT, depth=3, leak=0, dens0=2 if deep else 1, np=1))
    r.append(run("tall vector, B1L1, 2 steps", seq(VEC, **TALL_V), 4, S, nmin=120, nmax=140, vars=60, mask=t | UPD | BASIC, depth=2, leak=0, dens0=4 if deep else 2, np=1))
    r.append(run("tall flex, B2L0, 1 step", seq(FLX, **TALL_F), 4, S, fam=1, nmin=4092, nmax=4100, nstep=1 if deep else 4, m0=0, m1=3, vars=12, mask=t | TCAT, depth=1, leak=0, dens0=4, np=1))
    for p, b, l in ((1, 2, 0), (3, 2, 2), (0, 3, 1), (2, 2, 0), (4, 2, 2), (6, 2, 1)):
        x = seq(FLX, policy=p, bb=b, bl=l, extra=("-DMC_MAXN=600",))
        r.append(run("flex policy %d B%dL%d, relaxed, 1 step" % (p, b, l), x, 2, S, fam=2, vars=60, mask=t | TCAT, depth=1, leak=0, dens0=8))
        r.append(run("flex policy %d B%dL%d, sizes, 2 steps" % (p, b, l), x, 2, S, nmax=40, nstep=1 if deep else 3, vars=60, mask=t | TCAT, depth=2, leak=0, dens0=2, np=1))
    return r


@prop("C09")
def c09(deep):
    r = []
    fx = dict(fix=1, nmax=0, vars=1, leak=0, anon=1)
    r.append(run("fixpoint: two flex_vectors", seq(FLX), 1, "op", mask=BASIC | FLEX | CAT | RV, np=2, nt=0, maxn=3, **fx))
    r.append(run("fixpoint: two vectors", seq(VEC), 1, "op", mask=BASIC | RV | ASSIGN, np=2, nt=0, maxn=8 if deep else 6, **fx))
    f = seq(FLX)
    v = seq(VEC)
    a = seq(ARR)
    mv = BASIC | UPD | RV | ASSIGN
    mf = BASIC | FLEX | CAT | RV | ASSIGN | ERASER | INSV
    r.append(run("vector, every size and index, 1 step", v, 2, S, nmax=44, vars=3, mask=mv | CTOR | TCREATE, depth=1, leak=0, self=3))
    r.append(run("vector, 2 steps", v, 4, S, nmax=44 if deep else 24, vars=3, mask=mv, depth=2, leak=0, self=3, dens0=5 if deep else 3))
    r.append(run("vector, 3 steps", v, 4, S, nmax=20, nstep=1 if deep else 3, vars=3, mask=BASIC | RV | ASSIGN, depth=3, leak=0, self=1, dens0=2))
    r.append(run("flex, every size and index, 1 step", f, 4, S, nmax=26, vars=3, mask=mf | CTOR | TCREATE, depth=1, leak=0, self=3, dens0=0 if deep else 12))
    r.append(run("flex, relaxed shapes, 1 step", f, 6, S, fam=2, vars=3, mask=mf, depth=1, leak=0, self=3, dens0=0 if deep else 10))
    r.append(run("flex, relaxed pairs, moved concatenation", f, 6, S, fam=4, nmin=0, nmax=63, vars=3, mask=CAT | RV, depth=1, leak=0, self=3, np=3))
    r.append(run("flex, pairs of sizes, moved concatenation", f, 4, S, fam=1, nmin=0, nmax=34, m0=0, m1=40 if deep else 26, vars=3, mask=CAT | RV, depth=1, leak=0, self=3, np=3))
    r.append(run("flex, relaxed shapes, 2 steps", f, 8, S, fam=2, vars=3, mask=BASIC | FLEX | CAT | RV, depth=2, leak=0, dens0=4 if deep else 2))
    r.append(run("flex, pairs, moved concatenation, 2 steps", f, 8, S, fam=3, m0=1, m1=23, vars=3 if deep else 2, mask=CAT | RV | ASSIGN, depth=2, leak=0, np=3))
    r.append(run("tall vector, B1L1, 2 steps", seq(VEC, **TALL_V), 4, S, nmin=120, nmax=140, vars=3, mask=mv, depth=2, leak=0, self=3, dens0=4 if deep else 2))
    r.append(run("tall flex, B2L0, 1 step", seq(FLX, **TALL_F), 4, S, fam=1, nmin=4092, nmax=4100, nstep=1 if deep else 4, m0=0, m1=3, vars=3, mask=mf & ~INSV & ~ERASER, depth=1, leak=0, self=3, dens0=4))
    r.append(run("array, 2 steps", a, 2, S, nmax=9, vars=3, mask=mv | CTOR | OVER, depth=2, leak=0, self=3))
    r.append(run("array policy 5, 2 steps", seq(ARR, policy=5), 2, S, nmax=9, vars=3, mask=mv | CTOR | OVER, depth=2, leak=0, self=3))
    for p, b, l in ((1, 2, 0), (3, 2, 2), (0, 3, 1), (4, 2, 1), (2, 2, 1), (5, 2, 1)):
        x = seq(FLX, policy=p, bb=b, bl=l, extra=("-DMC_MAXN=600",))
        r.append(run("flex policy %d B%dL%d, relaxed, 1 step" % (p, b, l), x, 2, S, fam=2, vars=3, mask=mf | OVER, depth=1, leak=0, dens0=5, self=3))
        r.append(run("flex policy %d B%dL%d, sizes, 2 steps" % (p, b, l), x, 2, S, nmax=40, nstep=1 if deep else 4, vars=3, mask=mf & ~INSV & ~ERASER, depth=2, leak=0, dens0=2))
    return r


@prop("C14")
def c14(deep):
    r = []
    m = BASIC | FLEX | CAT
    f = seq(FLX)
    r.append(run("flex, relaxed shapes, 1 step", f, 16, S, fam=2, vars=1, mask=m | INSV, depth=1, leak=0, bat=B_EQ, dens0=8 if deep else 2))
    r.append(run("flex, sizes, 1 step", f, 8, S, nmax=40 if deep else 20, vars=1, mask=m, depth=1, leak=0, bat=B_EQ, dens0=8 if deep else 4))
    r.append(run("flex, relaxed pairs", f, 8, S, fam=4, nmin=0, nmax=63 if deep else 28, vars=2, mask=CAT, depth=1, leak=0, bat=B_EQ))
    r.append(run("flex, relaxed shapes, 2 steps", f, 8, S, fam=2, seedstep=1 if deep else 8, vars=1, mask=m, depth=2, leak=0, bat=B_EQ, dens0=2))
    r.append(run("vector, sizes, 2 steps", seq(VEC), 4, S, nmax=44 if deep else 26, vars=1, mask=BASIC, depth=2, leak=0, bat=B_EQ, dens0=4 if deep else 2))
    r.append(run("vector with transients", seq(VEC), 2, S, nmax=24, vars=12, mask=TOPS | TCREATE, depth=2, leak=0, bat=B_EQ, dens0=2))
    r.append(run("array, 2 steps", seq(ARR), 1, S, nmax=7, vars=1, mask=BASIC, depth=2, leak=0, bat=B_EQ))
    for p, b, l in ((1, 2, 0), (2, 2, 2), (0, 3, 1)):
        x = seq(FLX, policy=p, elem=b % 2, bb=b, bl=l, extra=("-DMC_MAXN=600",))
        r.append(run("flex policy %d B%dL%d, relaxed" % (p, b, l), x, 6, S, fam=2, vars=1, mask=m, depth=1, leak=0, bat=B_EQ, dens0=4 if deep else 1))
    return r


@prop("C15")
def c15(deep):
    r = []
    m = BASIC | FLEX | CAT
    bat = B_ITER | B_AT | B_ALGO | B_BASIC
    f = seq(FLX)
    r.append(run("flex, relaxed shapes, 1 step", f, 16, S, fam=2, vars=1, mask=m | INSV, depth=1, leak=0, bat=bat, dens0=0 if deep else 4))
    r.append(run("flex, sizes, 1 step", f, 8, S, nmax=60 if deep else 36, vars=1, mask=m, depth=1, leak=0, bat=bat, dens0=0 if deep else 5))
    r.append(run("flex, relaxed pairs", f, 8, S, fam=4, nmin=0, nmax=63 if deep else 40, vars=2, mask=CAT, depth=1, leak=0, bat=bat))
    r.append(run("flex, relaxed shapes, 2 steps", f, 8, S, fam=2, vars=1, mask=m, depth=2, leak=0, bat=bat, dens0=3 if deep else 1))
    r.append(run("vector, sizes, 2 steps", seq(VEC), 4, S, nmax=44 if deep else 30, vars=1, mask=BASIC, depth=2, leak=0, bat=bat, dens0=4 if deep else 2))
    r.append(run("transients", f, 4, S, nmax=36, vars=12, mask=TOPS | TCREATE | TCAT, depth=2 if deep else 1, leak=0, bat=bat, dens0=3))
    r.append(run("array, 2 steps", seq(ARR), 1, S, nmax=12, vars=1, mask=BASIC | TCREATE, depth=2, leak=0, bat=bat))
    for p, b, l in ((1, 2, 0), (2, 2, 2), (0, 3, 1), (8, 2, 3)):
        x = seq(FLX, policy=p, elem=b % 2, bb=b, bl=l, extra=("-DMC_MAXN=600",))
        r.append(run("flex policy %d B%dL%d, relaxed" % (p, b, l), x, 4, S, fam=2, vars=1, mask=m, depth=1, leak=0, bat=bat, dens0=8 if deep else 2))
    x = seq(FLX, policy=8, elem=0, bb=5, bl=5, extra=("-DMC_MAXN=4800",))
    r.append(run("flex B5L5, relaxed", x, 4, S, fam=2, vars=1, mask=CAT | FLEX, depth=1, leak=0, bat=bat, dens0=2))
    x = seq(VEC, policy=8, elem=0, bb=5, bl=5, extra=("-DMC_MAXN=2300",))
    r.append(run("vector B5L5", x, 1, S, nmin=1020, nmax=1060, nstep=3, vars=1, mask=BASIC, depth=1, leak=0, bat=bat, dens0=2))
    return r


def seq_memory(deep):
    r = []
    fx = dict(fix=1, nmax=0, vars=1, leak=1, anon=1)
    r.append(run("fixpoint: a vector and a transient", seq(VEC), 1, "op", mask=127, np=1, nt=1, maxn=7, **fx))
    r.append(run("fixpoint: a flex_vector and a transient", seq(FLX), 1, "op", mask=127, np=1, nt=1, maxn=3, **fx))
    r.append(run("fixpoint: two flex_vectors", seq(FLX), 1, "op", mask=BASIC | FLEX | CAT | RV, np=2, nt=0, maxn=3, **fx))
    r.append(run("fixpoint: two arrays and a transient", seq(ARR), 1, "op", mask=127, np=2, nt=1, maxn=3, **fx))
    every_f = BASIC | FLEX | CAT | RV | ASSIGN | TCREATE | TOPS | TCAT | TCOPY
    every_v = BASIC | RV | ASSIGN | TCREATE | TOPS | TCOPY
    f, v, a = seq(FLX), seq(VEC), seq(ARR)
    r.append(run("vector, every size, 1 step", v, 1, S, nmax=44, vars=63, mask=every_v | UPD | CTOR, depth=1, self=3))
    r.append(run("vector, 2 steps", v, 4, S, nmax=36 if deep else 22, vars=63, mask=every_v, depth=2, dens0=3 if deep else 2))
    r.append(run("flex, every size, 1 step", f, 2, S, nmax=30, vars=63, mask=every_f | CTOR | INSV | ERASER, depth=1, self=3, dens0=0 if deep else 6))
    r.append(run("flex, relaxed shapes, 1 step", f, 4, S, fam=2, vars=15, mask=every_f | INSV | ERASER, depth=1, self=3, dens0=0 if deep else 6))
    r.append(run("flex, relaxed pairs, 1 step", f, 4, S, fam=4, nmin=0, nmax=63, vars=15, mask=CAT | RV | TCAT, depth=1, np=3))
    r.append(run("flex, pairs of sizes, concatenation", f, 2, S, fam=1, nmin=0, nmax=34, m0=0, m1=34, vars=15, mask=CAT | RV | TCAT, depth=1, np=3))
    r.append(run("flex, relaxed shapes, 2 steps", f, 8, S, fam=2, vars=15, mask=every_f, depth=2, dens0=3 if deep else 1))
    r.append(run("flex, sizes, 2 steps", f, 4, S, nmax=24, nstep=1 if deep else 2, vars=63, mask=every_f, depth=2, dens0=2 if deep else 1))
    r.append(run("array, 2 steps", a, 1, S, nmax=8, vars=63, mask=every_v | UPD | CTOR | OVER, depth=2, self=3, dens0=3))
    for p, b, l in ((1, 2, 0), (3, 2, 2), (0, 3, 1), (4, 2, 2), (7, 2, 1), (5, 2, 1)):
        x = seq(FLX, policy=p, elem=0 if p == 5 else 1, bb=b, bl=l, extra=("-DMC_MAXN=600",))
        r.append(run("flex policy %d B%dL%d, relaxed, 1 step" % (p, b, l), x, 2, S, fam=2, vars=15, mask=every_f | INSV, depth=1, dens0=4, self=3))
        r.append(run("flex policy %d B%dL%d, sizes, 1 step" % (p, b, l), x, 1, S, nmax=60, vars=63, mask=every_f, depth=1, dens0=6, self=3))
    for p in (1, 3, 5):
        r.append(run("array policy %d, 2 steps" % p, seq(ARR, policy=p), 1, S, nmax=6, vars=63, mask=every_v, depth=2, dens0=2))
        r.append(run("vector policy %d, 2 steps" % p, seq(VEC, policy=p), 1, S, nmax=24, nstep=2, vars=63, mask=every_v, depth=2, dens0=1))
    # the other ways to configure the library
    for name, k, x in (("no exceptions", 0, ("-DIMMER_NO_EXCEPTIONS=1",)), ("default policy", 8, ()), ("no free list", 8, ("-DIMMER_NO_FREE_LIST=1",)), ("no thread safety", 8, ("-DIMMER_NO_THREAD_SAFETY=1",)), ("neither", 8, ("-DIMMER_NO_THREAD_SAFETY=1", "-DIMMER_NO_FREE_LIST=1")), ("release build, no free list", 8, ("-DIMMER_NO_FREE_LIST=1", "-DNDEBUG"))):
        for c, kind in (("vector", VEC), ("flex", FLX), ("array", ARR)):
            r.append(run("%s, %s" % (c, name), seq(kind, policy=k, extra=x), 1, S, nmax=20, vars=3, mask=1023, depth=1, dens0=3, leak=0 if k == 8 and "-DIMMER_NO_FREE_LIST=1" not in x else 1))
    return r


@prop("C10")
def c10(deep):
    return seq_memory(deep)


def seq_faults(deep):
    r = []
    r.append(run("fixpoint: a vector and a transient", seq(VEC), 1, "op", mask=127, np=1, nt=1, maxn=7, fix=1, nmax=0, vars=1, leak=1, anon=1, faults=1))
    if deep:
        r.append(run("fixpoint: two flex_vectors", seq(FLX), 1, "op", mask=BASIC | FLEX | CAT | RV, np=2, nt=0, maxn=3, fix=1, nmax=0, vars=1, leak=1, anon=1, faults=1))
    every_f = BASIC | FLEX | CAT | RV | TCREATE | TOPS | TCAT
    every_v = BASIC | RV | TCREATE | TOPS
    for e in (1, 2):
        r.append(run("vector elem %d, every size, 1 step" % e, seq(VEC, elem=e), 2, S, nmax=44 if deep else 30, vars=63, mask=every_v | UPD | CTOR | ASSIGN, depth=1, faults=1, dens0=6 if deep else 3, self=3))
        r.append(run("flex elem %d, every size, 1 step" % e, seq(FLX, elem=e), 4, S, nmax=26, vars=63, mask=every_f | CTOR, depth=1, faults=1, dens0=6 if deep else 2, self=3))
        r.append(run("flex elem %d, relaxed shapes, 1 step" % e, seq(FLX, elem=e), 6, S, fam=2, vars=15, mask=every_f | INSV, depth=1, faults=1, dens0=6 if deep else 2))
        r.append(run("flex elem %d, relaxed pairs, concatenation" % e, seq(FLX, elem=e), 4, S, fam=4, nmin=0, nmax=63 if deep else 40, vars=15, mask=CAT | RV | TCAT, depth=1, faults=1, np=3))
        r.append(run("array elem %d, 2 steps" % e, seq(ARR, elem=e), 1, S, nmax=6, vars=63, mask=every_v | UPD | CTOR, depth=2, faults=1, dens0=2))
    r.append(run("array elem 0", seq(ARR, elem=0), 1, S, nmax=6, vars=63, mask=every_v | UPD | CTOR, depth=1, faults=1))
    r.append(run("array policy 5 elem 0", seq(ARR, policy=5, elem=0), 1, S, nmax=6, vars=63, mask=every_v | UPD | CTOR, depth=1, faults=1))
    r.append(run("vector, 2 steps", seq(VEC), 2, S, nmax=24, nstep=1 if deep else 3, vars=63, mask=every_v, depth=2, faults=1, dens0=1))
    r.append(run("flex, 2 steps", seq(FLX), 4, S, nmax=18, nstep=1 if deep else 4, vars=63, mask=every_f, depth=2, faults=1, dens0=1))
    for p, b, l in ((1, 2, 0), (3, 2, 2), (0, 3, 1), (5, 2, 1), (2, 2, 2)):
        x = seq(FLX, policy=p, bb=b, bl=l, extra=("-DMC_MAXN=600",))
        lk = 0 if p == 2 else 1
        r.append(run("flex policy %d B%dL%d, relaxed, 1 step" % (p, b, l), x, 2, S, fam=2, vars=15, mask=every_f, depth=1, faults=1, dens0=2, leak=lk))
        r.append(run("flex policy %d B%dL%d, sizes, 1 step" % (p, b, l), x, 1, S, nmax=40, nstep=1 if deep else 3, vars=63, mask=every_f, depth=1, faults=1, dens0=3, leak=lk))
        d = dict(fam=2, vars=3, faults=1, leak=lk, dens1=1, dens2=1, np=2)
        r.append(run("flex policy %d B%dL%d, relaxed, in place on shared sizes" % (p, b, l), x, 4, S, mask=BASIC | FLEX | RV | UPD | (TCREATE | TOPS if deep else 0), depth=3 if deep else 2, dens0=2 if deep else 1, **d))
    for m in (BASIC | RV | UPD, BASIC | FLEX | RV | UPD, BASIC | FLEX | RV | TCREATE | TOPS):
        r.append(run("flex, relaxed, mask %d, 3 steps" % m, seq(FLX), 8, S, fam=2, vars=3 if deep else 1, mask=m, depth=3, faults=1, dens0=2 if deep else 1, dens1=1, dens2=1, np=2))
    for p in (3, 5):
        r.append(run("array policy %d" % p, seq(ARR, policy=p), 1, S, nmax=6, vars=63, mask=every_v | UPD | CTOR, depth=1, faults=1))
    return r


@prop("C11")
def c11(deep):
    return seq_faults(deep)


def seq_gc(deep):
    r = []
    every_f = BASIC | FLEX | CAT | RV | TCREATE | TOPS | TCAT | ASSIGN
    every_v = BASIC | RV | TCREATE | TOPS | ASSIGN
    for p, e in ((2, 1), (2, 4), (6, 1), (2, 0)):
        r.append(run("vector policy %d elem %d" % (p, e), seq(VEC, policy=p, elem=e), 1, S, nmax=44 if deep else 30, vars=63, mask=every_v | UPD | CTOR, depth=1, gc=2, leak=0, dens0=6 if deep else 4, bat=B_BASIC))
        r.append(run("flex policy %d elem %d" % (p, e), seq(FLX, policy=p, elem=e), 2, S, nmax=26, vars=63, mask=every_f, depth=1, gc=2, leak=0, dens0=6 if deep else 2))
        r.append(run("flex policy %d elem %d, relaxed" % (p, e), seq(FLX, policy=p, elem=e), 4, S, fam=2, vars=15, mask=every_f, depth=1, gc=2, leak=0, dens0=6 if deep else 2))
        r.append(run("flex policy %d elem %d, relaxed pairs" % (p, e), seq(FLX, policy=p, elem=e), 2, S, fam=4, nmin=0, nmax=63 if deep else 30, vars=15, mask=CAT | TCAT | RV, depth=1, gc=2, leak=0))
        r.append(run("array policy %d elem %d" % (p, e), seq(ARR, policy=p, elem=e), 1, S, nmax=8, vars=63, mask=every_v | UPD | CTOR, depth=2, gc=2, leak=0, dens0=2))
    r.append(run("vector, 2 steps", seq(VEC, policy=2), 4, S, nmax=24, nstep=1 if deep else 2, vars=63, mask=every_v, depth=2, gc=1, leak=0, dens0=2))
    r.append(run("flex, 2 steps", seq(FLX, policy=2), 8, S, nmax=20, nstep=1 if deep else 3, vars=63, mask=every_f, depth=2, gc=1, leak=0, dens0=1))
    r.append(run("flex B2L2", seq(FLX, policy=2, bl=2), 2, S, fam=2, vars=15, mask=every_f, depth=1, gc=2, leak=0, dens0=2))
    r.append(run("flex B2L0", seq(FLX, policy=6, bl=0), 2, S, fam=2, vars=15, mask=every_f, depth=1, gc=2, leak=0, dens0=2))
    r.append(run("flex, a collector that must be told to start", seq(FLX, policy=2, extra=("-DIMMER_GC_REQUIRE_INIT=1",)), 1, S, nmax=12, vars=3, mask=every_f, depth=1, gc=2, leak=0, dens0=2))
    # long histories of one value and one transient, where the address of a dead owner token comes back
    for n in (5, 6, 7, 9) if deep else (5, 7):
        r.append(run("flex policy 6, tokens, size %d" % n, seq(FLX, policy=6), 1, S, nmin=n, nmax=n, np=1, nt=1, vars=1, mask=BASIC | TCREATE | TOPS, depth=9 if deep else 8, gc=2, leak=0, dens0=4, dens1=4, dens2=4))
    r.append(run("flex policy 2, tokens", seq(FLX, policy=2), 1, S, nmin=5, nmax=5, np=1, nt=1, vars=1, mask=BASIC | TCREATE | TOPS, depth=8 if deep else 7, gc=2, leak=0, dens0=4, dens1=4, dens2=4))
    return r


@prop("C12")
def c12(deep):
    return seq_gc(deep)
