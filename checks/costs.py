"""What operations cost (C20)."""
from .table import *
from .sequences import S, NDEBUG
from .hashes import asc, SET, MAP, TAB, NAME, ALLV, INS, ERASE, UPD, RV_, ASG, CT, TC, TO, TCP

B_COST, D_COST = 32, 16


def shapes(name, spec, deep, kind):
    """Every operation on every shape, and once more in place."""
    m = BASIC | UPD | RV | ASSIGN | TCREATE | TOPS | TCOPY
    r = []
    if kind == FLX:
        m |= FLEX | CAT | TCAT
        r.append(run(name + ", relaxed shapes, 1 step", spec, 2, S, fam=2, vars=15, mask=m, depth=1, leak=0, cost=1, reuse=0, dens0=12 if deep else 5, bat=B_COST))
        r.append(run(name + ", relaxed shapes, insertion and erasure", spec, 1, S, fam=2, vars=15, mask=ERASER | INSV, depth=1, leak=0, cost=1, reuse=0, dens0=6 if deep else 4, np=1))
        r.append(run(name + ", relaxed pairs", spec, 2, S, fam=4, nmin=0, nmax=63, vars=2, mask=CAT | RV, depth=2 if deep else 1, leak=0, cost=1, reuse=0, np=2))
        r.append(run(name + ", pairs of sizes", spec, 2, S, fam=1, nmin=0, nmax=34, nstep=1 if deep else 3, m0=0, m1=70 if deep else 34, vars=2, mask=CAT | TCAT, depth=1, leak=0, cost=1, reuse=0))
        r.append(run(name + ", relaxed shapes, 2 steps", spec, 8, S, fam=2, vars=3, mask=m & ~(UPD | TCOPY), depth=2, leak=0, cost=1, reuse=0, dens0=3 if deep else 2, dens1=3 if deep else 2, seedstep=1 if deep else 4))
    r.append(run(name + ", every size, 1 step", spec, 2, S, nmax=20 if kind == ARR else 100 if deep else 60, vars=63, mask=m | CTOR, depth=1, leak=0, cost=1, reuse=0, dens0=12 if deep else 5, bat=B_COST))
    r.append(run(name + ", every size, 2 steps", spec, 4, S, nmax=12 if kind == ARR else 40 if deep else 24, nstep=1 if deep else 2, vars=15, mask=m & ~ASSIGN, depth=2, leak=0, cost=1, reuse=0, dens0=3 if deep else 2))
    return r


@prop("C20")
def c20(deep):
    r = []
    fx = dict(fix=1, nmax=0, vars=1, leak=0, anon=1, cost=1, reuse=0, again=0)
    r.append(run("fixpoint: every vector up to 60 elements, B2L1", seq(VEC), 1, "op", mask=BASIC, np=1, nt=0, maxn=60 if deep else 40, bat=B_COST, **fx))
    r.append(run("fixpoint: every flex_vector up to %d elements, B2L1" % (11 if deep else 9), seq(FLX), 1, "op", mask=BASIC | FLEX | CAT, np=1, nt=0, maxn=11 if deep else 9, **fx))
    r.append(run("fixpoint: every flex_vector up to %d elements, B2L0" % (9 if deep else 7), seq(FLX, bl=0), 1, "op", mask=BASIC | FLEX | CAT, np=1, nt=0, maxn=9 if deep else 7, **fx))
    r.append(run("fixpoint: two flex_vectors, B2L1", seq(FLX), 1, "op", mask=BASIC | FLEX | CAT | RV, np=2, nt=0, maxn=3, **fx))
    r.append(run("fixpoint: two flex_vectors, l-values, B2L1", seq(FLX), 1, "op", mask=BASIC | FLEX | CAT, np=2, nt=0, maxn=4, **fx))
    r.append(run("fixpoint: a flex_vector and a transient", seq(FLX), 1, "op", mask=127, np=1, nt=1, maxn=3, **fx))
    for p, b, l in ((0, 2, 1), (2, 2, 2), (6, 3, 1), (5, 2, 2), (4, 3, 1), (1, 2, 0)):
        x = ("-DMC_MAXN=1600",)
        r += shapes("flex policy %d B%dL%d" % (p, b, l), seq(FLX, policy=p, bb=b, bl=l, extra=x), deep, FLX)
        if p in (0, 2) or deep:
            r += shapes("vector policy %d B%dL%d" % (p, b, l), seq(VEC, policy=p, bb=b, bl=l, extra=x), deep, VEC)
    for p in (0, 1, 2, 4, 6):
        r += shapes("array policy %d" % p, seq(ARR, policy=p), deep, ARR)
    x = seq(FLX, policy=8, bb=5, bl=5, extra=("-DMC_MAXN=4800",))
    r.append(run("flex B5L5", x, 2, S, nmin=0, nmax=1060, nstep=15 if deep else 106, vars=15, mask=BASIC | UPD | RV | FLEX | CAT | TOPS, depth=1, leak=0, cost=1, reuse=0, dens0=5))
    for k in (SET, MAP, TAB):
        every = ALLV | RV_ | ASG | CT | TC | TO | TCP
        n = NAME[k]
        for p, b in ((0, 2), (2, 2), (0, 5), (4, 2), (1, 3)) + (((6, 5), (5, 3), (8, 6)) if deep else ()):
            x = asc(k, policy=p, bb=b, k=64)
            r.append(run("%s policy %d B%d, up to 64 keys" % (n, p, b), x, 4, S, nmin=0, nmax=64, nstep=4 if deep else 16, vars=15, mask=every, depth=1, leak=0, cost=1, reuse=0, keys=20 if deep else 6, bat=D_COST if p in (0, 2) and (deep or b == 2) else 0))
            x = asc(k, policy=p, bb=b)
            r.append(run("%s policy %d B%d, every choice of hash patterns" % (n, p, b), x, 2, S, fam=1, pat=8 if deep else 5, nmin=6, vars=15, mask=every, depth=1, leak=0, cost=1, reuse=0, bat=D_COST if deep or p == 0 else 0))
            r.append(run("%s policy %d B%d, 2 steps" % (n, p, b), x, 2, S, vars=15, mask=ALLV | RV_ | TO, depth=2, leak=0, cost=1, reuse=0, nstep=1 if deep else 3, keys=0 if deep else 3))
    return r
