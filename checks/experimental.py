from .table import *

S = "seed"
MASK = BASIC | UPD | ASSIGN


@prop("C21")
def c21(deep):
    r = []
    fx = dict(fix=1, nmax=0, vars=1, anon=1, mask=BASIC | ASSIGN, nt=0, bat=B_BASIC | B_ITER)
    for b in (1, 2):
        x = seq(DVK, bb=b)
        r.append(run("fixpoint: two dvektors sharing structure, B%d" % b, x, 1, "op", np=2, maxn=9 if deep else 7, leak=1, **fx))
        r.append(run("fixpoint: every dvektor, B%d" % b, x, 1, "op", np=1, maxn=40 if deep else 26, leak=1, **fx))
        y = seq(DVK, bb=b, extra=("-DMC_MAXN=300",))
        bat = B_BASIC | B_ITER | B_AT | B_ALGO
        r.append(run("B%d every size and index, 1 step" % b, y, 1, S, nmax=140 if deep else 70, vars=3, mask=MASK, depth=1, leak=1, dens0=0, bat=bat))
        r.append(run("B%d 2 steps" % b, y, 4, S, nmax=70 if deep else 36, vars=3, mask=MASK, depth=2, leak=1, dens0=0 if deep else 8, bat=bat))
        r.append(run("B%d 3 steps" % b, y, 8, S, nmax=36 if deep else 18, vars=1, mask=MASK, depth=3, leak=1, dens0=6 if deep else 3, bat=bat))
        r.append(run("B%d from small, long histories" % b, x, 8, "op", nmax=2, vars=1, mask=BASIC, depth=9 if deep else 7, leak=1, dens0=2, bat=B_BASIC | B_ITER))
        r.append(run("B%d NDEBUG" % b, seq(DVK, bb=b, extra=("-DNDEBUG",)), 2, S, nmax=36, vars=3, mask=MASK, depth=2, leak=1, dens0=4, bat=B_BASIC | B_ITER))
    for p, e, b in ((1, 1, 2), (2, 1, 1), (3, 1, 2), (0, 0, 2), (0, 3, 1), (8, 1, 3)):
        x = seq(DVK, policy=p, elem=e, bb=b, extra=("-DMC_MAXN=300",))
        r.append(run("policy %d elem %d B%d, 2 steps" % (p, e, b), x, 4, S, nmax=80 if b == 3 else 36, vars=3, mask=MASK, depth=2, leak=0 if p in (2, 8) else 1, dens0=6 if deep else 3, bat=B_BASIC | B_ITER))
    x = seq(DVK, policy=8, elem=0, bb=5, extra=("-DMC_MAXN=2300",))
    r.append(run("B5 around 1024", x, 2, S, nmin=1020, nmax=1060, nstep=1 if deep else 3, vars=1, mask=MASK, depth=2 if deep else 1, leak=0, dens0=8, bat=B_BASIC))
    r.append(run("B5 small", x, 2, S, nmin=0, nmax=100, nstep=1 if deep else 3, vars=1, mask=MASK, depth=2, leak=0, dens0=4, bat=B_BASIC))
    # exceptions
    for e in (1, 2):
        for b in (1, 2):
            r.append(run("B%d elem %d, faults" % (b, e), seq(DVK, elem=e, bb=b), 2, S, nmax=36 if deep else 20, vars=3, mask=MASK, depth=2 if deep or b == 2 else 1, leak=1, faults=1, dens0=3))
    # memory that only a value refers to, under a collector
    r.append(run("gc", seq(DVK, policy=2, elem=4, bb=1), 2, S, nmax=20, vars=3, mask=MASK, depth=2 if deep else 1, leak=0, gc=1, dens0=4))
    return r
