"""Hash tries: set, map and table."""
from .table import *
from . import sequences

S = "seed"
SET, MAP, TAB = 0, 1, 2
INS, SETV, UPD, UIE, ERASE, RV_, ASG, CT, TC, TO, TCP, SAME = (1 << i for i in range(12))
ALLV = INS | SETV | UPD | UIE | ERASE
D_BASIC, D_ITER, D_EQ, D_DIFF = 1, 2, 4, 8
NAME = {0: "set", 1: "map", 2: "table"}


def asc(kind, policy=0, elem=1, bb=5, k=6, extra=()):
    return ("rt_seq", "assoc", ("-DMC_KIND=%d" % kind, "-DMC_POLICY=%d" % policy, "-DMC_ELEM=%d" % elem, "-DMC_BB=%d" % bb, "-DMC_K=%d" % k) + tuple(extra))


def persistent(kind, deep):
    r = []
    m = ALLV | ASG
    x4, x6 = asc(kind, k=4), asc(kind)
    r.append(run("4 keys, 2 variables, 10 hash functions, histories of any length", x4, 10, S, fix=1, nmax=0, vars=1, mask=m | CT, leak=0, bat=D_BASIC))
    r.append(run("6 keys, every choice of 8 hash patterns, 1 step", x6, 4, S, fam=1, pat=8, nmin=6, vars=1 | 64, mask=m | CT, depth=1, leak=0, bat=D_BASIC))
    r.append(run("6 keys, every choice of 4 hash patterns, 3 steps", x6, 8, S, fam=1, pat=4, nmin=3, vars=1, mask=m if kind == SET else m & ~(SETV | UIE), depth=3, leak=0, keys=0 if deep else 3))
    r.append(run("6 keys, 10 hash functions, 2 steps", x6, 4, S, vars=1 | 2 | 64, mask=m | SAME, depth=2, leak=0, bat=D_BASIC))
    for h in ("int", "short", "unsigned") if deep else ("int",):
        x = asc(kind, extra=("-DMC_HASHT=" + h,))
        r.append(run("hash functions that return %s, 2 steps" % h, x, 4, S, vars=1 | 64, mask=m, depth=2, leak=0, nstep=1 if deep else 3, bat=D_BASIC))
        r.append(run("hash functions that return %s, every choice of 8 patterns" % h, x, 4, S, fam=1, pat=8, nmin=6, vars=1 | 64, mask=m, depth=1, leak=0))
    for b in (1, 2, 3, 4, 6):
        r.append(run("B%d, 6 keys, 2 steps" % b, asc(kind, bb=b, elem=b % 2), 2, S, vars=1 | 64, mask=m, depth=2, leak=0, nstep=1 if deep else 3, bat=D_BASIC))
        if deep:
            r.append(run("B%d, 4 keys, histories of any length" % b, asc(kind, bb=b, k=4), 10, S, fix=1, nmax=0, vars=1, mask=m, leak=0))
    for p in (1, 2, 3, 4, 5, 8):
        r.append(run("policy %d, 2 steps" % p, asc(kind, policy=p, elem=p % 2), 2, S, vars=1, mask=m, depth=2, leak=0, nstep=1 if deep else 3, keys=0 if deep else 3))
    x = asc(kind, k=40)
    r.append(run("40 keys, 10 hash functions, 2 steps", x, 4, S, nmin=0, nmax=40, nstep=4 if deep else 13, vars=1 | 64, mask=INS | ERASE | UPD, depth=2, leak=0, keys=0 if deep else 8))
    x = asc(kind, bb=2, k=100)
    r.append(run("B2, 100 keys", x, 4, S, nmin=90, nmax=100, nstep=5, vars=1 | 64, mask=INS | ERASE | UPD, depth=2 if deep else 1, leak=0, keys=0 if deep else 40))
    r.append(run("5 keys, random access to every level", asc(kind, k=5), 10, S, fix=1, nmax=0, vars=1, np=1, nt=0, mask=m, leak=0, bat=D_BASIC))
    if deep:
        r.append(run("8 keys, one variable, histories of any length", asc(kind, k=8), 10, S, fix=1, nmax=0, vars=1, np=1, nt=0, mask=INS | ERASE, leak=0, bat=D_BASIC))
    return r


@prop("C04")
def c04(deep):
    return persistent(SET, deep)


@prop("C05")
def c05(deep):
    return persistent(MAP, deep)


@prop("C06")
def c06(deep):
    return persistent(TAB, deep)


@prop("C08")
def c08(deep):
    r = []
    t = TC | TO | TCP
    for k in (SET, MAP, TAB):
        n = NAME[k]
        small = INS | ERASE | UPD
        r.append(run("%s, 3 keys, a variable and a transient, histories of any length" % n, asc(k, k=3), 10, S, fix=1, nmax=0, vars=1, np=1, nt=1, mask=small | TC | TO, leak=0, bat=D_BASIC))
        r.append(run("%s, 3 keys, a variable and two transients, histories of any length" % n, asc(k, k=3), 10, S, fix=1, nmax=0, vars=1, np=1, nt=2, mask=INS | ERASE | t, leak=0, s0=0, s1=10 if deep or k == SET else 4))
        r.append(run("%s, 3 keys, gc, histories of any length" % n, asc(k, k=3, policy=2), 10, S, fix=1, nmax=0, vars=1, np=1, nt=1, mask=INS | ERASE | TC | TO, leak=0, maxn=3, depth=0 if deep else 8))
        for p in (0, 2):
            x = asc(k, policy=p)
            r.append(run("%s policy %d, 10 hash functions, 2 steps" % (n, p), x, 4, S, vars=60, mask=ALLV | t, depth=2, leak=0, np=1, nstep=1 if deep else 2, keys=0 if deep else 3, bat=D_BASIC))
            r.append(run("%s policy %d, every choice of 4 patterns, 2 steps" % (n, p), x, 4, S, fam=1, nmin=5, vars=60, mask=INS | ERASE | t, depth=2, leak=0, np=1, keys=0 if deep else 4))
            r.append(run("%s policy %d, 3 steps" % (n, p), x, 4, S, vars=60, mask=ALLV | TC | TO, depth=3, leak=0, np=1, nmin=3, nstep=1 if deep else 2, keys=2))
        for p, b in ((1, 2), (3, 3), (6, 5), (8, 6)):
            r.append(run("%s policy %d B%d, 2 steps" % (n, p, b), asc(k, policy=p, bb=b, elem=0 if p == 6 else 1), 2, S, vars=60, mask=ALLV | t, depth=2, leak=0, np=1, nstep=1 if deep else 3, keys=0 if deep else 2))
        r.append(run("%s, hash functions that return int, 2 steps" % n, asc(k, extra=("-DMC_HASHT=int",)), 2, S, vars=60, mask=ALLV | t, depth=2, leak=0, np=1, nstep=1 if deep else 3, keys=0 if deep else 2))
        r.append(run("%s, 40 keys" % n, asc(k, k=40), 2, S, vars=60, mask=INS | ERASE | UPD | TC | TO, depth=2, leak=0, np=1, nmin=0, nmax=40, nstep=4 if deep else 20, keys=0 if deep else 5))
    return r


@prop("C13")
def c13(deep):
    r = []
    for k in (SET, MAP, TAB):
        n = NAME[k]
        m = INS | ERASE | UPD | SAME
        r.append(run("%s, 4 keys, two variables, histories of any length" % n, asc(k, k=4), 10, S, fix=1, nmax=0, vars=1, mask=INS | ERASE | (SAME | ASG if deep else 0), leak=0, bat=D_DIFF))
        r.append(run("%s, 6 keys, 10 hash functions, 1 step" % n, asc(k), 4, S, vars=1 | 2 | 64, mask=m | ASG, depth=1, leak=0, bat=D_DIFF))
        r.append(run("%s, every choice of hash patterns, 1 step" % n, asc(k), 8, S, fam=1, pat=8 if deep else 4, nmin=6, vars=1 | 2, mask=m, depth=1, leak=0, bat=D_DIFF))
        r.append(run("%s, two steps" % n, asc(k), 8, S, vars=1 | 2, mask=m, depth=2, leak=0, bat=D_DIFF, nstep=1 if deep else 3, keys=0 if deep else 3))
        r.append(run("%s, 40 keys" % n, asc(k, k=40), 4, S, vars=1 | 2, m0=20, mask=m, depth=1, leak=0, bat=D_DIFF, nstep=5 if deep else 20, keys=8 if deep else 3))
        for p, b in ((1, 2), (2, 3), (8, 6)):
            r.append(run("%s policy %d B%d" % (n, p, b), asc(k, policy=p, bb=b, elem=p % 2), 2, S, vars=1 | 2 | 64, mask=m, depth=1, leak=0, bat=D_DIFF, keys=0 if deep else 3))
        r.append(run("%s, with transients" % n, asc(k), 2, S, vars=12, mask=TC | TO | INS | ERASE, depth=2 if deep else 1, leak=0, bat=D_DIFF, keys=0 if deep else 3))
    return r


def rvalues(deep):
    r = []
    for k in (SET, MAP, TAB):
        n = NAME[k]
        r.append(run("%s, 4 keys, two variables, r-values, histories of any length" % n, asc(k, k=4), 10, S, fix=1, nmax=0, vars=1, mask=INS | ERASE | RV_ | ASG, leak=0, self=3, s1=10 if deep else 6 if k == SET else 4))
        r.append(run("%s, 10 hash functions, 2 steps" % n, asc(k), 4, S, vars=1 | 2 | 64, mask=ALLV | RV_ | ASG, depth=2, leak=0, self=3, nstep=1 if deep else 2, keys=0 if deep else 3))
        r.append(run("%s, every choice of hash patterns" % n, asc(k), 4, S, fam=1, pat=8 if deep else 5, nmin=6, vars=1 | 2 | 64, mask=ALLV | RV_, depth=1, leak=0, self=3))
        for p, b in ((1, 2), (3, 3), (2, 5), (5, 5), (4, 6)):
            r.append(run("%s policy %d B%d, 2 steps" % (n, p, b), asc(k, policy=p, bb=b), 1, S, vars=1 | 2, mask=ALLV | RV_, depth=2, leak=0, self=1, nstep=1 if deep else 3, keys=0 if deep else 2))
    return r


def memory(deep):
    r = []
    for k in (SET, MAP, TAB):
        n = NAME[k]
        every = ALLV | RV_ | ASG | CT | TC | TO | TCP
        r.append(run("%s, 10 hash functions, 1 step" % n, asc(k), 2, S, vars=127, mask=every, depth=1, self=3))
        r.append(run("%s, every choice of hash patterns, 1 step" % n, asc(k), 4, S, fam=1, pat=8 if deep else 5, nmin=6, vars=127, mask=every, depth=1, self=3))
        r.append(run("%s, 2 steps" % n, asc(k), 4, S, vars=127, mask=INS | ERASE | UPD | RV_ | TC | TO, depth=2, nstep=1 if deep else 2, keys=0 if deep else 2))
        r.append(run("%s, 3 keys, histories of any length" % n, asc(k, k=3), 10, S, fix=1, nmax=0, vars=1, np=1, nt=1, mask=INS | ERASE | UPD | RV_ | TC | TO))
        for p, b in ((1, 2), (3, 3), (7, 4), (4, 6)):
            r.append(run("%s policy %d B%d" % (n, p, b), asc(k, policy=p, bb=b), 1, S, vars=127, mask=every, depth=2 if deep else 1, keys=0 if deep else 3))
        r.append(run("%s, 40 keys" % n, asc(k, k=40), 1, S, vars=127, mask=INS | ERASE | UPD | RV_ | TC | TO, depth=1, nstep=4 if deep else 10, keys=0 if deep else 5))
    return r


def faults(deep):
    r = []
    for k in (SET, MAP, TAB):
        n = NAME[k]
        every = ALLV | RV_ | CT | TC | TO
        for e in (1, 2):
            r.append(run("%s elem %d, 10 hash functions, 1 step" % (n, e), asc(k, elem=e), 4, S, vars=127 if deep or e == 1 else 15, mask=every, depth=1, faults=1, keys=0 if deep else 3, nstep=1 if deep or k == SET else 2))
        r.append(run("%s, every choice of hash patterns" % n, asc(k), 4, S, fam=1, pat=7 if deep else 4, nmin=6, vars=15, mask=every, depth=1, faults=1, keys=0 if deep else 2))
        if deep:
            r.append(run("%s, 2 steps" % n, asc(k), 8, S, vars=15, mask=INS | ERASE | UPD | RV_ | TC | TO, depth=2, faults=1, keys=3, nstep=3))
        for p, b in ((1, 2), (3, 3), (5, 6), (2, 5)):
            r.append(run("%s policy %d B%d" % (n, p, b), asc(k, policy=p, bb=b), 1, S, vars=15, mask=every, depth=1, faults=1, nstep=1 if deep else 3, keys=0 if deep else 2, leak=0 if p == 2 else 1))
    return r


def collector(deep):
    r = []
    for k in (SET, MAP, TAB):
        n = NAME[k]
        every = ALLV | RV_ | TC | TO | ASG | CT
        for p, e in ((2, 1), (2, 4), (6, 0)):
            r.append(run("%s policy %d elem %d, 10 hash functions" % (n, p, e), asc(k, policy=p, elem=e), 2, S, vars=127, mask=every, depth=1, gc=2, leak=0, keys=0 if deep else 3))
            r.append(run("%s policy %d elem %d, hash patterns" % (n, p, e), asc(k, policy=p, elem=e), 2, S, fam=1, nmin=6, vars=15, mask=every, depth=1, gc=2, leak=0, keys=0 if deep else 3))
        r.append(run("%s, 2 steps" % n, asc(k, policy=2), 4, S, vars=15, mask=INS | ERASE | UPD | RV_ | TC | TO, depth=2, gc=1, leak=0, nstep=1 if deep else 3, keys=3 if deep else 2))
        r.append(run("%s B2" % n, asc(k, policy=2, bb=2), 1, S, vars=15, mask=every, depth=1, gc=2, leak=0, keys=0 if deep else 3))
    return r


def equality(deep):
    r = []
    for k in (SET, MAP, TAB):
        n = NAME[k]
        m = INS | ERASE | UPD | SAME
        r.append(run("%s, 4 keys, two variables, histories of any length" % n, asc(k, k=4), 10, S, fix=1, nmax=0, vars=1, mask=INS | ERASE, leak=0, bat=D_EQ, s1=10 if deep else 5))
        r.append(run("%s, 10 hash functions" % n, asc(k), 2, S, vars=1 | 2 | 64, mask=m, depth=1, leak=0, bat=D_EQ))
        r.append(run("%s, every choice of hash patterns" % n, asc(k), 4, S, fam=1, pat=8 if deep else 4, nmin=6, vars=1 | 2, mask=m, depth=1, leak=0, bat=D_EQ))
        for p, b in ((1, 2), (2, 3)):
            r.append(run("%s policy %d B%d" % (n, p, b), asc(k, policy=p, bb=b, elem=p % 2), 1, S, vars=1 | 2 | 64, mask=m, depth=1, leak=0, bat=D_EQ, keys=0 if deep else 3))
        r.append(run("%s, with transients" % n, asc(k), 1, S, vars=12, mask=TC | TO | INS | ERASE, depth=2 if deep else 1, leak=0, bat=D_EQ, keys=0 if deep else 3))
    return r


def iteration(deep):
    r = []
    for k in (SET, MAP, TAB):
        n = NAME[k]
        m = INS | ERASE | UPD
        r.append(run("%s, 10 hash functions, 2 steps" % n, asc(k), 2, S, vars=1 | 64, mask=m, depth=2, leak=0, bat=D_ITER, nstep=1 if deep else 2))
        r.append(run("%s, every choice of hash patterns" % n, asc(k), 2, S, fam=1, pat=8, nmin=6, vars=1, mask=m, depth=1, leak=0, bat=D_ITER))
        r.append(run("%s, transients" % n, asc(k), 1, S, vars=12, mask=TC | TO, depth=1, leak=0, bat=D_ITER))
        for p, b in ((1, 2), (2, 3), (8, 6)):
            r.append(run("%s policy %d B%d" % (n, p, b), asc(k, policy=p, bb=b), 1, S, vars=1 | 64, mask=m, depth=1, leak=0, bat=D_ITER))
        r.append(run("%s, 40 keys" % n, asc(k, k=40), 1, S, vars=1 | 64, mask=m, depth=1, leak=0, bat=D_ITER, nstep=1 if deep else 5, keys=0 if deep else 6))
    return r


def extend(pid, more):
    old = REGISTRY[pid]
    REGISTRY[pid] = lambda deep: old(deep) + more(deep)


extend("C09", rvalues)
extend("C10", memory)
extend("C11", faults)
extend("C12", collector)
extend("C14", equality)
extend("C15", iteration)
