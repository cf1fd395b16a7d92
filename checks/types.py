"""Value types and hash functions of every sort."""
from .table import *
from .hashes import asc, ALLV, TC, TO, RV_, ASG, CT, D_BASIC, D_ITER, D_EQ, D_DIFF, NAME

S = "seed"
LIST = 6  # the element can be made from a list of elements
# GCC and clang before 20 differ in what T{value} means for such a type


def gcc(spec):
    return (spec[0], spec[1], ("g++",) + tuple(spec[2]))


SEQ = {VEC: "vector", FLX: "flex_vector", ARR: "array"}


@prop("C22")
def c22(deep):
    r = []
    t = TCREATE | TOPS
    for e, what in ((LIST, "values that lists of values convert to"), (5, "values of alignment 16")):
        with_e = gcc if e == LIST else tuple
        for k, n in SEQ.items():
            x = with_e(seq(k, elem=e))
            more = FLEX | CAT | INSV | ERASER if k == FLX else 0
            r.append(run("%s, %s, 1 step" % (n, what), x, 2, S, nmax=24 if k != ARR else 9, vars=3, mask=BASIC | UPD | RV | CTOR | OVER | more, depth=1, leak=0, bat=B_BASIC | B_ITER | B_EQ | B_AT | B_ALGO, dens0=0 if deep else 6))
            r.append(run("%s, %s, 2 steps" % (n, what), x, 4, S, nmax=24 if k != ARR else 9, vars=3, mask=BASIC | RV | ASSIGN | more & ~INSV & ~ERASER, depth=2, leak=0, dens0=4 if deep else 2))
            r.append(run("%s, %s, transients, 2 steps" % (n, what), x, 4, S, nmax=20 if k != ARR else 8, vars=60, mask=t | BASIC | (TCAT if k == FLX else 0), depth=2, leak=0, dens0=4 if deep else 2, np=1))
        r.append(run("flex_vector, %s, relaxed shapes" % what, with_e(seq(FLX, elem=e)), 2, S, fam=2, vars=3, mask=BASIC | FLEX | CAT | RV, depth=1, leak=0, dens0=4))
        for b in (1, 2):
            r.append(run("dvektor B%d, %s, 2 steps" % (b, what), with_e(seq(DVK, elem=e, bb=b)), 2, S, nmax=24, vars=3, mask=BASIC | UPD | ASSIGN, depth=2, leak=0, dens0=4 if deep else 2))
        for k, n in NAME.items():
            x = with_e(asc(k, elem=e))
            r.append(run("%s, %s, 2 steps" % (n, what), x, 2, S, vars=1 | 64, mask=ALLV | RV_ | CT, depth=2, leak=0, nstep=1 if deep else 3, keys=0 if deep else 3, bat=D_BASIC | D_ITER | D_EQ | D_DIFF))
            r.append(run("%s, %s, transients, 2 steps" % (n, what), x, 2, S, vars=60, mask=ALLV | TC | TO, depth=2, leak=0, np=1, nstep=1 if deep else 3, keys=0 if deep else 2))
    for h in ("int", "short", "unsigned char", "unsigned"):
        for k, n in NAME.items():
            x = asc(k, extra=("-DMC_HASHT=" + h,))
            r.append(run("%s, hash function that returns %s" % (n, h), x, 2, S, vars=1 | 64, mask=ALLV | RV_ | CT, depth=2 if deep else 1, leak=0, bat=D_BASIC))
            r.append(run("%s, hash function that returns %s, every choice of patterns" % (n, h), x, 2, S, fam=1, pat=8 if deep else 6, nmin=6, vars=1, mask=ALLV, depth=1, leak=0))
            r.append(run("%s, hash function that returns %s, transients" % (n, h), x, 2, S, vars=60, mask=ALLV | TC | TO, depth=2, leak=0, np=1, nstep=1 if deep else 3, keys=0 if deep else 2))
    return r
