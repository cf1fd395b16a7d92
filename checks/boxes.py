from .table import *


def box(kind, policy=0, elem=1, extra=()):
    return ("rt_seq", "box", ("-DMC_KIND=%d" % kind, "-DMC_POLICY=%d" % policy, "-DMC_ELEM=%d" % elem) + tuple(extra))


KIND = ["a value", "a value made of two", "a box", "a list that goes on in another box"]


@prop("C19")
def c19(deep):
    r = []
    for k in (0, 1, 2):
        for p, e in ((0, 1), (1, 1), (2, 1), (3, 3), (8, 2), (0, 4), (0, 5)):
            if e in (4, 5) and k:
                continue
            n = 4 if deep or p == 0 else 3
            r.append(run("%d boxes of %s, policy %d elem %d, histories of any length" % (n, KIND[k], p, e), box(k, p, e), 1, "op", fix=1, np=n, leak=0 if p == 2 or e == 4 else 1))
        r.append(run("3 boxes of %s, NDEBUG" % KIND[k], box(k, 0, 1, ("-DNDEBUG",)), 1, "op", fix=1, np=3, leak=1))
    for p, e in ((0, 1), (1, 1), (2, 1), (3, 3), (8, 2)):
        r.append(run("2 boxes of %s, policy %d elem %d, histories of any length" % (KIND[3], p, e), box(3, p, e), 1, "op", fix=1, np=2, leak=0 if p == 2 else 1))
        if p == 0:
            r.append(run("3 boxes of %s, policy %d elem %d, histories of any length" % (KIND[3], p, e), box(3, p, e), 1, "op", fix=1, np=3, len=3 if deep else 2, leak=1))
    return r


def extend(pid, more):
    old = REGISTRY[pid]
    REGISTRY[pid] = lambda deep: old(deep) + more(deep)


extend("C10", lambda deep: [run("boxes of %s, policy %d" % (KIND[k], p), box(k, p, 1), 1, "op", fix=1, np=3 if k < 3 else 2, leak=1) for k in (0, 1, 2, 3) for p in (0, 1, 3)])
extend("C11", lambda deep: [run("boxes of %s, policy %d elem %d" % (KIND[k], p, e), box(k, p, e), 1, "op", fix=1, np=4 if deep and p == 0 and k < 3 else 3 if k < 3 else 2, leak=0 if p == 2 else 1, faults=1) for k in (0, 1, 2, 3) for p, e in ((0, 1), (0, 2), (2, 1), (1, 2))])
extend("C12", lambda deep: [run("boxes of %s, elem %d" % (KIND[k], e), box(k, 2, e), 1, "op", fix=1, np=4 if deep else 3, leak=0, gc=1) for k, e in ((0, 0), (0, 1), (0, 4), (1, 1), (2, 1))])
