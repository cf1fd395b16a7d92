"""Which explorations decide which property. See DESIGN.md."""
from collections import namedtuple

Run = namedtuple("Run", "name spec opts shards by seconds weight")
LIMIT = {"quick": 400, "thorough": 840}

# operation groups of harness/seq.cpp
BASIC, FLEX, CAT, RV, TCREATE, TOPS, TCAT, ASSIGN, CTOR, UPD, ERASER, INSV, OVER, TCOPY = (1 << i for i in range(14))
# batteries
B_BASIC, B_ITER, B_EQ, B_AT, B_ALGO = 1, 2, 4, 8, 16
VEC, FLX, ARR, DVK = 0, 1, 2, 3


def seq(kind, policy=0, elem=1, bb=2, bl=1, extra=()):
    return ("rt_seq", "seq", ("-DMC_KIND=%d" % kind, "-DMC_POLICY=%d" % policy, "-DMC_ELEM=%d" % elem, "-DMC_BB=%d" % bb, "-DMC_BL=%d" % bl) + tuple(extra))


def run(name, spec, shards=1, by="op", seconds=0, weight=1, **opts):
    return Run(name, spec, ["%s=%d" % kv for kv in opts.items()], shards, by, seconds, weight)


REGISTRY = {}
NOTES = {}
NOT_APPLICABLE = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


def runs(pid, tier):
    r = REGISTRY[pid](tier == "thorough")
    return r + release(r)


def release(r):
    """One exploration of every kind of container once more as in a release build: other node layout, no assertions."""
    done, more = set(), []
    for x in sorted(r, key=lambda x: x.shards):
        if any("MC_MAXN" in f for f in x.spec[2]) or x.spec[1] == "selftest":
            continue
        kind = (x.spec[1],) + tuple(f for f in x.spec[2] if f.startswith(("-DMC_KIND", "-DMC_HEAP")))
        if kind not in done:
            done.add(kind)
            more.append(x._replace(name=x.name + ", release build", spec=(x.spec[0], x.spec[1], tuple(x.spec[2]) + ("-DNDEBUG",))))
    return more


COMMON = ["exploration is exhaustive within the listed bounds: the container kinds, branching parameters, policies, element types, seeds, operation arguments and depth given in coverage.runs",
          "states are identified up to renaming of element values and memory addresses by a 96 bit hash"]


def assumptions(pid):
    return COMMON


from . import sequences, hashes, threads, boxes, costs, experimental, types  # noqa: E402,F401
