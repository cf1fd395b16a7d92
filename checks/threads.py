from .table import *

S = "seed"
KINDS = ["vector", "flex_vector", "array", "set", "map", "table", "box"]
COPY, RESET, ASSIGN, READ, ADD, ADDM, SETF, SETFM, SETLM, UPDM, CUTM, CUT2M, DROPM, CATM, CATM2, INSM, ERAM, TRANS, TRANS2, CATSELF = (1 << i for i in range(20))
ALL = (1 << 20) - 1


def conc(src, *flags):
    return ("rt_conc", src, tuple("-DMC_" + f for f in flags))


def share(kind, policy=0, elem=1):
    return conc("share", "KIND=%d" % kind, "POLICY=%d" % policy, "ELEM=%d" % elem)


SELF = conc("selftest")


def explorer(r):
    """Programs with known results: the explorer itself, and the spinlock."""
    r.append(run("explorer and spinlock, known programs", SELF, 1, S))


# what a value is at the start of a program: (first, last + 1, step)
SEQ_MASK = ALL & ~(DROPM | CATM | CATM2 | INSM | ERAM | CATSELF)
SET_MASK = ALL & ~(CATM | CATM2 | INSM | ERAM | CATSELF | UPDM)
MAP_MASK = SET_MASK | UPDM | CATM | CATM2 | INSM | ERAM
BOX_MASK = COPY | RESET | ASSIGN | READ | ADD | ADDM | UPDM | SETFM
MASK = {0: SEQ_MASK, 1: ALL, 2: SEQ_MASK, 3: SET_MASK, 4: MAP_MASK, 5: MAP_MASK, 6: BOX_MASK}
# the operations that change what is shared
SHORT = {0: RESET | ASSIGN | ADDM | SETFM | CUTM | TRANS2, 1: RESET | ASSIGN | ADDM | SETFM | CUTM | DROPM | CATM | TRANS2, 2: RESET | ASSIGN | ADDM | SETFM | CUTM | TRANS2,
         3: RESET | ASSIGN | ADDM | SETFM | CUTM | TRANS2, 4: RESET | ASSIGN | ADDM | SETFM | UPDM | CUTM | TRANS2, 5: RESET | ASSIGN | ADDM | SETFM | UPDM | CUTM | TRANS2,
         6: COPY | RESET | ASSIGN | ADD | UPDM | SETFM}


@prop("C16")
def c16(deep):
    r = []
    cap = 300000 if deep else 12000
    for k, name in enumerate(KINDS):
        x = share(k)
        if k <= 1:
            r.append(run("%s, sizes, pairs of operations" % name, x, 2, S, threads=2, len=1, mask=MASK[k], s0=0, s1=20 if deep else 12, pcap=cap))
        if k == 1:
            r.append(run("%s, relaxed shapes, pairs of operations" % name, x, 16, S, threads=2, len=1, mask=MASK[k], s0=100, s1=140 if deep else 104, pcap=cap if deep else 4000))
            if not deep:
                r.append(run("%s, more relaxed shapes" % name, x, 8, S, threads=2, len=1, mask=MASK[k], s0=104, s1=124, pb=1))
        if k == 2:
            r.append(run("%s, sizes, pairs of operations" % name, x, 1, S, threads=2, len=1, mask=MASK[k], s0=0, s1=9 if deep else 6, pcap=cap))
        if k in (3, 4, 5):
            r.append(run("%s, pairs of operations" % name, x, 4, S, threads=2, len=1, mask=MASK[k], s0=1, s1=48, sstep=1 if deep else 2, pcap=cap))
        if k == 6:
            r.append(run("%s, 2 operations per thread" % name, x, 1, S, threads=2, len=2, mask=MASK[k], s0=0, s1=1, pcap=cap))
        # longer scripts, more threads
        s0, s1 = {0: (3, 6), 1: (102, 103), 2: (2, 4), 3: (10, 12), 4: (26, 28), 5: (26, 27), 6: (0, 1)}[k]
        r.append(run("%s, 2 operations per thread" % name, x, 4, S, threads=2, len=2, mask=SHORT[k], s0=s0, s1=s1, pcap=cap if deep else 2000, pcap_pb=2 if deep else 1))
        r.append(run("%s, 3 threads" % name, x, 4, S, threads=3, len=1, mask=SHORT[k], s0=s0, s1=s1 if deep else s0 + 1, pcap=cap if deep else 3000, pcap_pb=2 if deep else 1))
        # other memory policies, memory that is reused at once
        s0, s1, st = {0: (2, 7, 2), 1: (3, 6, 2), 2: (1, 4, 2), 3: (2, 48, 9), 4: (3, 48, 9), 5: (4, 48, 9), 6: (0, 1, 1)}[k]
        for p in (0, 2, 3, 4, 8):
            y = share(k, p, 0 if p == 8 else 1)
            r.append(run("%s, policy %d, pairs of operations" % (name, p), y, 2, S, threads=2, len=1, mask=MASK[k] if deep else MASK[k] & ~(COPY | READ | ADD | SETF), s0=s0, s1=s1, sstep=1 if deep else st,
                         pcap=cap if deep else 2000, pcap_pb=2 if deep else 1, reuse=1))
            if k == 1:
                r.append(run("%s, policy %d, relaxed shapes" % (name, p), y, 2, S, threads=2, len=1, mask=MASK[k] if deep else MASK[k] & ~(COPY | READ | ADD | SETF), s0=100, s1=112, sstep=1 if deep else 4,
                             pcap=cap if deep else 500, pcap_pb=2 if deep else 1, reuse=1))
        if k != 6:
            r.append(run("%s, first use" % name, x, 1, S, threads=2, len=1, mask=ADD | ADDM | SETF | SETLM | TRANS | TRANS2, s0=0, s1=1, v0=3, v1=4, cold=1, far=0, pcap=3000))
    explorer(r)
    return r


LOAD, STORE, EXCH, UPD, ASG, CONV, UPD2 = (1 << i for i in range(7))


@prop("C17")
def c17(deep):
    r = []
    every = 127
    for p, cost in ((0, 1), (2, 0), (8, 1), (3, 1)):
        x = conc("atom_conc", "POLICY=%d" % p, "ELEM=%d" % (0 if p == 8 else 1))
        r.append(run("policy %d, 1 operation each" % p, x, 2, S, threads=2, len=1, mask=every))
        if p in (0, 2):
            r.append(run("policy %d, 1 operation each, memory reused at once" % p, x, 2, S, threads=2, len=1, mask=every, reuse=1))
        if p == 2:
            r.append(run("policy 2, 2 operations each", x, 4, S, threads=2, len=2, mask=every))
            r.append(run("policy 2, 3 threads", x, 2, S, threads=3, len=1, mask=every))
            r.append(run("policy 2, 3 operations each", x, 8, S, threads=2, len=3, mask=LOAD | STORE | EXCH | UPD, pcap=0 if deep else 3000))
            r.append(run("policy 2, 3 threads, 2 operations each", x, 8, S, threads=3, len=2, mask=LOAD | STORE | EXCH | UPD, pcap=300000 if deep else 1000, pcap_pb=2 if deep else 1))
        elif p == 0:
            r.append(run("policy 0, 2 operations each", x, 8, S, threads=2, len=2, mask=LOAD | STORE | EXCH | UPD, pcap=0 if deep else 30000, pcap_pb=3))
            r.append(run("policy 0, 2 operations each, all", x, 8, S, threads=2, len=2, mask=every, pcap=10**6 if deep else 3000))
            r.append(run("policy 0, 3 threads", x, 8, S, threads=3, len=1, mask=every if deep else LOAD | STORE | EXCH | UPD, pcap=10**6 if deep else 6000, pcap_pb=3 if deep else 2))
            r.append(run("policy 0, 3 operations each", x, 8, S, threads=2, len=3, mask=LOAD | STORE | EXCH | UPD, pcap=200000 if deep else 500, pcap_pb=2 if deep else 1))
        elif deep:
            r.append(run("policy %d, 2 operations each" % p, x, 8, S, threads=2, len=2, mask=LOAD | STORE | EXCH | UPD, pcap=300000))
    explorer(r)
    return r


@prop("C18")
def c18(deep):
    r = []
    names = ["free_list_heap", "thread_local_free_list_heap", "free_list_heap_policy", "thread_local_free_list_heap, plain parent", "free_list_heap_policy, operator new",
             "debug_size_heap", "identity_heap", "split_heap", "unsafe_free_list_heap_policy", "unsafe_free_list_heap", "cpp_heap", "malloc_heap"]
    BIG, SMALL, FAIL, CLEAR = 1, 2, 4, 8
    for k, name in enumerate(names):
        listed = k in (0, 1, 2, 3, 4, 8, 9)
        for lim in (2, 1, 0) if listed else (2,):
            x = conc("heaps_conc", "HEAP=%d" % k, "LIMIT=%d" % lim)
            ops = SMALL | FAIL | CLEAR | (0 if k in (0, 1, 3, 9) else BIG)
            n = (6 if deep else 5) if lim == 2 else 4
            r.append(run("%s, limit %d, one thread" % (name, lim), x, 2 if n > 4 else 1, S, threads=1, len=n, big=ops, lists=4 if listed else 1, held=3 if listed else 1))
            r.append(run("%s, limit %d, one thread, long" % (name, lim), x, 1, S, threads=1, len=9 if deep else 8, big=0, lists=3 if listed else 1, held=1))
    for k in (0, 1, 2, 3, 4):
        for lim in (2, 1):
            x = conc("heaps_conc", "HEAP=%d" % k, "LIMIT=%d" % lim)
            r.append(run("%s, limit %d, 2 threads" % (names[k], lim), x, 2 if k else 4, S, threads=2, len=3 if lim == 2 or deep else 2, lists=3, held=2, pcap=300000 if deep else 20000))
            if lim == 2:
                r.append(run("%s, 2 threads, memory reused at once" % names[k], x, 2 if k else 4, S, threads=2, len=2, lists=3, held=2, reuse=1))
                r.append(run("%s, 3 threads" % names[k], x, 2, S, threads=3, len=2 if deep else 1, lists=3, held=2, pcap=300000 if deep else 5000))
                r.append(run("%s, 2 threads, long" % names[k], x, 8, S, threads=2, len=5 if deep else 4, lists=2, held=1, pcap=30000 if deep else 300, pcap_pb=2 if deep else 1))
    # the containers need blocks that are aligned for their nodes and for elements of 16 byte alignment
    for p in (3, 7, 8):
        for kind in (VEC, FLX, ARR):
            r.append(run("alignment of nodes, policy %d, kind %d" % (p, kind), seq(kind, policy=p, elem=5), 1, S, nmax=20, vars=3, mask=BASIC | RV, depth=1, leak=0))
    explorer(r)
    return r
