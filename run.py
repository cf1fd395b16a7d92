#!/usr/bin/env python3
"""Runs the model checking of one property.

usage: run.py <property id> [quick|thorough]
Every harness is compiled from /repo's current working tree; nothing is cached across trees.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
OUT = os.environ.get("MC_OUT", VERIF)
sys.path.insert(0, VERIF)
from checks import table  # noqa: E402

CXX = "clang++-18"
if not shutil.which(CXX):
    CXX = "clang++"
HARNESS_FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=thread", "-femulated-tls", "-ftemplate-depth=2000"]
RT_FLAGS = ["-std=c++17", "-O2", "-g1", "-w"]
LINK_FLAGS = ["-no-pie"] if False else []


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


class Fail(Exception):
    pass


def sh(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")


def compile_rt(name, key):
    obj = os.path.join(BUILD, f"{name}-{key[:16]}.o")
    if not os.path.exists(obj):
        r = sh([CXX, *RT_FLAGS, "-c", os.path.join(VERIF, "engine", name + ".cpp"), "-o", obj + ".tmp"])
        if r.returncode:
            raise Fail("cannot compile the runtime %s:\n%s" % (name, r.stderr[-4000:]))
        os.rename(obj + ".tmp", obj)
    return obj


def compile_spec(spec, key, rts=None):
    """spec: (rt, source, (flags...)) -> executable"""
    rt, src, flags = spec
    h = hashlib.sha256((key + repr(spec)).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, f"{src}-{h}")
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.tmp" % threading.get_ident()
    cxx, base = CXX, HARNESS_FLAGS
    if flags and flags[0] == "g++":  # the other compiler that the library is built with
        cxx, base, flags = "g++", [f for f in HARNESS_FLAGS if f != "-femulated-tls"], flags[1:]
    r = sh([cxx, *base, "-I" + REPO, *flags, "-c", os.path.join(VERIF, "harness", src + ".cpp"), "-o", tmp + ".o"])
    if r.returncode:
        raise Fail("cannot compile %s %s:\n%s" % (src, " ".join(flags), r.stderr[:4000]))
    rto = rts[rt].result() if rts else compile_rt(rt, key)
    r = sh([CXX, tmp + ".o", rto, "-rdynamic", "-ldl", "-o", tmp])
    os.unlink(tmp + ".o")
    if r.returncode:
        raise Fail("cannot link %s:\n%s" % (src, r.stderr[:4000]))
    os.rename(tmp, exe)
    return exe


procs = set()
procs_lock = threading.Lock()
stopping = threading.Event()


def run_proc(cmd, timeout):
    if stopping.is_set():
        return None
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    with procs_lock:
        procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return (-99, out, err)
    finally:
        with procs_lock:
            procs.discard(p)
    return (p.returncode, out, err)


def kill_all():
    stopping.set()
    with procs_lock:
        for p in procs:
            try:
                p.kill()
            except OSError:
                pass


def parse(out):
    stats = viol = None
    for line in out.splitlines():
        try:
            if line.startswith("STATS "):
                stats = json.loads(line[6:])
            elif line.startswith("RAW-VIOLATION "):
                viol = json.loads(line[14:])
        except ValueError:
            viol = viol or ({"kind": "crash", "phase": "?", "msg": "garbled report: " + line[:300]} if line.startswith("RAW-") else None)
    return stats, viol


def replay_arg(v):
    if "ops" in v:
        return "replay=%d:%d:%s" % (v.get("seed", 0), v.get("fault", -1), ";".join(",".join(map(str, o)) for o in v["ops"]))
    if "schedule" in v:
        return "replay=" + v["schedule"]
    return None


def load_findings():
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) tag=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    jobs = int(os.environ.get("MC_JOBS", "0")) or min(16, os.cpu_count() or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    key = tree_hash([os.path.join(REPO, "immer"), os.path.join(VERIF, "engine"), os.path.join(VERIF, "harness")])
    entries = table.runs(pid, tier)
    limit = table.LIMIT[tier]
    only = os.environ.get("MC_ONLY")
    if only:
        entries = [e for e in entries if re.search(only, e.name)]
    verbose = bool(os.environ.get("MC_VERBOSE"))

    specs = []
    for e in entries:
        if e.spec not in specs:
            specs.append(e.spec)
    result = {"violation": None}
    lock = threading.Lock()
    agg = []
    pool = cf.ThreadPoolExecutor(jobs)
    rts = {rt: pool.submit(compile_rt, rt, key) for rt in sorted({s[0] for s in specs})}
    exes = {s: pool.submit(compile_spec, s, key, rts) for s in specs}

    def one(e, k):
        exe = exes[e.spec].result()
        if stopping.is_set():
            return
        left = int(limit - (time.time() - t0))
        secs = max(2, min(e.seconds or limit, left))
        cmd = [exe, *e.opts, "seconds=%d" % secs]
        if e.shards > 1:
            cmd += ["seed0=%d" % k, "seedstep=%d" % e.shards] if e.by == "seed" else ["shard=%d" % k, "nshards=%d" % e.shards]
        ts = time.time()
        r = run_proc(cmd, secs + 120)
        if r is None or stopping.is_set() and r[0] in (-9, -99):
            return
        rc, out, err = r
        stats, viol = parse(out)
        if viol is None and (rc != 0 or stats is None):
            if rc == -99:
                viol = {"kind": "hang", "phase": "?", "msg": "the exploration does not end"}
            else:
                viol = {"kind": "crash", "phase": "?", "msg": "the exploration ended with status %s: %s" % (rc, (err or out)[-300:])}
        with lock:
            if viol:
                if result["violation"] is None:
                    result["violation"] = (e, cmd, exe, viol)
                    kill_all()
            else:
                agg.append((e, stats, time.time() - ts))

    futs = []
    order = sorted(range(len(entries)), key=lambda i: -entries[i].weight)
    for i in order:
        for k in range(entries[i].shards):
            futs.append(pool.submit(one, entries[i], k))
    fail = None
    for f in futs:
        try:
            f.result()
        except Fail as ex:
            fail = str(ex)
            kill_all()
    pool.shutdown()
    if result["violation"] is None and fail:
        print("ERROR " + fail)
        return 2

    # findings: what the harnesses recognised as one of the listed defects
    code = 0
    violations = []
    listed = {(p, t): w for p, t, w in load_findings()}
    hits = {}
    for e, st, dt in agg:
        for t, n in (st.get("known") or {}).items():
            hits.setdefault(t, [0, e])[0] += n
    for t, (n, e) in sorted(hits.items()):
        if (pid, t) in listed:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, listed[pid, t], n))
        elif result["violation"] is None:
            result["violation"] = (e, [], exes[e.spec].result(), {"kind": "finding", "phase": "fault", "msg": "%s: %d cases, not a listed finding" % (t, n)})
    if result["violation"]:
        e, cmd, exe, v = result["violation"]
        confirmed = None
        ra = replay_arg(v)
        if ra:
            rcmd = [exe, *e.opts, ra]
            stopping.clear()
            r = run_proc(rcmd, 300)
            _, v2 = parse(r[1])
            confirmed = v2 is not None
            v["replayed"] = v2
        rdir = os.path.join(OUT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, "%s.json" % pid)
        rel = {"property": pid, "run": e.name, "violation": v, "confirmed_by_replay": confirmed,
               "spec": e.spec, "opts": e.opts, "replay": ra, "command": [os.path.relpath(x, VERIF) if x == exe else x for x in cmd]}
        with open(rpath, "w") as fh:
            json.dump(rel, fh, indent=1)
        print("%s [%s] in %s: %s" % (v.get("kind"), v.get("phase"), e.name, v.get("msg")))
        if "history" in v:
            print("  history: " + v["history"])
        print("  reproduce with: python3 %s/replay.py %s" % (VERIF, rpath))
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        violations.append({"kind": v.get("kind"), "msg": v.get("msg"), "history": v.get("history", "")[:2000], "replay": rpath})
        code = 1

    # ------------------------------------------------------------ evidence
    tot = {}
    for e, st, dt in agg:
        for k2, x in st.items():
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                if k2 in ("deepest", "max_blocks", "depth_bound", "max_threads", "most_schedules"):
                    tot[k2] = max(tot.get(k2, 0), x)
                else:
                    tot[k2] = tot.get(k2, 0) + x
    capped = sorted({e.name for e, st, _ in agg if st.get("capped")})
    per = {}
    for e, st, dt in agg:
        p = per.setdefault(e.name, {"opts": " ".join(e.opts), "build": " ".join(e.spec[2]), "harness": e.spec[1], "shards": 0,
                                    "states": 0, "transitions": 0, "cpu_s": 0.0, "complete": True})
        p["shards"] += 1
        p["states"] += st.get("states", 0)
        p["transitions"] += st.get("transitions", 0)
        for x in ("fault_runs", "schedules", "batteries", "gc_runs", "seeds", "seeds_bounded"):
            if st.get(x):
                p[x] = p.get(x, 0) + st[x]
        p["cpu_s"] = round(p["cpu_s"] + dt, 1)
        p["complete"] = p["complete"] and not st.get("capped")
    samples = []
    for e, st, dt in agg:
        for s in st.get("samples", [])[-2:]:
            if len(samples) < 20:
                samples.append({"run": e.name, "history": s[:600]})
    tr = tot.get("transitions", 0)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": int(tot.get("states", 0)),
            "transitions": int(tr),
            "traces_validated_against_impl": int(tot.get("traces", 0) + tot.get("fault_runs", 0) + tot.get("schedules", 0)),
            "fault_runs": int(tot.get("fault_runs", 0)),
            "schedules": int(tot.get("schedules", 0)),
            "programs_of_threads": int(tot.get("seeds_completed", 0)) if tot.get("schedules") else 0,
            "programs_with_preemption_bound_only": int(tot.get("seeds_bounded", 0)),
            "most_schedules_of_one_program": int(tot.get("most_schedules", 0)),
            "conflicting_accesses_checked": int(tot.get("conflicts_checked", 0)),
            "gc_collections": int(tot.get("gc_runs", 0)),
            "observation_batteries": int(tot.get("batteries", 0)),
            "duplicate_states": int(tot.get("duplicates", 0)),
            "max_history_depth": int(tot.get("deepest", 0)),
            "exhaustive": not capped and not violations,
            "incomplete_runs": capped,
            "runs": per,
            "samples": samples,
            "known_finding_cases": {t: n for t, (n, e) in hits.items()},
        },
        "wall_s": round(time.time() - t0, 1),
        "assumptions": table.assumptions(pid),
    }
    if violations:
        ev["violations"] = violations
    with open(os.path.join(OUT, "evidence", "%s.json" % pid), "w") as fh:
        json.dump(ev, fh, indent=1)
    if verbose:
        for n in sorted(per, key=lambda n: -per[n]["cpu_s"]):
            p = per[n]
            print("  %-34s %8.1f cpu s %9d states %9d transitions %s%s" % (n, p["cpu_s"], p["states"], p["transitions"],
                  "" if p["complete"] else "CAPPED ", " ".join("%s=%s" % (k2, p[k2]) for k2 in ("fault_runs", "batteries", "schedules", "gc_runs") if k2 in p)))
    print("%s %s: %d runs, %d states, %d transitions, %d fault runs, %d schedules, %s, %.1f s" % (
        pid, tier, len(agg), tot.get("states", 0), tr, tot.get("fault_runs", 0), tot.get("schedules", 0),
        "violation found" if violations else ("all complete" if not capped else "time limit reached in " + ", ".join(capped)), time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())
