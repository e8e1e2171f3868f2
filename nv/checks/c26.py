import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
from .. import harness

ID = "C26"
RULE = (
    "hostile casts (0 to 9 bottles; any pattern of missing data, missing pressure), grids (one cast, one row, no edges, "
    "unconnected) and evaluation sites (ends, outside, NaN) x public functions, each case run three times in separate "
    "processes: compiled with index checks, on a heap filled with zeros, and on a heap filled with huge values; input "
    "arrays lie against inaccessible pages, after them (first two) or before them (third). Distinct: function group x "
    "shape x missing data patterns"
)
ASSUMPTIONS = [
    "numba's index checks see accesses past an array's end in compiled code; a negative index within the array's length is "
    "not out of bounds",
    "glibc's MALLOC_PERTURB_ fills heap blocks; blocks recycled by numpy are filled by the harness before each call",
]
REQUIRED = {"calls_checked_bounds": 5000, "calls_compared_poisoned": 5000, "fenced_arrays": 8000, "cases_judged": 300}
MODES = {"bounds": {"NUMBA_BOUNDSCHECK": "1"}, "zero": {"MALLOC_PERTURB_": "255"}, "huge": {"MALLOC_PERTURB_": "128"}}
GROUPS = {"quick": [("surf-gsw", 120), ("surf-nonlin", 150), ("surf-pchip", 150), ("arrays", 300), ("graphs", 300), ("veronis", 150)],
          "thorough": [("surf-gsw", 3000), ("surf-nonlin", 3000), ("surf-pchip", 3000), ("arrays", 12000), ("graphs", 8000), ("veronis", 4000)]}
LIMIT = {"quick": 600, "thorough": 6000}
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


def main(ctx, tier, seed):
    jobs = [(g, m, n) for g, n in GROUPS[tier] for m in MODES]
    res, viol, err = {}, [], []
    with tempfile.TemporaryDirectory(prefix="nv_") as tmp:
        running, pending = [], list(jobs)
        while pending or running:
            while pending and len(running) < harness.NPROC:
                g, m, n = pending.pop(0)
                env = {k: v for k, v in os.environ.items() if not k.startswith("NUMBA_")}
                env.update(MODES[m])
                env["PYTHONPATH"] = harness.VERIF + os.pathsep + harness.REPO
                env["PYTHONHASHSEED"] = "0"
                out = os.path.join(tmp, f"{g}-{m}")
                ef = open(out + ".err", "wb")
                p = subprocess.Popen([sys.executable, "-m", "nv.memwork", m, str(seed), g, "0", str(n), out], env=env, cwd=harness.VERIF,
                                     stdout=subprocess.DEVNULL, stderr=ef)
                running.append((g, m, out, p, time.time()))
            time.sleep(0.05)
            for r in list(running):
                g, m, out, p, t = r
                if p.poll() is None:
                    if time.time() - t > LIMIT[tier]:
                        p.kill()
                        p.wait()
                        running.remove(r)
                        err.append(f"{g} {m} did not finish in {LIMIT[tier]} s")
                    continue
                running.remove(r)
                tail = open(out + ".err", errors="replace").read()[-1500:]
                if p.returncode < 0 and -p.returncode in CRASH:
                    i = open(out + ".prog").read().strip() if os.path.exists(out + ".prog") else "?"
                    viol.append(dict(group=g, case=i, mechanism="crash", message=f"{g} case {i} ({m}): the process died of signal {-p.returncode}",
                                     detail={"stderr": tail}))
                elif p.returncode != 0:
                    err.append(f"{g} {m} failed: {tail[-600:]}")
                else:
                    res[g, m] = pickle.load(open(out, "rb"))
                    ctx.event("fenced_arrays", res[g, m]["fenced"])
    total = 0
    for g, n in GROUPS[tier]:
        a = {m: {i: (k, o) for i, k, o in res[g, m]["res"]} for m in MODES if (g, m) in res}
        for i in range(n):
            total += 1
            v = judge(ctx, g, i, {m: a[m][i] for m in a if i in a[m]})
            if v and len(viol) < 20:
                viol.append(v)
    return total, viol, err


def judge(ctx, g, i, a):
    bad = None
    ref = a.get("zero", a.get("huge"))
    for m, (k, o) in a.items():
        if k[0] == "harness":
            ctx.skipped[k[1]] += 1
            return None
    if "bounds" in a:
        for q, (tag, st, msg) in enumerate(a["bounds"][1]):
            ctx.event("calls_checked_bounds")
            # raised only by the index checks, or by what an index error turned into
            if st == "IndexError" and (ref is None or q >= len(ref[1]) or ref[1][q][1] != "IndexError"):
                bad = bad or ("out-of-bounds", f"{g} case {i}: {tag}: {msg} (index checks on; silent without)")
                break
    if "zero" in a and "huge" in a:
        x, y = a["zero"][1], a["huge"][1]
        for (tag, st, h), (tag2, st2, h2) in zip(x, y):
            ctx.event("calls_compared_poisoned")
            if tag != tag2 or st != st2 or (st == "ok" and h != h2):
                bad = bad or ("stale-memory", f"{g} case {i}: {tag} depends on what memory held before: {(st, h)} or {(st2, h2)}")
                break
        ctx.event("calls_completed", sum(s == "ok" for _, s, _ in x))
        ctx.event("calls_refused", sum(s != "ok" for _, s, _ in x))
    ctx.event("cases_judged")
    if len(a) == 3:
        ctx.bucket(*a["zero"][0])
        ctx.sample(group=g, case=i, shape=str(a["zero"][0]), calls=[t for t, _, _ in a["zero"][1]])
    if bad:
        return dict(group=g, case=i, mechanism=bad[0], message=bad[1], detail={})
    return None
