import os
import pickle
import subprocess
import sys
import tempfile
import time
from collections import Counter
from .. import detwork, harness

ID = "C27"
RULE = (
    "one list of calls (surfaces, trajectories, neutrality errors, labels, mixed layers, stabilisation, equations of state, "
    "interpolants, grids) x configurations, among them two alike in name and code but not in value, carried out in separate "
    "processes: alone per configuration, last call first; all in order; all in random order, between other requests that fill and empty the "
    "function caches; and by 6 threads at once. Among the calls are some alike in all but one argument; arguments are passed "
    "in the same buffers, call after call. Distinct: configuration x call x process"
)
ASSUMPTIONS = ["numba compiles the same machine code for the same function in two processes on one machine"]
REQUIRED = {"digests_compared": 600, "calls": 250, "overlapping_calls": 300, "processes": 8, "orders": 5}
SIZE = {"quick": 2, "thorough": 10}
LIMIT = {"quick": 700, "thorough": 6000}


def modes(tier):
    n = 1 if tier == "quick" else 3
    confs = detwork.QUICK if tier == "quick" else detwork.FULL
    return [f"threads:{k}" for k in range(n)] + [f"shuffle:{k}" for k in range(n)] + ["order"] + [f"fresh:{c}" for c in confs]


def main(ctx, tier, seed):
    res, viol, err = {}, [], []
    with tempfile.TemporaryDirectory(prefix="nv_") as tmp:
        running, pending = [], list(enumerate(modes(tier)))
        while pending or running:
            while pending and len(running) < harness.NPROC:
                q, m = pending.pop(0)
                env = {k: v for k, v in os.environ.items() if not k.startswith("NUMBA_")}
                env["PYTHONPATH"] = harness.VERIF + os.pathsep + harness.REPO
                env["PYTHONHASHSEED"] = str((1000 * seed + q) % 2**32)
                out = os.path.join(tmp, f"{q}")
                ef = open(out + ".err", "wb")
                p = subprocess.Popen([sys.executable, "-m", "nv.detwork", m, str(seed), str(SIZE[tier]), tier, out], env=env,
                                     cwd=harness.VERIF, stdout=subprocess.DEVNULL, stderr=ef)
                running.append((m, out, p, time.time()))
            time.sleep(0.05)
            for r in list(running):
                m, out, p, t = r
                if p.poll() is None:
                    if time.time() - t > LIMIT[tier]:
                        p.kill()
                        p.wait()
                        running.remove(r)
                        err.append(f"{m} did not finish in {LIMIT[tier]} s")
                    continue
                running.remove(r)
                tail = open(out + ".err", errors="replace").read()[-600:]
                if p.returncode < 0 and m.startswith("threads"):
                    viol.append(dict(group="all", case=m, mechanism="crash", message=f"calls in 6 threads ({m}): the process died of signal {-p.returncode}", detail={"stderr": tail}))
                elif p.returncode != 0:
                    err.append(f"{m} failed: {tail}")
                else:
                    res[m] = pickle.load(open(out, "rb"))
                    ctx.event("processes")
    ms = [m for m in modes(tier) if m in res]
    if not ms:
        return 0, viol, err
    n = len(res[ms[0]]["res"])
    for q in range(n):
        seen = {}
        for m in ms:
            c, tag, ds = res[m]["res"][q]
            for d in ds:
                seen.setdefault(d, []).append(m)
                ctx.event("digests")
            if ds:
                ctx.bucket(c, tag, m)
        total = sum(len(v) for v in seen.values())
        ctx.event("digests_compared", max(total - 1, 0))
        ctx.event("calls")
        ctx.event("calls_refused", sum(" " in d for d in seen))
        ctx.sample(configuration=c, call=tag, digests={d: dict(Counter(v)) for d, v in seen.items()})
        if len(seen) > 1 and len(viol) < 20:
            what = "; ".join(f"{d}: {dict(Counter(v))}" for d, v in seen.items())
            viol.append(dict(group=c, case=q, mechanism="not-deterministic", message=f"{c}: {tag} (call {q}) gives different results: {what[:500]}", detail={}))
    for m in ms:
        ctx.event("overlapping_calls", res[m]["info"]["overlaps"])
        ctx.event("orders")
    return n, viol, err
