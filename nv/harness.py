"""Runner shared by all checks: seeded cases, forked workers, monitors, evidence, replay.

A check module (nv.checks.cNN) defines
    ID, RULE, ASSUMPTIONS     strings describing what is generated and trusted
    REQUIRED                  {event name: minimum} below which a run is inconclusive
    groups(tier)              list of (group name, number of cases)
    case(ctx, group, i, rng)  drives the real code once and judges what it did
A case draws everything from `rng`, which depends only on (VERIF_SEED, property, group, i), so a
replay file needs nothing but these.
"""

import faulthandler
import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NV_REPO", "/repo")
NPROC = int(os.environ.get("NV_PROCS", "8"))
STALL = float(os.environ.get("NV_STALL", "240"))  # s without finishing a case


def stall(mod):
    return getattr(mod, "STALL", STALL)


class Violation(Exception):
    """Raised by a monitor: the property is broken by this execution."""

    def __init__(self, mechanism, message, detail=None):
        super().__init__(message)
        self.mechanism = mechanism
        self.message = message
        self.detail = detail or {}


class Skip(Exception):
    """The generated case is outside the property's scope (counted, never judged)."""


def _js(x, depth=0):
    import numpy as np

    if isinstance(x, np.ndarray):
        if x.size > 64:
            return {"shape": list(x.shape), "head": _js(x.reshape(-1)[:16].tolist())}
        return _js(x.tolist())
    if isinstance(x, (np.floating,)):
        x = float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else str(x)
    if isinstance(x, (int, str, bool, type(None))):
        return x
    if isinstance(x, dict):
        return {str(k): _js(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_js(v, depth + 1) for v in list(x)[:64]]
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.events = Counter()
        self.buckets = set()
        self.samples = []
        self.skipped = Counter()

    # -- what monitors observed
    def event(self, name, n=1):
        self.events[name] += int(n)

    def bucket(self, *key):
        """A distinct non-trivial situation in which the deciding oracle gave a verdict."""
        self.buckets.add(repr(key))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(_js(kw))

    # -- verdicts
    def fail(self, mechanism, message, **detail):
        raise Violation(mechanism, message, detail)

    def check(self, cond, mechanism, message, **detail):
        self.events["judgements"] += 1
        if not cond:
            raise Violation(mechanism, message, detail)

    def close(self, got, exp, mechanism, message, rtol=1e-9, atol=0.0, **detail):
        """got == exp elementwise, NaN where NaN, within rtol*|exp| + atol."""
        import numpy as np

        self.events["judgements"] += 1
        got = np.asarray(got, dtype=float)
        exp = np.asarray(exp, dtype=float)
        if got.shape != exp.shape:
            raise Violation(
                mechanism, f"{message}: shape {got.shape}, expected {exp.shape}", detail
            )
        with np.errstate(all="ignore"):
            bad = ~(
                (np.isnan(got) & np.isnan(exp))
                | (got == exp)
                | (np.abs(got - exp) <= rtol * np.abs(exp) + atol)
            )
        if np.any(bad):
            k = tuple(int(x[0]) for x in np.nonzero(bad)) if bad.ndim else ()
            raise Violation(
                mechanism,
                f"{message}: at {k} got {got[k]!r}, expected {exp[k]!r}"
                f" ({int(bad.sum())} of {bad.size} differ)",
                detail,
            )

    def call(self, what, fn, *a, **k):
        """Call the code under test with input it documents as valid: it must not raise."""
        self.events["calls"] += 1
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except MemoryError:
            raise
        except Exception as e:
            raise Violation(
                "raised",
                f"{what} raised {type(e).__name__}: {str(e)[:300]}",
                {"traceback": traceback.format_exc()[-1500:]},
            )


def case_rng(seed, prop, group, i):
    import numpy as np

    h = hashlib.sha256(f"{seed}|{prop}|{group}|{i}".encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))


def run_case(mod, ctx, group, i):
    """Run one case. Returns None, or a dict describing the violation."""
    rng = case_rng(ctx.seed, mod.ID, group, i)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.case(ctx, group, i, rng)
        return None
    except Skip as e:
        ctx.skipped[str(e)] += 1
        return None
    except MemoryError:
        raise
    except Violation as v:
        return dict(
            group=group, case=i, mechanism=v.mechanism, message=v.message, detail=_js(v.detail)
        )
    except Exception as e:  # the code under test handed back something unusable
        return dict(
            group=group,
            case=i,
            mechanism="unusable-result",
            message=f"judging failed: {type(e).__name__}: {str(e)[:300]}",
            detail={"traceback": traceback.format_exc()[-2000:]},
        )


def _worker(mod, seed, tier, group, start, stop, out, prog):
    """Child process: run cases start..stop of a group; write result to `out`."""
    faulthandler.enable()
    ctx = Ctx(mod.ID, seed, tier)
    viol = []
    n = 0
    for i in range(start, stop):
        os.pwrite(prog, f"{i:>20d}".encode(), 0)
        v = run_case(mod, ctx, group, i)
        n += 1
        if v is not None:
            viol.append(v)
            if len(viol) >= 3:
                break
    with open(out, "wb") as f:
        pickle.dump(
            dict(
                n=n,
                events=ctx.events,
                buckets=ctx.buckets,
                samples=ctx.samples,
                skipped=ctx.skipped,
                violations=viol,
            ),
            f,
        )


def _spawn(mod, seed, tier, group, start, stop, tmp, k):
    out = os.path.join(tmp, f"r{k}.pkl")
    pf = os.path.join(tmp, f"p{k}")
    ef = os.path.join(tmp, f"e{k}")
    prog = os.open(pf, os.O_RDWR | os.O_CREAT)
    os.pwrite(prog, f"{-1:>20d}".encode(), 0)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            fd = os.open(ef, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            _worker(mod, seed, tier, group, start, stop, out, prog)
            code = 0
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    return dict(
        pid=pid, out=out, prog=prog, err=ef, group=group, start=start, stop=stop, last=None,
        since=time.time(),
    )


def _cpu(pid):
    """Processor time used by a process, in s (0 if unknown)."""
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def _stuck(mod, pid, since, cpu0):
    """No progress for long: of processor time, so that a busy machine raises no alarm, or waiting idly."""
    w = time.time() - since
    return w > stall(mod) and (_cpu(pid) - cpu0 > 0.7 * stall(mod) or w > 2 * stall(mod))


def _confirm_hang(mod, seed, tier, group, i, tmp):
    """Re-run a stalled case alone; True if it stalls again."""
    j = _spawn(mod, seed, tier, group, i, i + 1, tmp, f"hang{i}")
    t0 = time.time()
    while not _stuck(mod, j["pid"], t0, 0.0):
        pid, st = os.waitpid(j["pid"], os.WNOHANG)
        if pid:
            return False
        time.sleep(0.2)
    os.kill(j["pid"], signal.SIGKILL)
    os.waitpid(j["pid"], 0)
    return True


def run(mod, tier, seed):
    t0 = time.time()
    if hasattr(mod, "warm"):  # ordinary calls, compiled before the cases are divided among processes
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mod.warm()
        except MemoryError:
            raise
        except Exception as e:
            v = dict(group="first calls", case=-1, mechanism="raised",
                     message=f"the first, ordinary, calls raised {type(e).__name__}: {str(e)[:300]}",
                     detail={"traceback": traceback.format_exc()[-2000:]})
            return finish(mod, tier, seed, t0, Ctx(mod.ID, seed, tier), 0, [v], [])
    if hasattr(mod, "main"):  # checks that need their own processes (sanitizer builds, threads)
        ctx = Ctx(mod.ID, seed, tier)
        n, viol, err = mod.main(ctx, tier, seed)
        return finish(mod, tier, seed, t0, ctx, n, viol, err)

    jobs = []
    for g, n in mod.groups(tier):
        per = getattr(mod, "SHARD", {}).get(tier, 10**9) if hasattr(mod, "SHARD") else 10**9
        if isinstance(per, dict):
            per = per.get(g, 10**9)
        k = max(1, -(-n // per))
        for a in range(k):
            jobs.append((g, a * n // k, (a + 1) * n // k))
    ctx = Ctx(mod.ID, seed, tier)
    viol, err, total, nrun = [], [], 0, 0
    with tempfile.TemporaryDirectory(prefix="nv_") as tmp:
        pending, running, k, again = list(jobs), [], 0, set()
        while pending or running:
            while pending and len(running) < NPROC:
                g, a, b = pending.pop(0)
                running.append(_spawn(mod, seed, tier, g, a, b, tmp, k))
                k += 1
            time.sleep(0.05)
            for j in list(running):
                pid, st = os.waitpid(j["pid"], os.WNOHANG)
                cur = int(os.pread(j["prog"], 20, 0) or b"-1")
                if not pid:
                    if cur != j["last"]:
                        j["last"], j["since"], j["cpu"] = cur, time.time(), _cpu(j["pid"])
                    elif _stuck(mod, j["pid"], j["since"], j.get("cpu", 0.0)):
                        os.kill(j["pid"], signal.SIGKILL)
                        os.waitpid(j["pid"], 0)
                        running.remove(j)
                        os.close(j["prog"])
                        if _confirm_hang(mod, seed, tier, j["group"], cur, tmp):
                            viol.append(
                                dict(
                                    group=j["group"], case=cur, mechanism="hang",
                                    message=f"the call never returned (twice {stall(mod):.0f} s)",
                                    detail={},
                                )
                            )
                            for o in running:  # one is enough
                                os.kill(o["pid"], signal.SIGKILL)
                                os.waitpid(o["pid"], 0)
                            running, pending = [], []
                        elif (j["group"], j["start"]) in again:
                            err.append(f"{j['group']}:{cur} stalled, but not alone")
                        else:  # a busy machine: once more from the start
                            again.add((j["group"], j["start"]))
                            pending.append((j["group"], j["start"], j["stop"]))
                        break
                    continue
                running.remove(j)
                os.close(j["prog"])
                if os.WIFSIGNALED(st):
                    sig = os.WTERMSIG(st)
                    tail = open(j["err"], errors="replace").read()[-1500:]
                    if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                               signal.SIGILL):
                        viol.append(
                            dict(
                                group=j["group"], case=cur, mechanism="crash",
                                message=f"the process died of signal {sig}",
                                detail={"stderr": tail},
                            )
                        )
                    else:
                        err.append(f"worker {j['group']} killed by signal {sig}")
                elif os.WEXITSTATUS(st) != 0:
                    err.append(
                        f"worker {j['group']} failed: "
                        + open(j["err"], errors="replace").read()[-800:]
                    )
                else:
                    r = pickle.load(open(j["out"], "rb"))
                    total += r["n"]
                    ctx.events.update(r["events"])
                    ctx.buckets |= r["buckets"]
                    ctx.skipped.update(r["skipped"])
                    if len(ctx.samples) < 4:
                        ctx.samples += r["samples"][: 4 - len(ctx.samples)]
                    viol += r["violations"]
    return finish(mod, tier, seed, t0, ctx, total, viol, err)


def known_findings(prop):
    """Entries `known: property=<id> mechanism=<m> <text>` of KNOWN_FINDINGS.txt."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split()
            if len(w) > 3 and w[0] == "known:" and w[1] == f"property={prop}":
                out[w[2].split("=", 1)[1]] = " ".join(w[3:])
    return out


def finish(mod, tier, seed, t0, ctx, total, viol, err):
    prop = mod.ID
    known = known_findings(prop)
    new = [v for v in viol if v["mechanism"] not in known]
    old = {v["mechanism"] for v in viol if v["mechanism"] in known}
    missing = {
        k: (ctx.events.get(k, 0), m)
        for k, m in getattr(mod, "REQUIRED", {}).items()
        if ctx.events.get(k, 0) < m
    }
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=int(total),
            distinct_nontrivial=len(ctx.buckets),
            rule=mod.RULE,
            samples=ctx.samples or [{"note": "no sample recorded"}],
            monitor_events=dict(sorted(ctx.events.items())),
            out_of_scope=dict(ctx.skipped),
        ),
        assumptions=mod.ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for m in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {known[m]}")
    print(
        f"{prop} {tier} seed={seed}: {total} cases, {sum(ctx.events.values())} monitor events,"
        f" {len(ctx.buckets)} distinct situations, {len(new)} violations,"
        f" {time.time() - t0:.1f} s"
    )
    if new:
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in new:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            path = os.path.join(rd, f"{prop}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(property=prop, seed=seed, tier=tier,
                         rerun=f"/opt/venv/bin/python {VERIF}/check.py {prop} --replay {path}", **v),
                    f, indent=1, ensure_ascii=False,
                )
            print(f"  {v['mechanism']}: {v['message'][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if err:
        print("INCONCLUSIVE: " + "; ".join(err)[:1500])
        return 3
    if missing:
        print(f"INCONCLUSIVE: monitors observed too little: {missing}")
        return 3
    return 0
