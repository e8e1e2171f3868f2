#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] : decide one property on /repo's working tree."""
import importlib
import json
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for k in [k for k in os.environ if k.startswith("NUMBA_")]:
    if not os.environ.get("NV_KEEP_NUMBA"):
        del os.environ[k]
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get("NV_REPO", "/repo"))


def main():
    from nv import harness

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import neutralocean

    root = os.path.realpath(os.path.dirname(os.path.dirname(neutralocean.__file__)))
    if root != os.path.realpath(harness.REPO):
        print(f"INCONCLUSIVE: neutralocean imported from {root}, not {harness.REPO}")
        return 3
    mod = importlib.import_module(f"nv.checks.{prop.lower()}")
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if hasattr(mod, "main") or r["case"] < 0:
            return harness.run(mod, r["tier"], r["seed"])
        ctx = harness.Ctx(prop, r["seed"], r["tier"])
        v = harness.run_case(mod, ctx, r["group"], r["case"])
        print(json.dumps(v, indent=1, ensure_ascii=False) if v else "no violation on replay")
        return 1 if v else 0
    return harness.run(mod, tier, seed)


def supervised():
    """Run main in a child, so that code under test which kills the process still gets a verdict."""
    import signal

    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            code = main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 3
        except BaseException:
            import traceback

            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    for s in (signal.SIGTERM, signal.SIGINT):
        signal.signal(s, lambda n, f: (os.kill(pid, n), sys.exit(128 + n)))
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st):
        return os.WEXITSTATUS(st)
    sig = os.WTERMSIG(st)
    if sig not in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        print(f"INCONCLUSIVE: killed by signal {sig}")
        return 3
    prop = sys.argv[1]
    d = os.path.join(here, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-1.json")
    with open(path, "w") as f:
        json.dump(
            dict(property=prop, tier=os.environ.get("VERIF_TIER", "quick"), seed=int(os.environ.get("VERIF_SEED", "1")),
                 group="first calls", case=-1, mechanism="crash", message=f"the first calls died of signal {sig}",
                 rerun=f"/opt/venv/bin/python {here}/check.py {prop}"), f, indent=1)
    print(f"  crash: the first, ordinary, calls of the code died of signal {sig}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main() if "--replay" in sys.argv else supervised())
