"""Workload of C27, run in a process of its own: python -m nv.detwork MODE SEED SIZE TIER OUT

MODE is 'fresh:CONF' (only the calls of one configuration, last to first), 'order' (all, in order),
'shuffle:K' (all, twice, in random order, between requests for other equations of state), or
'threads:K' (all, by 6 threads at once, each in its own order, twice).  Writes the digests of each call.
"""

import hashlib
import pickle
import random
import sys
import threading
import time
import warnings

import numpy as np
import numba as nb

from . import gen, harness, om
from .memwork import digest
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
from neutralocean.ntp import ntp_epsilon_errors_norms, ntp_epsilon_errors
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
from neutralocean.label import veronis
from neutralocean.mixed_layer import mixed_layer
from neutralocean.stability import count_unstable, stabilize_ST
from neutralocean.eos import make_eos, make_eos_s_t, make_eos_p, vectorize_eos
from neutralocean import ppinterp as pp
from neutralocean.grid import rectilinear, tripolar, graph
from neutralocean.synthocean import synthocean

QUICK = ["gsw-linear", "jmd95-pchip-bsq", "nonlin-linear", "gsw-linear-bsq", "twin-a", "twin-b"]
FULL = QUICK + ["jmd95-linear", "vol-pchip", "jmdfwg06-pchip"]
THREADED = {"quick": ["jmd95-pchip-bsq", "twin-a", "twin-b"], "thorough": FULL}
OMEGA = {"quick": ["jmd95-pchip-bsq", "nonlin-linear"], "thorough": ["gsw-linear", "jmd95-pchip-bsq", "nonlin-linear", "vol-pchip"]}


def make_twin(c):
    # two equations of state alike in name and code, not in value
    @nb.njit
    def eos(s, t, p):
        return 1000.0 + c * s - 0.2 * t + 4e-3 * p

    @nb.njit
    def eos_s_t(s, t, p):
        return c + 0.0 * s, -0.2 + 0.0 * s

    return eos, eos_s_t


TWINS = {"twin-a": make_twin(0.7), "twin-b": make_twin(0.9)}


class Conf:
    def __init__(self, name):
        if name in TWINS:
            self.e = TWINS[name]
            self.two, self.one = dict(eos=self.e), dict(eos=self.e[0])
            self.st = dict(eos_s_t=self.e[1])
            self.interp = "linear"
            self.named = (self.e[0], None, None)
        else:
            c = gen.Conf(name)
            self.two, self.one, self.interp = c.kw(), c.kw(True), c.interp
            self.st = dict(eos_s_t=c.eos_s_t)
            if c.grav is not None:
                self.st.update(grav=c.grav, rho_c=c.rho_c)
            self.named = (c.eos_fn, c.grav, c.rho_c)


def jobs(seed, size, tier):
    """List of (configuration, tag, function of no arguments), the same in every process."""
    J = []
    for name in QUICK if tier == "quick" else FULL:
        conf = Conf(name)
        for q in range(size):
            rng = harness.case_rng(seed, "C27", name, q)
            ni, nj, nk = (int(x) for x in rng.integers(3, 7, 3))
            S, T, P3, P, _ = gen.ocean(rng, (ni, nj), nk, rough=0.3, pmax=2000.0, p3d=True, land=0.1)
            good = [c for c in np.ndindex(ni, nj) if np.isfinite(S[c] + P3[c])[:2].all()]
            if not good:
                continue
            pin = good[int(rng.integers(len(good)))]
            pin_p = float(0.6 * P3[pin][0] + 0.4 * P3[pin][1])
            e = gen.rect_edges(ni, nj)
            E = len(e[0])
            grid = dict(edges=e, dist=rng.uniform(1, 2, E), distperp=rng.uniform(1, 2, E))
            tol = float(rng.choice([1e-3, 1e-5]))
            add = lambda tag, fn, *a, **k: J.append((name, tag, (fn, a, k)))
            add("potential", potential_surf, S, T, P3, grid=grid, pin_cast=pin, pin_p=pin_p, output=False, TOL_P_SOLVER=tol, **conf.two)
            add("anomaly", anomaly_surf, S, T, P3, grid=grid, pin_cast=pin, pin_p=pin_p, output=False, TOL_P_SOLVER=tol, **conf.two)
            if name in OMEGA[tier]:
                o = dict(conf.two, output=False, TOL_P_SOLVER=tol, ITER_MAX=int(rng.integers(1, 4)),
                         OMEGA_FORMULATION=str(rng.choice(["poisson", "gradient"])))
                if rng.random() < 0.5:
                    o["p_ml"] = dict(pot_dens_diff=1e-6, bottle_index=0, ref_p=0.0)
                    o["ITER_MAX"] = 1
                add("omega", omega_surf, S, T, P3, grid, pin, pin_p, **o)
                if q == 0:  # others of the same sizes, each unlike it in one argument
                    perm = rng.permutation(ni * nj)
                    twin = dict(grid, edges=tuple(perm[x] for x in e))
                    far = dict(grid, dist=grid["dist"][::-1].copy())
                    S2, T2 = S.copy(), T.copy()
                    S2[0, 0], T2[-1, -1] = S2[-1, -1] + 0.01, T2[0, 0] + 0.1
                    o1 = dict(o, ITER_MAX=2, p_ml=None, ITER_START_WETTING=1, TOL_LRPD_MAV=0.0)
                    for w, a in (("base", (S, T, P3, grid, pin, pin_p)), ("edges", (S, T, P3, twin, pin, pin_p)),
                                 ("dist", (S, T, P3, far, pin, pin_p)), ("S", (S2, T, P3, grid, pin, pin_p)),
                                 ("T", (S, T2, P3, grid, pin, pin_p)), ("P", (S, T, P3 * 1.01, grid, pin, pin_p)),
                                 ("pin_p", (S, T, P3, grid, pin, 0.97 * pin_p + 0.03 * float(P3[pin][1]))),
                                 ("pin", (S, T, P3, grid, good[0], float(0.5 * P3[good[0]][0] + 0.5 * P3[good[0]][1])))):
                        add(f"omega-{w}", omega_surf, *a, **o1)
                    for w, k in (("tol", dict(TOL_P_SOLVER=0.5)), ("form", dict(OMEGA_FORMULATION="gradient" if o1["OMEGA_FORMULATION"] == "poisson" else "poisson")),
                                 ("nowet", dict(ITER_START_WETTING=9)), ("perim", dict(ITER_WET_PERIM=1)), ("ml", dict(p_ml=np.full((ni, nj), 0.9 * pin_p)))):
                        add(f"omega-{w}", omega_surf, S, T, P3, grid, pin, pin_p, **dict(o1, **k))
            if q == 0:
                for w, a, k in (("S", (S + 0.05, T, P3), {}), ("T", (S, T - 0.1, P3), {}), ("P", (S, T, P3 * 1.01), {}), ("pin", (S, T, P3), dict(pin_p=pin_p * 1.01 + 0.1)),
                                ("tol", (S, T, P3), dict(TOL_P_SOLVER=0.5)), ("grid", (S, T, P3), dict(grid=dict(grid, edges=tuple(rng.permutation(ni * nj)[x] for x in e))))):
                    kw = dict(grid=grid, pin_cast=pin, pin_p=pin_p, output=False, TOL_P_SOLVER=tol, **conf.two)
                    add(f"potential-{w}", potential_surf, *a, **dict(kw, **k))
                    if w != "grid":
                        add(f"trajectory-{w}", neutral_trajectory, *(x[0] for x in a), k.get("pin_p", pin_p), tol_p=k.get("TOL_P_SOLVER", tol), **conf.one)
                        add(f"mixed-{w}", mixed_layer, *a, bottle_index=int("pin_p" in k), pot_dens_diff=0.01, **conf.one)
            s, t, p = rng.normal(35, 1, (ni, nj)), rng.normal(5, 2, (ni, nj)), rng.uniform(0, 2000, (ni, nj))
            add("norms", ntp_epsilon_errors_norms, s, t, p, grid, **conf.st)
            add("errors", ntp_epsilon_errors, s, t, p, grid, **conf.st)
            add("trajectory", neutral_trajectory, S[0], T[0], P3[0], pin_p, tol_p=tol, interp=conf.interp, **{k: v for k, v in conf.one.items() if k != "interp"})
            add("mixed", mixed_layer, S, T, P3, bottle_index=0, pot_dens_diff=float(rng.choice([0.01, 0.1])), **conf.one)
            add("eos", lambda f, g, r, x: [vectorize_eos(make_eos(f, g, r))(*x)], *conf.named, (s, t, p))
            if name == "nonlin-linear":
                c = pin
                add("veronis", veronis, pin_p, S[c], T[c], P3[c], dp=20.0, **conf.two)
                add("stabilize", stab, S, T, P3, make_eos(conf.named[0]))
            if isinstance(conf.named[0], str):
                g, r = float(rng.uniform(9.7, 9.9)), float(rng.uniform(1020, 1040))
                add("eos-g", lambda f, g, r, x: make_eos(f, g, r)(*x), conf.named[0], g, r, (35.0, 5.0, 1000.0))
                add("eos-st-g", lambda f, g, r, x: make_eos_s_t(f, g, r)(*x), conf.named[0], g, r, (35.0, 5.0, 1000.0))
                add("eos-p-g", lambda f, g, r, x: make_eos_p(f, g, r)(*x), conf.named[0], g, r, (35.0, 5.0, 1000.0))
            X = np.cumsum(rng.uniform(0.1, 1, (3, nk)), -1)
            for n2 in (1, 2):
                f = pp.make_pp(conf.interp, kind="u", out="interp", num_dep_vars=n2)
                add("interp", f, rng.uniform(0, nk / 2, 3), X, *(rng.normal(size=(3, nk)) for _ in range(n2)), int(rng.integers(2)))
            add("rectilinear", rectilinear.build_grid, (ni, nj), (True, False), rng.uniform(1, 2, (ni, nj)))
            add("tripolar", tripolar.build_grid, (ni, nj), *(rng.uniform(1, 2, (ni, nj)) for _ in range(4)))
            add("csr", graph.edges_to_csr, e, ni * nj)
            add("synthocean", lambda *a, **k: list(synthocean(*a, **k)), (ni, nj, nk), SSSSa=float(rng.uniform(0, 1)))
    return J


def stab(S, T, P, eos):
    S, T = S.copy(), T.copy()
    stabilize_ST(S, T, P, eos, verbose=False, min_dLRPDdp=1e-8)
    return S, T


POOL = threading.local()


def pooled(x, path=()):
    """x with its arrays copied into buffers that earlier calls also used, as in a program that works in place."""
    if isinstance(x, np.ndarray):
        d = POOL.__dict__.setdefault("d", {})
        b = d.setdefault((path, x.shape, x.dtype.str), np.empty(x.shape, x.dtype))
        b[...] = x
        return b
    if isinstance(x, dict):
        d = POOL.__dict__.setdefault("c", {})
        b = d.setdefault((path, tuple(x)), {})
        b.clear()
        b.update({k: pooled(v, path + (k,)) for k, v in x.items()})
        return b
    if isinstance(x, tuple):
        return tuple(pooled(v, path + (k,)) for k, v in enumerate(x))
    return x


def once(job):
    fn, a, k = job
    a, k = pooled((a, k))
    h = hashlib.sha256()
    try:
        digest(h, fn(*a, **dict(k)))
        return h.hexdigest()[:16]
    except Exception as e:
        return f"{type(e).__name__}: {str(e)[:100]}"

COLD = ("eos-g", "eos-st-g", "eos-p-g", "eos", "interp", "csr")  # cheap to compile: first called by all threads at once
COMPILES = ("eos-g", "eos-st-g", "eos-p-g", "eos", "veronis", "stabilize")  # compile at every call


def threads(J, res, info, key, tier):
    n = 6
    lock = threading.Lock()
    active = [0]
    bad = []
    t0 = time.time()
    seen = set()
    cold, hot = [], []
    for q, (c, tag, _) in enumerate(J):
        if c not in THREADED[tier]:
            continue
        if tag in COLD and tag not in seen:
            seen.add(tag)
            cold.append(q)
        if tag not in COMPILES:
            hot.append(q)

    def work(k, seq, interval):
        r = random.Random(f"{key}{k}")
        seq = list(seq)
        if interval:
            r.shuffle(seq)
        try:
            gate.wait()
            for q in seq:
                if interval and r.random() < 0.2:
                    time.sleep(r.random() * 2e-3)
                with lock:
                    active[0] += 1
                    info["overlaps"] += active[0] > 1
                d = once(J[q][2])
                with lock:
                    active[0] -= 1
                    res[q].append(d)
        except BaseException as e:
            bad.append(repr(e))
            gate.abort()

    def phase(seq, interval):
        th = [threading.Thread(target=work, args=(k, seq, interval)) for k in range(n)]
        for t in th:
            t.start()
        for t in th:
            t.join()

    gate = threading.Barrier(n)
    phase(cold, 0)
    info["cold_s"] = round(time.time() - t0, 1)
    for q in hot:  # compile in one thread
        res[q].append(once(J[q][2]))
    info["compiled_s"] = round(time.time() - t0, 1)
    old = sys.getswitchinterval()
    for rep in range(1 if tier == "quick" else 3):
        for interval in (1e-4, 1e-5):
            sys.setswitchinterval(interval)
            phase(hot, interval)
    sys.setswitchinterval(old)
    info["total_s"] = round(time.time() - t0, 1)
    if bad:
        raise RuntimeError(bad[0])


def main():
    mode, seed, size, tier, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    warnings.simplefilter("ignore")
    J = jobs(seed, size, tier)
    res = [[] for _ in J]
    info = dict(overlaps=0, switches=0)
    rnd = random.Random(f"{seed}{mode}")
    kind = mode.split(":")[0]
    if kind in ("fresh", "order"):
        for q, (c, tag, job) in list(enumerate(J))[:: 1 if kind == "order" else -1]:
            if kind == "order" or c == mode.split(":")[1]:
                res[q].append(once(job))
    elif kind == "shuffle":
        seq = list(range(len(J))) * 2
        if tier == "quick":  # twice, all but the most costly to compile
            seq = [q for q in range(len(J)) if J[q][1] not in ("potential", "anomaly", "omega", "trajectory") and "-" not in J[q][1]] + list(range(len(J)))
        rnd.shuffle(seq)
        names = ["gsw", "jmd95", "jmdfwg06"]
        for q in seq:
            if rnd.random() < 0.1:  # other requests, to fill and empty every cache
                n, g, r = rnd.choice(names), rnd.choice([None, 9.81, 9.8, 9.79]), rnd.choice([1030.0, 1035.0, 1027.0])
                f = rnd.choice([make_eos, make_eos_s_t, make_eos_p])
                f(n, g, None if g is None else r)
                for it in ("linear", "pchip"):
                    pp.make_pp(it, kind=rnd.choice(["1", "u"]), out=rnd.choice(["coeffs", "interp"]))
            res[q].append(once(J[q][2]))
    else:
        threads(J, res, info, f"{seed}{mode}", tier)
    pickle.dump(dict(res=[(c, t, r) for (c, t, _), r in zip(J, res)], info=info), open(out, "wb"))


if __name__ == "__main__":
    main()
