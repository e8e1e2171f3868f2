"""Workload of C26, run in a process of its own: python -m nv.memwork MODE SEED GROUP START STOP OUT

MODE is 'bounds' (NUMBA_BOUNDSCHECK=1), 'zero' or 'huge' (what fresh heap memory holds, by
MALLOC_PERTURB_).  Writes, for each case, a digest of every result or the exception raised.
"""

import hashlib
import pickle
import sys
import warnings

import numpy as np

from . import gen, harness, fence
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
from neutralocean.label import veronis
from neutralocean.mixed_layer import mixed_layer
from neutralocean.stability import count_unstable
from neutralocean.eos import make_eos, vectorize_eos
from neutralocean import ppinterp as pp
from neutralocean.ppinterp.lib import diff_1d_samesize, valid_range_1, valid_range, valid_range_1_two
from neutralocean.bfs import bfs_conncomp1
from neutralocean.lib import find_first_nan, val_at, take_fill, aggsum
from neutralocean.grid import rectilinear, tripolar, graph
from neutralocean.grid.tools import divergence


def dirty(val):
    """Fill numpy's cache of small blocks, which the allocator's own pattern does not reach."""
    x = [np.full(n, val) for n in range(1, 129) for _ in range(4)]
    del x


def digest(h, x):
    if isinstance(x, dict):
        for k in sorted(x):
            if not str(k).startswith("timer"):
                digest(h, x[k])
    elif isinstance(x, (tuple, list)):
        for v in x:
            digest(h, v)
    elif x is None:
        h.update(b"None")
    else:
        a = np.asarray(x)
        if a.dtype.kind == "f":
            a = np.where(np.isnan(a), np.nan, a)
        h.update(repr((a.shape, a.dtype.str)).encode() + a.tobytes())


class Run:
    def __init__(self, mode):
        self.mode = mode
        self.out = []
        self.val = {"zero": 0.0, "huge": 1e300, "bounds": np.nan}[mode]
        self.fence = fence.Fence("start" if mode == "huge" else "end")

    def __call__(self, tag, fn, *a, **k):
        dirty(self.val)
        try:
            r = fn(*a, **k)
            h = hashlib.sha256()
            digest(h, r)
            self.out.append((tag, "ok", h.hexdigest()[:16]))
            return r
        except Exception as e:
            self.out.append((tag, type(e).__name__, str(e)[:160]))
            return None


def holes(rng, S, T, P, p3d):
    """Any pattern of missing data, cast by cast."""
    nk = S.shape[-1]
    kinds = set()
    for c in np.ndindex(S.shape[:-1]):
        u = int(rng.integers(9))
        m = np.zeros(nk, bool)
        if u == 1:
            m[:] = True
        elif u == 2:
            m[:] = True
            m[rng.integers(nk)] = False
        elif u == 3:
            m[rng.integers(nk):] = True
        elif u == 4:
            m[: rng.integers(nk) + 1] = True
        elif u == 5:
            m = rng.random(nk) < 0.5
        elif u == 6 and p3d:
            P[c][rng.integers(nk):] = np.nan
        elif u == 7:
            m[-1] = True
        S[c][m] = T[c][m] = np.nan
        kinds.add(u)
    return kinds


def surf(run, conf, rng):
    nk = int(rng.choice([1, 2, 2, 3, 4, 7]))
    shp = [(1, 1), (1, 2), (1, 5), (3, 1), (2, 3), (4, 4)][int(rng.integers(6))]
    S, T, P3, Parg, _ = gen.ocean(rng, shp, nk, holes=False, p3d=True, rough=float(rng.choice([0, 0.5])))
    N = shp[0] * shp[1]
    kinds = holes(rng, S, T, P3, True)
    F = run.fence
    S, T, P3 = F(S), F(T), F(P3)
    g = int(rng.integers(4))
    if g == 0:
        e = gen.rect_edges(*shp)
    elif g == 1 and N > 1:
        e = gen.random_tree(rng, N)
    elif g == 2 and N > 1:
        e = gen.random_graph(rng, N, N)
        k = rng.random(len(e[0])) < 0.5  # unconnected
        e = (e[0][k], e[1][k])
    else:
        e = (np.zeros(0, int), np.zeros(0, int))
    e = (F(e[0]), F(e[1])) if len(e[0]) else e
    E = len(e[0])
    grid = {"edges": e, "dist": F(rng.uniform(1, 2, E)), "distperp": F(rng.uniform(1, 2, E))}
    ok = [c for c in np.ndindex(shp) if np.isfinite(S[c] + P3[c]).sum() > 1]
    pin = ok[int(rng.integers(len(ok)))] if ok else (0, 0)
    q = P3[pin][np.isfinite(S[pin] + P3[pin])]
    lo, hi = (q[0], q[-1]) if len(q) else (0.0, 1.0)
    pp_ = float(rng.choice([lo, hi, rng.uniform(lo, hi)]))
    kw = dict(output=False, **conf.kw())
    for fn in (potential_surf, anomaly_surf):
        run(fn.__name__, fn, S, T, P3, grid=grid, pin_cast=pin, pin_p=pp_, **kw)
        ref = float(rng.uniform(0, 2000)) if fn is potential_surf else (35.0, 5.0)
        iso = float(conf.ref(35.0, 5.0, 500.0)) if fn is potential_surf else float(rng.normal() * 1e-4 * conf.ref.scale)
        run(fn.__name__, fn, S, T, P3, grid=grid, ref=ref, isoval=iso, **kw)
    p0 = pp_ + rng.normal(size=shp) * 0.1 * (hi - lo)
    p0[rng.random(shp) < 0.3] = np.nan
    p0[pin] = pp_
    for start in (pp_, F(p0)):
        o = dict(kw, ITER_MAX=int(rng.integers(1, 4)))
        if rng.random() < 0.3:
            o["OMEGA_FORMULATION"] = "gradient"
        if rng.random() < 0.3:
            o["p_ml"] = F(rng.uniform(0, 0.5, shp) * pp_)
        r = run("omega_surf", omega_surf, S, T, P3, grid, pin, start, **o)
    k = dict(eos_s_t=conf.eos_s_t, **{x: kw[x] for x in ("grav", "rho_c") if x in kw})
    s, t, p = (F(x) for x in (rng.normal(35, 1, shp), rng.normal(5, 1, shp), p0))
    run("ntp_epsilon_errors", ntp_epsilon_errors, s, t, p, grid, **k)
    run("ntp_epsilon_errors_norms", ntp_epsilon_errors_norms, s, t, p, grid, **k)
    k1 = conf.kw(True)
    S2, T2, P2 = (F(x.reshape(N, nk)) for x in (S, T, P3))
    run("neutral_trajectory", neutral_trajectory, S2, T2, P2, pp_, **k1)
    for c in ok[:2] + [(0, 0)]:
        run("ntp_bottle_to_cast", ntp_bottle_to_cast, 35.0, 5.0, float(rng.choice([pp_, -5.0, 1e5, np.nan])), F(S[c]), F(T[c]), F(P3[c]), **k1)
    run("mixed_layer", mixed_layer, S, T, P3, bottle_index=0, **k1)
    run("count_unstable", count_unstable, S, T, P3, eos=vectorize_eos(make_eos(conf.eos_fn, conf.grav, conf.rho_c)))
    return ("surf", conf.name, nk, shp, g, tuple(sorted(kinds)))


def arrays(run, conf, rng):
    n = int(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 9]))
    sh = [(), (1,), (3,), (2, 2)][int(rng.integers(4))]
    F = run.fence
    X = np.cumsum(rng.uniform(0.1, 1, sh + (n,)), -1)
    Y = rng.normal(size=sh + (n,))
    Z = rng.normal(size=sh + (n,))
    kinds = ()
    if n:
        kinds = tuple(sorted(holes(rng, Y.reshape((-1, n)) if sh == () else Y, Z.reshape((-1, n)) if sh == () else Z,
                                   X.reshape((-1, n)) if sh == () else X, True)))
    X, Y, Z = F(X), F(Y), F(Z)
    x = rng.uniform(-0.5, max(n, 1), sh)
    u = rng.random(sh)
    fin = X.reshape(-1)[np.isfinite(X.reshape(-1))]
    if fin.size:
        x = np.where(u < 0.2, fin[-1], np.where(u < 0.4, fin[0], np.where(u < 0.5, np.nan, x)))
    x = F(x) if sh else float(x)
    for it in ("linear", "pchip"):
        C, D = None, None
        if n > 1:
            C = run(f"{it}_coeffs", pp.make_pp(it, kind="u", out="coeffs"), X, Y)
            D = run(f"{it}_coeffs", pp.make_pp(it, kind="u", out="coeffs"), X, Z)
        for d in (0, 1, int(rng.integers(2, 5))):
            run(f"{it}_interp", pp.make_pp(it, kind="u", out="interp"), x, X, Y, d)
            run(f"{it}_interp_two", pp.make_pp(it, kind="u", out="interp", num_dep_vars=2), x, X, Y, Z, d)
            if C is not None and D is not None:
                run("ppval", pp.ppval, x, X, F(C), d)
                run("ppval_two", pp.ppval_two, x, X, F(C), F(D), d)
        X1, Y1, Z1 = (F(a.reshape(-1, n)[0]) if n else np.zeros(0) for a in (X, Y, Z))
        x1 = float(np.ravel(x)[0])
        run(f"{it}_interp_1", pp.make_pp(it, kind="1", out="interp"), x1, X1, Y1, 0)
        run(f"{it}_interp_1_two", pp.make_pp(it, kind="1", out="interp", num_dep_vars=2), x1, X1, Y1, Z1, 1)
        c1 = run(f"{it}_coeffs_1", pp.make_pp(it, kind="1", out="coeffs"), X1, Y1)
        if c1 is not None and n > 1:
            run("ppval_1", pp.ppval_1, x1, X1, F(c1), 0)
        k, K = valid_range_1(X1 + Y1) if n else (0, 0)
        if K - k > 0:
            c2 = run(f"{it}_coeffs_1_nonan", pp.make_pp(it, kind="1", out="coeffs", nans=False), F(X1[k:K]), F(Y1[k:K]))
            if c2 is not None and K - k > 1:
                run("ppval_1_nonan", pp.ppval_1_nonan, x1, F(X1[k:K]), F(c2), 0)
                run("ppval_1_nonan_two", pp.ppval_1_nonan_two, x1, F(X1[k:K]), F(c2), F(c2), 0)
    run("valid_range_1", valid_range_1, Y1)
    run("valid_range_1_two", valid_range_1_two, X1, Y1)
    run("diff", diff_1d_samesize, X1)
    if n:
        run("valid_range", valid_range, Y)
    run("find_first_nan", find_first_nan, Y)
    if n:
        run("val_at", val_at, Y, rng.integers(-1, n, sh))
        run("take_fill", take_fill, Y, F(rng.integers(-1, Y.size, 7)))
    run("aggsum", aggsum, F(rng.integers(0, 9, 7).astype(float)), F(rng.integers(-1, 3, 7)), 3)
    return ("arrays", n, sh, kinds)


def graphs(run, conf, rng):
    F = run.fence
    n = int(rng.integers(1, 12))
    a, b = gen.random_graph(rng, n, n) if n > 1 else (np.zeros(0, int), np.zeros(0, int))
    k = rng.random(len(a)) < rng.random()
    a, b = a[k], b[k]
    e = (F(a), F(b)) if len(a) else (a, b)
    r = run("edges_to_csr", graph.edges_to_csr, e, n)
    if r is not None:
        good = rng.random(n) < rng.random()
        ip, ix = r
        run("bfs_conncomp1", bfs_conncomp1, F(ip), F(ix) if len(ix) else ix, int(rng.integers(n)), F(good))
    if len(a):
        run("edges_to_csr", graph.edges_to_csr, e)
        run("edges_to_graph", lambda: graph.edges_to_graph(e, n).toarray())
        m = max(a.max(), b.max()) + 1
        run("divergence", divergence, F(rng.normal(size=len(a))), e, F(rng.uniform(1, 2, len(a))), F(rng.uniform(1, 2, m)))
        run("graph_binary_fcn", graph.graph_binary_fcn, e, F(rng.normal(size=n)), DIFF)
    d = tuple(int(x) for x in rng.integers(1, 5, 2))
    per = tuple(bool(x) and d[q] > 1 for q, x in enumerate(rng.integers(0, 2, 2)))
    g = run("rectilinear", rectilinear.build_grid, d, per, F(rng.uniform(1, 2, d)), 2.0)
    if g is not None:
        run("rectilinear maps", rectilinear.edgedata_to_maps, F(rng.normal(size=len(g["edges"][0]))) if len(g["edges"][0]) else np.zeros(0), d, per)
    d2 = (d[0], d[1] + 1)
    g = run("tripolar", tripolar.build_grid, d2, *(F(rng.uniform(1, 2, d2)) for _ in range(4)))
    if g is not None:
        run("tripolar maps", tripolar.edgedata_to_maps, F(rng.normal(size=len(g["edges"][0]))), d2)
    return ("graphs", n, len(a), d, per)


def vero(run, conf, rng):
    F = run.fence
    nk = int(rng.choice([2, 2, 3, 5]))
    S, T, P3, _, _ = gen.ocean(rng, (1,), nk, holes=False, p3d=True)
    kinds = holes(rng, S, T, P3, True)
    S, T, P = F(S[0]), F(T[0]), F(P3[0])
    q = P[np.isfinite(S + P)]
    lo, hi = (q[0], q[-1]) if len(q) else (0.0, 100.0)
    for _ in range(4):
        p1, p0 = (float(rng.choice([lo, hi, rng.uniform(lo, hi), lo - 5, hi + 5])) for _ in range(2))
        run("veronis", veronis, p1, S, T, P, p0=p0, dp=float((hi - lo + 1) / rng.integers(1, 20)), **conf.kw())
    return ("veronis", nk, tuple(kinds))


import numba as nb


@nb.njit
def DIFF(x, y):
    return x - y


GROUPS = {"surf-nonlin": (surf, "nonlin-linear"), "surf-pchip": (surf, "vol-pchip"), "surf-gsw": (surf, "gsw-linear"), "arrays": (arrays, "lin-linear"),
          "graphs": (graphs, "lin-linear"), "veronis": (vero, "nonlin-linear")}


def main():
    mode, seed, group, start, stop, out = sys.argv[1:7]
    import faulthandler

    faulthandler.enable()
    warnings.simplefilter("ignore")
    run = Run(mode)
    fn, conf = GROUPS[group]
    conf = gen.Conf(conf)
    res = []
    prog = open(out + ".prog", "w")
    for i in range(int(start), int(stop)):
        prog.seek(0)
        prog.write(f"{i:>12d}")
        prog.flush()
        rng = harness.case_rng(int(seed), "C26", group, i)
        run.out = []
        try:
            key = fn(run, conf, rng)
        except Exception as e:
            key = ("harness", repr(e)[:200])
        res.append((i, key, run.out))
        run.fence.free()
    pickle.dump(dict(res=res, fenced=run.fence.n), open(out, "wb"))


if __name__ == "__main__":
    main()
