"""Workloads and oracles for omega surfaces."""

import numpy as np
from . import gen, ref
from .harness import Skip
from neutralocean.surface import omega_surf

BIG = 10**6


class Setup:
    pass


def setup(rng, conf, kind=None, holes=True, uniform=None, hgrad=None, rough=0.0, nmax=30, land=0.1, n=None):
    """A random ocean on a random grid with a pinning cast that is ocean."""
    o = Setup()
    o.conf = conf
    o.kind = kind or str(rng.choice(["rect", "rect-periodic", "tree", "graph", "basins"]))
    if o.kind.startswith("rect"):
        ni, nj = int(rng.integers(1, 7)), int(rng.integers(2, 7))
        o.hshape = (ni, nj)
        per = (bool(rng.integers(2)) and ni > 2, bool(rng.integers(2)) and nj > 2) if o.kind != "rect" else (False, False)
        o.edges = gen.rect_edges(ni, nj, per)
    else:
        n = n or int(rng.integers(2, nmax))
        o.hshape = (n,) if rng.random() < 0.5 else (1, n)
        if o.kind == "chain":
            o.edges = (np.arange(n - 1), np.arange(1, n))
        elif o.kind == "layers":
            o.edges, o.first = gen.layered(rng, n)
        elif o.kind == "tree":
            o.edges = gen.random_tree(rng, n)
        elif o.kind == "basins":  # graphs that no edge joins, not even by way of land
            cut = np.unique(np.r_[0, rng.integers(1, n, int(rng.integers(1, 4))), n])
            q = rng.permutation(n)
            parts = [gen.random_graph(rng, int(b - a), int(rng.integers(0, b - a))) for a, b in zip(cut[:-1], cut[1:])]
            o.edges = tuple(np.concatenate([q[a + np.asarray(e[k], dtype=int)] for a, e in zip(cut, parts)]) for k in (0, 1))
            land, holes = (0.0, False) if rng.random() < 0.5 else (land, holes)
        else:
            o.edges = gen.random_graph(rng, n, int(rng.integers(0, n)))
    # always a 2D horizontal shape, so as not to compile anew
    if len(o.hshape) == 1:
        o.hshape = (o.hshape[0], 1)
    o.N = int(np.prod(o.hshape))
    E = len(o.edges[0])
    nk = int(rng.choice([3, 5, 9, 16]))
    o.S, o.T, o.P3, o.P, o.tags = gen.ocean(
        rng, o.hshape, nk, rough=rough, holes=holes, land=land,
        hgrad=float(rng.choice([0.05, 0.3, 1.0])) if hgrad is None else hgrad)
    uniform = bool(rng.random() < 0.25) if uniform is None else uniform
    o.grid = {"edges": o.edges}
    if uniform:
        o.dist, o.distperp = 1.0, 1.0
    else:
        f = rng.uniform(-1, 4)
        o.dist = rng.uniform(0.5, 2.0, E) * 10**f
        o.distperp = rng.uniform(0.5, 2.0, E) * 10 ** (f + rng.uniform(-0.5, 0.5))
        k = int(rng.integers(8))
        if k == 0:  # one number for all edges
            o.dist = float(o.dist[0]) if E else 10**f
        if k == 0 or k == 1:
            o.distperp = float(o.distperp[0]) if E else 2 * 10**f
        o.grid["dist"], o.grid["distperp"] = o.dist, o.distperp
    o.w = np.broadcast_to(np.asarray(o.distperp / o.dist, dtype=float), E)
    o.casts = [ref.Cast(o.S[c], o.T[c], o.P3[c], conf.interp) for c in np.ndindex(o.hshape)]
    good = [k for k in range(o.N) if o.casts[k].ok]
    if o.kind == "layers":
        good = [k for k in good if k == o.first]
    if not good:
        raise Skip("no ocean")
    o.pin = int(good[int(rng.integers(len(good)))])
    o.pin_cast = tuple(int(x) for x in np.unravel_index(o.pin, o.hshape))
    c = o.casts[o.pin]
    o.pin_p = float(rng.uniform(c.P[0] + 0.05 * (c.P[-1] - c.P[0]), c.P[-1] - 0.05 * (c.P[-1] - c.P[0])))
    o.tol = float(rng.choice([1e-4, 1e-4, 1e-6]))
    return o


def init_surface(rng, o, smooth=None):
    """An initial surface given as an array: near the pinning pressure, NaN at random casts."""
    p = np.full(o.N, np.nan)
    amp = float(rng.choice([0.01, 0.1, 0.4])) if smooth is None else smooth
    for k in range(o.N):
        c = o.casts[k]
        if c.ok:
            x = o.pin_p + amp * (c.P[-1] - c.P[0]) * rng.normal()
            p[k] = min(max(x, c.P[0]), c.P[-1]) if rng.random() < 0.9 else x
    p[rng.random(o.N) < float(rng.choice([0.0, 0.1, 0.3]))] = np.nan
    if rng.random() < 0.2:  # finite over land, as an isobar given everywhere
        p[np.isnan(p)] = o.pin_p
    p[o.pin] = o.pin_p
    return p.reshape(o.hshape)


def run(ctx, o, p_init, **kw):
    k = dict(output=False, TOL_P_SOLVER=o.tol, **o.conf.kw())
    k.update(kw)
    return ctx.call("omega_surf", omega_surf, o.S, o.T, o.P, o.grid, o.pin_cast, p_init, **k)


def start_state(o, p_init):
    """s, t, p of an initial surface given as an array."""
    p = np.asarray(p_init, dtype=float).reshape(-1).copy()
    s, t = np.full(o.N, np.nan), np.full(o.N, np.nan)
    for k in range(o.N):
        if o.casts[k].ok and np.isfinite(p[k]):
            s[k], t[k] = o.casts[k].st(p[k])
    p[np.isnan(s)] = np.nan
    return s, t, p


def solve_phi(o, s, t, p):
    """Least-squares density perturbation on the pin's component of the wet casts; NaN elsewhere."""
    comp = ref.component(o.edges, np.isfinite(p), o.pin)
    phi = np.full(o.N, np.nan)
    if not comp.any():
        return phi, comp
    idx = np.flatnonzero(comp)
    pos = np.full(o.N, -1)
    pos[idx] = np.arange(len(idx))
    a, b = (np.asarray(x, dtype=int) for x in o.edges)
    g = comp[a] & comp[b]
    a, b, w = a[g], b[g], o.w[g]
    e = ref.epsilon(o.conf.ref, s, t, p, (a, b)) if len(a) else np.zeros(0)
    A = np.zeros((len(a) + 1, len(idx)))
    r = np.sqrt(w)
    A[np.arange(len(a)), pos[a]] -= r
    A[np.arange(len(a)), pos[b]] += r
    rhs = np.concatenate((-e * r, [0.0]))
    A[-1, pos[o.pin]] = np.max(r) if len(r) else 1.0
    phi[idx] = np.linalg.lstsq(A, rhs, rcond=None)[0]
    phi[idx] -= phi[o.pin]
    return phi, comp


def judge_update(ctx, o, old, phi, comp, new, what, slack_phi, tol_old=0.0):
    """`new` is `old` with the density of each cast of the component raised by phi."""
    s0, t0, p0 = old
    s1, t1, p1 = (np.asarray(x).reshape(-1) for x in new)
    m = np.nanmax(np.abs(phi)) if np.isfinite(phi).any() else 0.0
    for k in range(o.N):
        if not comp[k]:
            ctx.check(np.isnan(p1[k]), "wet-outside",
                      f"{what}: cast {k} is not connected to the pinning cast but is wet, p = {p1[k]}")
            ctx.event("outside_casts_judged")
            continue
        if k == o.pin:
            ctx.check(p1[k] == p0[k], "pin-moved", f"{what}: pinning cast moved {p0[k]} -> {p1[k]}")
            continue
        c = o.casts[k]
        target = float(o.conf.ref(s0[k], t0[k], p0[k])) + phi[k]

        def f(x):
            a, b = c.st(x)
            return o.conf.ref(a, b, p0[k]) - target

        slack = slack_phi * m + 20 * o.conf.slack
        kind, why = ref.judge_root(f, c.P[0], c.P[-1], p1[k], o.tol + tol_old, slack, c.P)
        ctx.event("judgements")
        ctx.event(f"update_{kind}_judged")
        if why:
            ctx.fail(f"update-{kind}", f"{what}: cast {k} p {p0[k]} -> {p1[k]}, phi {phi[k]}: {why}",
                     phi=phi, p0=p0, p1=p1, slack=slack)
