import numpy as np
from neutralocean.grid.tools import divergence
from neutralocean.lib import aggsum
from neutralocean.grid.rectilinear import build_grid as rect
from neutralocean.grid.tripolar import build_grid as trip

ID = "C16"
RULE = (
    "random multigraphs, rectilinear and tripolar grids x integer edge data, face lengths and areas (powers of "
    "two), so that every sum and quotient is exact, and real data to rounding x scalar or array geometry. "
    "Distinct: graph x geometry x type of data"
)
ASSUMPTIONS = ["the number of nodes is that of the areas when these are an array, and otherwise the largest label of an edge"]
REQUIRED = {"nodes_judged": 10000, "conserved": 500, "linear_judged": 400, "groups_judged": 3000, "lone_nodes_judged": 100}


def groups(tier):
    n = 500 if tier == "quick" else 30000
    return [("divergence", n), ("aggsum", n), ("large", 4 if tier == "quick" else 60)]


def warm():
    e = (np.array([0]), np.array([1]))
    divergence(np.ones(1), e)
    aggsum(np.ones(1), np.array([0]), 1)


def case(ctx, group, i, rng):
    if group == "aggsum":
        return agg(ctx, i, rng)
    kind = str(rng.choice(["random", "rect", "tripolar", "tree", "star"]))
    if group == "large":
        kind = "rect" if i % 2 else "tripolar"
        d = [(200, 180), (300, 240)][i // 2 % 2]
        e = rect(d, (True, False))["edges"] if i % 2 else trip(d)["edges"]
        ctx.event("large_grids")
    elif kind == "rect":
        e = rect(tuple(int(x) for x in rng.integers(2, 9, 2)), (bool(i % 2), bool(i // 2 % 2)))["edges"]
    elif kind == "tripolar":
        e = trip(tuple(int(x) for x in rng.integers(2, 9, 2)))["edges"]
    else:
        n = int(rng.integers(2, 50))
        if kind == "random":
            E = int(rng.integers(1, 4 * n))
            a, b = rng.integers(0, n, (2, E))
            q = a != b
            a, b = a[q], b[q]
            if not len(a):
                a, b = np.array([0]), np.array([n - 1])
        elif kind == "tree":
            b = np.arange(1, n)
            a = np.array([int(rng.integers(0, k)) for k in b])
        else:
            c = int(rng.integers(n))
            b = np.array([k for k in range(n) if k != c])
            a = np.full(n - 1, c)
        f = rng.random(len(a)) < 0.5
        e = (np.where(f, a, b), np.where(f, b, a))
    a, b = (np.asarray(x) for x in e)
    alone = 0
    if rng.random() < 0.2:  # casts without edges
        alone = int(rng.integers(1, 6))
        if rng.random() < 0.3:
            a, b = a[:0], b[:0]
            e = (a, b)
    N = int(max(a.max(initial=-1), b.max(initial=-1))) + 1 + alone
    exact = bool(i % 2)
    if exact:
        v = rng.integers(-1000, 1000, len(a)).astype(float)
        per = rng.integers(1, 64, len(a)).astype(float)
        area = 2.0 ** rng.integers(-3, 8, N)
    else:
        v = rng.normal(size=len(a)) * 10 ** rng.uniform(-12, 3)
        per = rng.uniform(1, 2, len(a)) * 10 ** rng.uniform(-2, 6)
        area = rng.uniform(1, 2, N) * 10 ** rng.uniform(-2, 12)
    geo = str(rng.choice(["default", "perp", "area", "both", "scalars", "array vector"] if not alone else ["area", "both"]))
    kw = {}
    if geo in ("perp", "both"):
        kw["distperp"] = per
    elif geo == "scalars":
        kw["distperp"] = float(per[0])
    if geo in ("area", "both"):
        kw["area"] = area
    elif geo == "scalars":
        kw["area"] = float(area[0])
    what = f"{kind} graph, {N} nodes, {len(a)} edges, geometry {geo}"
    d = np.asarray(ctx.call("divergence", divergence, v, e, **kw))
    P = np.broadcast_to(kw.get("distperp", 1.0), len(a))
    A = np.broadcast_to(kw.get("area", 1.0), N)
    out = np.zeros(N)
    mag = np.zeros(N)
    for k in range(len(a)):
        f = v[k] * P[k]
        out[a[k]] += f
        out[b[k]] -= f
        mag[[a[k], b[k]]] += abs(f)
    tol = 0.0 if exact else 1e-13
    ctx.close(d.shape, (N,), "shape", what)
    bad = ~(np.abs(d * A - out) <= tol * mag)
    ctx.check(not bad.any(), "value", f"{what}: at node {np.argmax(bad)} got {d[bad][:1]}, net outflow {out[bad][:1]}")
    ctx.event("nodes_judged", N)
    if alone:
        ctx.event("lone_nodes_judged", alone)
    ctx.check(abs(np.sum(d * A)) <= (0.0 if exact else 1e-12 * mag.sum()), "conservation",
              f"{what}: total {np.sum(d * A)} over all nodes")
    ctx.event("conserved")
    # reversing the edges and the vector changes nothing; linear
    d2 = np.asarray(ctx.call("divergence", divergence, -v, (b, a), **kw))
    ctx.check(np.all(np.abs(d2 - d) * A <= tol * mag), "reversal", f"{what}: reversed edges differ")
    w = rng.integers(-1000, 1000, len(a)).astype(float) * (1 if exact else np.abs(v).max(initial=1.0))
    dw = np.asarray(ctx.call("divergence", divergence, w, e, **kw))
    dvw = np.asarray(ctx.call("divergence", divergence, 3 * v - w, e, **kw))
    wm = mag.copy()
    np.add.at(wm, a, abs(w * P))
    np.add.at(wm, b, abs(w * P))
    ctx.check(np.all(np.abs(dvw - (3 * d - dw)) * A <= 10 * (tol + (0 if exact else 1e-13)) * wm), "linearity", what)
    ctx.event("linear_judged")
    ctx.bucket(kind, geo, exact, min(N // 8, 4))
    ctx.sample(kind=kind, N=N, E=len(a), geometry=geo, total=float(np.sum(d * A)))


def agg(ctx, i, rng):
    n = int(rng.integers(1, 30))
    m = int(rng.choice([0, 1, 5, 40, 200]))
    idx = rng.integers(-3 if i % 3 else 0, n, m)
    if rng.random() < 0.3:
        idx = idx.astype(np.int32)
    kind = str(rng.choice(["int", "float", "nan-outside", "nan-inside"]))
    x = rng.integers(-1000, 1000, m)
    if kind != "int":
        x = x.astype(float)
    if kind == "nan-outside":
        x[idx < 0] = np.nan
    elif kind == "nan-inside" and m:
        x[int(rng.integers(m))] = np.nan
    got = np.asarray(ctx.call("aggsum", aggsum, x, idx, n))
    exp = [sum(float(y) for y, k in zip(x, idx) if k == g) for g in range(n)]
    ctx.close(got, exp, "group-sum", f"{kind}, {m} values in {n} groups", rtol=0)
    ctx.check(got.dtype == x.dtype, "dtype", f"sums of {x.dtype} are {got.dtype}")
    ctx.event("groups_judged", n)
    ctx.bucket("agg", kind, m, bool((idx < 0).any()))
