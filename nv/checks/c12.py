import numpy as np
from .. import grids
from neutralocean.grid.rectilinear import build_grid, edgedata_to_maps

ID = "C12"
RULE = (
    "all small grid sizes x periodicities (enumerated) and random larger ones, to some 80000 casts, x distances given as "
    "scalar, row, column, full array or not at all. Distinct: size class x periodicity x shapes given"
)
ASSUMPTIONS = ["a periodic dimension has at least two casts"]
REQUIRED = {"edges_judged": 20000, "maps_judged": 500, "wrap_edges_judged": 500, "large_grids": 4}


def groups(tier):
    return [("small", 256), ("random", 400 if tier == "quick" else 20000),
            ("large", 4 if tier == "quick" else 60)]


LARGE = [(200, 180), (330, 250), (2, 20000), (17000, 2), (40, 1700), (1, 40000)]


def data(rng, ni, nj):
    """(what is given, its broadcast to (ni, nj), how)"""
    f = 10 ** rng.uniform(-1, 5)
    how = str(rng.choice(["default", "scalar", "int", "row", "column", "one-row", "full", "fortran"]))
    x = {
        "default": 1.0, "scalar": float(rng.uniform(1, 2) * f), "int": int(rng.integers(1, 9)),
        "row": rng.uniform(1, 2, nj) * f, "column": rng.uniform(1, 2, (ni, 1)) * f,
        "one-row": rng.uniform(1, 2, (1, nj)) * f, "full": rng.uniform(1, 2, (ni, nj)) * f,
        "fortran": np.asfortranarray(rng.uniform(1, 2, (ni, nj)) * f),
    }[how]
    return x, np.broadcast_to(x, (ni, nj)), how


def case(ctx, group, i, rng):
    if group == "small":
        ni, nj = 1 + i % 8, 1 + (i // 8) % 8
        per = (bool((i // 64) & 1), bool((i // 128) & 1))
    elif group == "large":
        ni, nj = LARGE[i % 2 if i < 2 else int(rng.integers(len(LARGE)))]
        per = (bool(rng.integers(2)), bool(rng.integers(2)))
        ctx.event("large_grids")
    else:
        ni, nj = int(rng.integers(1, 40)), int(rng.integers(1, 40))
        per = (bool(rng.integers(2)), bool(rng.integers(2)))
    per = (per[0] and ni > 1, per[1] and nj > 1)
    kw, full, hows = {}, {}, []
    for k in ("dxC", "dyC", "dyG", "dxG"):
        x, full[k], how = data(rng, ni, nj)
        hows.append(how)
        if how != "default":
            kw[k] = x
    if i % 3 == 0:  # everything distinct, so that every edge is identified
        kw = {k: rng.uniform(1, 2, (ni, nj)) * 1e3 for k in full}
        full, hows = dict(kw), ["full"] * 4
    perarg = per if rng.random() < 0.7 else list(per)
    grid = ctx.call("rectilinear.build_grid", build_grid, (ni, nj), perarg, **kw)
    exp = grids.Counter()
    ij = []  # (which, i, j, expected pair)
    for x in range(ni):
        for y in range(nj):
            for w, (px, py) in enumerate(((x - 1, y), (x, y - 1))):
                if (px < 0 and not per[0]) or (py < 0 and not per[1]):
                    continue
                if px < 0 or py < 0:
                    ctx.event("wrap_edges_judged")
                m, n = x * nj + y, (px % ni) * nj + py % nj
                d = full["dxC" if w == 0 else "dyC"][x, y]
                p = full["dyG" if w == 0 else "dxG"][x, y]
                exp[(min(m, n), max(m, n), float(d), float(p))] += 1
                ij.append((w, x, y, (min(m, n), max(m, n), float(d), float(p))))
    what = f"{ni} x {nj}, periodic {per}, {hows}"
    a, b, d, p = grids.judge_grid(ctx, grid, exp, ni * nj, what)
    ctx.bucket(min(ni, 4), min(nj, 4), per, tuple(hows) if group == "random" else "")
    ctx.sample(dims=(ni, nj), periodic=per, given=hows, E=len(a))
    # maps: mark every edge, and find it again at its own cast
    v = rng.normal(size=len(a))
    F = ctx.call("rectilinear.edgedata_to_maps", edgedata_to_maps, v, (ni, nj), perarg)
    ctx.check(len(F) == 2 and all(np.shape(f) == (ni, nj) for f in F), "map-shape", f"{what}: maps of shape {[np.shape(f) for f in F]}")
    ok = [np.zeros((ni, nj), dtype=bool) for _ in range(2)]
    at = {}
    for e in range(len(a)):
        at.setdefault((min(a[e], b[e]), max(a[e], b[e]), float(d[e]), float(p[e])), []).append(v[e])
    for w, x, y, key in ij:
        ok[w][x, y] = True
        ctx.check(F[w][x, y] in at[key], "map-value",
                  f"{what}: map {w} at {x, y} is {F[w][x, y]}, the edge there has {at[key]}")
    for w in range(2):
        ctx.check(bool(np.isnan(F[w][~ok[w]]).all()), "map-nan", f"{what}: map {w} has values where there is no edge")
    ctx.event("maps_judged")
