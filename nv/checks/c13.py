import numpy as np
from .. import grids
from neutralocean.grid.tripolar import build_grid, edgedata_to_maps

ID = "C13"
RULE = (
    "all small tripolar grids (enumerated) and random larger ones, to some 80000 casts, x distances scalar, full, padded as in "
    "model files, or not given. Distinct: size class (parity of the fold) x shapes given"
)
ASSUMPTIONS = ["the fold's pairs appear once from each side, each with its own distances; self-pairs are ignored"]
REQUIRED = {"edges_judged": 20000, "maps_judged": 400, "fold_edges_judged": 1000, "padded_judged": 300, "large_grids": 4}


def groups(tier):
    return [("small", 128), ("random", 400 if tier == "quick" else 20000),
            ("large", 4 if tier == "quick" else 60)]


LARGE = [(200, 180), (330, 250), (2, 20000), (17000, 2), (40, 1700), (1, 40000)]


def data(rng, nj, ni):
    f = 10 ** rng.uniform(-1, 5)
    how = str(rng.choice(["default", "scalar", "full", "padded", "column", "row"]))
    if how == "default":
        return None, np.ones((nj, ni)), how
    if how == "scalar":
        x = float(rng.uniform(1, 2) * f)
        return x, np.full((nj, ni), x), how
    if how == "padded":
        x = rng.uniform(1, 2, (nj + 1, ni + 2)) * f
        return x, x[:nj, 1 : ni + 1], how
    sh = {"full": (nj, ni), "column": (nj, 1), "row": (ni,)}[how]
    x = rng.uniform(1, 2, sh) * f
    return x, np.broadcast_to(x, (nj, ni)), how


def case(ctx, group, i, rng):
    if group == "small":
        nj, ni = 1 + i % 8, 2 + (i // 8) % 8
    elif group == "large":
        nj, ni = LARGE[i % 2 if i < 2 else int(rng.integers(len(LARGE)))]
        ctx.event("large_grids")
    else:
        nj, ni = int(rng.integers(1, 40)), int(rng.integers(2, 40))
    kw, full, hows = {}, {}, []
    for k in ("e1u", "e2v", "e2u", "e1v"):
        x, full[k], how = data(rng, nj, ni)
        hows.append(how)
        if x is not None:
            kw[k] = x
        if how == "padded":
            ctx.event("padded_judged")
    if i % 3 == 0:
        pad = bool(i % 2)
        kw = {k: rng.uniform(1, 2, (nj + 1, ni + 2) if pad else (nj, ni)) * 1e3 for k in full}
        full = {k: x[:nj, 1 : ni + 1] if pad else x for k, x in kw.items()}
        hows = ["padded" if pad else "full"] * 4
    grid = ctx.call("tripolar.build_grid", build_grid, (nj, ni), **kw)
    exp = grids.Counter()
    ij = []
    for y in range(nj):
        for x in range(ni):
            m = y * ni + x
            if y < nj - 1:
                n = (y + 1) * ni + x
            else:
                n = y * ni + (ni - 1 - x)
                ctx.event("fold_edges_judged")
            for w, n, d, p in ((0, n, "e2v", "e1v"), (1, y * ni + (x + 1) % ni, "e1u", "e2u")):
                key = (min(m, n), max(m, n), float(full[d][y, x]), float(full[p][y, x]))
                ij.append((w, y, x, key))
                if m != n:
                    exp[key] += 1
    what = f"{nj} x {ni}, {hows}"
    a, b, d, p = grids.judge_grid(ctx, grid, exp, ni * nj, what, loops=False)
    ctx.bucket(min(nj, 4), min(ni, 5), ni % 2, tuple(hows) if group == "random" else "")
    ctx.sample(dims=(nj, ni), given=hows, E=len(a))
    v = rng.normal(size=len(a))
    F = ctx.call("tripolar.edgedata_to_maps", edgedata_to_maps, v, (nj, ni))
    at = {}
    for e in range(len(a)):
        at.setdefault((min(a[e], b[e]), max(a[e], b[e]), float(d[e]), float(p[e])), []).append(v[e])
    for w, y, x, key in ij:
        if key[0] != key[1]:
            ctx.check(np.asarray(F[w])[y, x] in at[key], "map-value",
                      f"{what}: map {w} at {y, x} is {F[w][y, x]}, the edge there has {at[key]}")
    ctx.event("maps_judged")
