import itertools
import numpy as np
import xarray as xr
from .. import grids
from neutralocean.grid.xgcm import build_grid, edgedata_to_maps

ID = "C14"
RULE = (
    "13-face lat-lon-cap, single and double periodic or closed faces, and random connections of faces' "
    "left sides to right sides (same or swapped axes) x face sizes x shifts x dimension orders x distances "
    "scalar, array, whole numbers, one row, one column, labelled or not given, or of several of these kinds. Distinct: topology x size x shifts x dimension order x distances"
)
ASSUMPTIONS = ["xgcm's convention for joining swapped axes (tangential index reversed), as in the lat-lon-cap grid"]
REQUIRED = {"edges_judged": 8000, "seam_edges_judged": 600, "swapped_seam_edges_judged": 100, "maps_judged": 60, "mixed_distances_judged": 40}

_F = False
LLC = {
    0: {"X": ((12, "Y", _F), (3, "X", _F)), "Y": (None, (1, "Y", _F))},
    1: {"X": ((11, "Y", _F), (4, "X", _F)), "Y": ((0, "Y", _F), (2, "Y", _F))},
    2: {"X": ((10, "Y", _F), (5, "X", _F)), "Y": ((1, "Y", _F), (6, "X", _F))},
    3: {"X": ((0, "X", _F), (9, "Y", _F)), "Y": (None, (4, "Y", _F))},
    4: {"X": ((1, "X", _F), (8, "Y", _F)), "Y": ((3, "Y", _F), (5, "Y", _F))},
    5: {"X": ((2, "X", _F), (7, "Y", _F)), "Y": ((4, "Y", _F), (6, "Y", _F))},
    6: {"X": ((2, "Y", _F), (7, "X", _F)), "Y": ((5, "Y", _F), (10, "X", _F))},
    7: {"X": ((6, "X", _F), (8, "X", _F)), "Y": ((5, "X", _F), (10, "Y", _F))},
    8: {"X": ((7, "X", _F), (9, "X", _F)), "Y": ((4, "X", _F), (11, "Y", _F))},
    9: {"X": ((8, "X", _F), None), "Y": ((3, "X", _F), (12, "Y", _F))},
    10: {"X": ((6, "Y", _F), (11, "X", _F)), "Y": ((7, "Y", _F), (2, "X", _F))},
    11: {"X": ((10, "X", _F), (12, "X", _F)), "Y": ((8, "Y", _F), (1, "X", _F))},
    12: {"X": ((11, "X", _F), None), "Y": ((9, "Y", _F), (0, "X", _F))},
}


def random_topology(rng, nf, swap):
    """Random partial matching of left sides to right sides."""
    fc = {f: {"X": [None, None], "Y": [None, None]} for f in range(nf)}
    left = [(f, ax) for f in range(nf) for ax in "XY"]
    right = list(left)
    rng.shuffle(left)
    left = [(int(f), str(ax)) for f, ax in left]
    for f, ax in left:
        if rng.random() < 0.2:
            continue
        c = [r for r in right if (r[1] == ax or (swap and r[0] != f))]
        if not c:
            continue
        g, bx = c[int(rng.integers(len(c)))]
        right.remove((g, bx))
        fc[f][ax][0] = (g, bx, False)
        fc[g][bx][1] = (f, ax, False)
    return {f: {ax: tuple(v) for ax, v in d.items()} for f, d in fc.items()}


def neighbour(fc, f, i, j, ax, side, n):
    p = [i, j]
    k = 0 if ax == "X" else 1
    q = list(p)
    q[k] += side
    if 0 <= q[k] < n:
        return (f, q[0], q[1]), None
    c = fc[f].get(ax, (None, None))[0 if side < 0 else 1]
    if c is None:
        return None, None
    f2, ax2, _ = c
    k2 = 0 if ax2 == "X" else 1
    r = [None, None]
    r[k2] = n - 1 if side < 0 else 0
    r[1 - k2] = p[1 - k] if ax2 == ax else n - 1 - p[1 - k]
    return (f2, r[0], r[1]), "seam" if ax == ax2 else "swapped"


def groups(tier):
    k = 3 if tier == "quick" else 40
    return [("llc-1", 12 * k), ("llc-2", 12 * k), ("simple", 30 * k), ("random-1", 20 * k), ("random-2", 20 * k),
            ("random-3", 20 * k), ("large", k)]


DIMS = list(itertools.permutations(("T", "j", "i")))


def case(ctx, group, i, rng):
    tile = str(rng.choice(["tile", "face"]))
    g = group.split("-")[0]
    if g == "llc":
        topo, n = LLC, int(rng.integers(2, 5))
    elif g == "large":  # as ECCO's
        topo, n = LLC, int(rng.choice([52, 60, 90]))
    elif g == "simple":
        n = int(rng.integers(2, 7))
        nf = int(rng.integers(1, 3))
        if nf == 1:
            c = ((0, "X", False), (0, "X", False))
            cy = ((0, "Y", False), (0, "Y", False))
            topo = {0: {"X": c if rng.random() < 0.7 else (None, None), "Y": cy if rng.random() < 0.5 else (None, None)}}
        else:
            topo = {0: {"X": ((1, "X", False), (1, "X", False)), "Y": (None, None)},
                    1: {"X": ((0, "X", False), (0, "X", False)), "Y": (None, None)}}
    else:
        n = int(rng.integers(2, 6))
        topo = random_topology(rng, int(rng.integers(2, 6)), True)
    nf = len(topo)
    dims = tuple(tile if d == "T" else d for d in (DIMS[0] if rng.random() < 0.4 else DIMS[int(rng.integers(6))]))
    xsh, ysh = (str(rng.choice(["left", "right"])) for _ in range(2))
    shape = tuple(nf if d == tile else n for d in dims)
    how = str(rng.choice(["none", "scalar", "array", "mixed", "mixed", "xarray"]))
    kw, full = {}, {}
    for k in ("dxC", "dyC", "dyG", "dxG"):
        if how == "none":
            full[k] = np.ones(shape)
        elif how == "scalar":
            kw[k] = float(rng.uniform(1, 100))
            full[k] = np.full(shape, kw[k])
        elif how == "mixed":
            q = rng.integers(5)
            if q == 4:
                full[k] = np.ones(shape)
                continue
            v = rng.integers(1, 9, shape) if q == 0 else rng.uniform(1, 2, shape) * 1e4
            v = int(v.flat[0]) if q == 0 and rng.random() < 0.6 else v[-1] if q == 1 else v[:, :1] if q == 2 else v
            kw[k], full[k] = v, np.broadcast_to(v, shape).astype(float)
            ctx.event("mixed_distances_judged")
        else:
            full[k] = rng.uniform(1, 2, shape) * 1e4
            kw[k] = full[k] if how == "array" else xr.DataArray(full[k], dims=dims)
    grid = ctx.call("xgcm.build_grid", build_grid, n, {tile: topo}, dims, xsh, ysh, **kw)
    N = nf * n * n
    idx = np.arange(N).reshape(shape)

    def at(A, f, x, y):
        d = {tile: f, "i": x, "j": y}
        return A[tuple(d[k] for k in dims)]

    exp = grids.Counter()
    ij = []
    for f in range(nf):
        for x in range(n):
            for y in range(n):
                for w, (ax, sh, dn, pn) in enumerate((("X", xsh, "dxC", "dyG"), ("Y", ysh, "dyC", "dxG"))):
                    nb, seam = neighbour(topo, f, x, y, ax, -1 if sh == "left" else 1, n)
                    if nb is None:
                        ctx.event("closed_sides_judged")
                        ij.append((w, f, x, y, None))
                        continue
                    a, b = int(at(idx, f, x, y)), int(at(idx, *nb))
                    key = (min(a, b), max(a, b), float(at(full[dn], f, x, y)), float(at(full[pn], f, x, y)))
                    exp[key] += 1
                    ij.append((w, f, x, y, key))
                    if seam:
                        ctx.event("seam_edges_judged")
                        if seam == "swapped":
                            ctx.event("swapped_seam_edges_judged")
    what = f"{group} n={n} faces={nf} dims={dims} shifts {xsh}, {ysh}, distances {how}"
    a, b, d, p = grids.judge_grid(ctx, grid, exp, N, what)
    ctx.bucket(group, n, dims.index(tile), dims.index("i"), xsh, ysh, how)
    ctx.sample(topology=group, n=n, faces=nf, dims=dims, shifts=(xsh, ysh), distances=how, E=len(a))
    if rng.random() < 0.7:
        v = rng.normal(size=len(a))
        F = ctx.call("xgcm.edgedata_to_maps", edgedata_to_maps, v, n, {tile: topo}, dims, xsh, ysh)
        loc = {}
        for e in range(len(a)):
            loc.setdefault((min(a[e], b[e]), max(a[e], b[e]), float(d[e]), float(p[e])), []).append(v[e])
        for w, f, x, y, key in ij:
            got = at(np.asarray(F[w]), f, x, y)
            ctx.check(np.isnan(got) if key is None else got in loc[key], "map-value",
                      f"{what}: map {w} at face {f}, i {x}, j {y} is {got}, expected {None if key is None else loc[key]}")
        ctx.event("maps_judged")
