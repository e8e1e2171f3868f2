import numpy as np
from neutralocean.synthocean import synthocean

ID = "C31"
RULE = (
    "random shapes (single casts in longitude and single levels among them) x depth x surface salinity anomaly (negative, zero, "
    "large) x uniform or not x each pair of walls. Distinct: walls x uniform x kind of shape x sign of the anomaly"
)
ASSUMPTIONS = ["the fits in latitude of surface salinity and temperature are those written in the code's comments"]
REQUIRED = {"oceans_judged": 300, "points_judged": 30000, "wall_pairs_judged": 100, "uniform_judged": 80, "anomaly_judged": 100,
            "geometries_judged": 300}
SOUTH, NORTH, R = -80.0, 60.0, 6370000.0
FIT_T = [0.6265, 3.269, -3.602, -18.93, 5.927, 27.41]
FIT_S = [0.2221, -0.09487, -1.355, -0.126, 35.59]


def groups(tier):
    return [("ocean", 500 if tier == "quick" else 40000), ("geometry", 500 if tier == "quick" else 40000)]


SHARD = {"quick": 125, "thorough": 5000}


def frac(n):
    return np.arange(n) / (n - 1) if n > 1 else np.zeros(n)


def expected(shape, pbot, a, uniform):
    ni, nj, nk = shape
    x = (2 * frac(ni) - 1)[:, None]
    y = ((SOUTH + (NORTH - SOUTH) * frac(nj)) + 7) / 41.14
    t = np.repeat(np.polyval(FIT_T, y)[None], ni, axis=0)
    s = np.repeat(np.polyval(FIT_S, y)[None], ni, axis=0)
    if not uniform:
        t = t - 1.5 * x
        s = s + 0.4 + 0.5 * x - 0.8 * x * x
    lo, hi = t.min(), t.max()
    t = -1.8 + (t - lo) * (31.8 / (hi - lo))
    s = s + a * (1 - frac(nj))
    tb, sb = -1.9 + frac(nj), 34.7 - 0.2 * frac(nj)
    z = frac(nk)
    mix = lambda top, bottom: top[..., None] * (1 - z) + bottom[None, :, None] * z
    return mix(s, sb), mix(t, tb), pbot * z**3


def draw(rng):
    shape = tuple(int(q) for q in (rng.integers(1, 14), rng.integers(2, 14), rng.integers(1, 20)))
    kw = {}
    if rng.random() < 0.7:
        kw["pbot"] = float(rng.choice([1.0, 4000.0, 1e4]) * rng.uniform(0.3, 1.5))
    if rng.random() < 0.7:
        kw["SSSSa"] = float(rng.choice([0.0, -0.5, 0.3, 2.0, -3.0]))
    if rng.random() < 0.5:
        kw["zonally_uniform"] = bool(rng.integers(2))
    if rng.random() < 0.7:
        kw["wrap"] = (bool(rng.integers(2)), bool(rng.integers(2)))
    if rng.random() < 0.3:
        kw["wrap"] = list(kw.get("wrap", (False, False)))
    if rng.random() < 0.3:
        shape = list(shape)
    return shape, kw


def case(ctx, group, i, rng):
    shape, kw = draw(rng)
    if group == "geometry":
        return geometry(ctx, shape, kw)
    ni, nj, nk = shape
    a, uni, wrap = kw.get("SSSSa", 0.3), kw.get("zonally_uniform", False), tuple(kw.get("wrap", (False, False)))
    S, T, P, _ = ctx.call("synthocean", synthocean, shape, **kw)
    at = f"of shape {tuple(shape)} with {kw}"
    es, et, ep = expected(shape, kw.get("pbot", 4000.0), a, uni)
    ctx.check(S.shape == T.shape == (ni, nj, nk) and P.shape == (nk,), "shape", f"{S.shape}, {T.shape}, {P.shape} {at}")
    dry = np.zeros((ni, nj), dtype=bool)
    dry[0, :] |= not wrap[0]
    dry[:, 0] |= not wrap[1]
    for X, nm in ((S, "S"), (T, "T")):
        bad = np.isnan(X) != dry[..., None]
        ctx.check(not bad.any(), "walls", f"{nm} is missing at other casts than the walls {at}: {np.argwhere(bad)[:4].tolist()}")
    w = ~dry
    for X, e, nm in ((S[w], es[w], "salinity"), (T[w], et[w], "temperature"), (P, ep, "pressure")):
        ctx.close(X, e, "field", f"{nm} {at}", rtol=1e-11, atol=1e-11)
    ctx.event("points_judged", int(w.sum()) * nk)
    if nk > 1:
        ctx.check(P[0] == 0 and abs(P[-1] - ep[-1]) <= 1e-12 * ep[-1] and (np.diff(P) > 0).all(), "pressure", f"P = {P.tolist()} {at}")
    # one option at a time
    S2, T2, P2, _ = ctx.call("synthocean", synthocean, shape, **dict(kw, wrap=(True, True)))
    ctx.check(np.array_equal(S2[w], S[w]) and np.array_equal(T2[w], T[w]) and np.array_equal(P2, P), "walls-change-ocean",
              f"the walls change the ocean beside them {at}")
    ctx.check(np.isfinite(S2).all() and np.isfinite(T2).all(), "walls", f"without walls, data is missing {at}")
    ctx.event("wall_pairs_judged")
    S3, T3, P3, _ = ctx.call("synthocean", synthocean, shape, **dict(kw, wrap=(True, True), SSSSa=a + 1.0))
    d = (1 - frac(nj))[None, :, None] * (1 - frac(nk))
    ctx.close(S3 - S2, np.broadcast_to(d, S2.shape), "anomaly", f"effect of SSSSa on salinity {at}", rtol=0, atol=1e-12 * 40)
    ctx.check(np.array_equal(T3, T2) and np.array_equal(P3, P2), "anomaly", f"SSSSa changes more than salinity {at}")
    ctx.event("anomaly_judged")
    if uni:
        ctx.check(all(np.array_equal(S2[q], S2[0]) and np.array_equal(T2[q], T2[0]) for q in range(ni)), "uniform",
                  f"not uniform in longitude {at}")
        ctx.event("uniform_judged")
    ctx.check(abs(T2[..., 0].min() + 1.8) < 1e-12 and abs(T2[..., 0].max() - 30) < 1e-11, "range",
              f"surface temperature from {T2[..., 0].min()} to {T2[..., 0].max()} {at}")
    S4, T4, P4, _ = ctx.call("synthocean", synthocean, shape, **kw)
    ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in ((S, S4), (T, T4), (P, P4))), "repeat", f"a second call differs {at}")
    ctx.check(not any(np.shares_memory(x, y) for x, y in ((S, S4), (T, T4), (P, P4), (S, T))), "shared", f"calls share memory {at}")
    ctx.event("oceans_judged")
    ctx.bucket(wrap, uni, ni == 1, nk == 1, float(np.sign(a)), "pbot" in kw, type(shape).__name__)
    ctx.sample(shape=tuple(shape), options=kw, surface_salinity=float(S2[0, 0, 0]))


def geometry(ctx, shape, kw):
    ni, nj, nk = shape
    g = ctx.call("synthocean", synthocean, shape, **kw)[3]
    at = f"of shape {tuple(shape)}"
    r = np.pi / 180
    dx, dy = 360 / ni, (NORTH - SOUTH) / nj
    south = SOUTH + dy * np.arange(nj)
    for k, e in (("nx", ni), ("ny", nj), ("nz", nk)):
        ctx.check(g[k] == e, "count", f"{k} = {g[k]}, not {e} {at}")
    band = R * R * dx * r * np.abs(np.sin(r * (south + dy)) - np.sin(r * south))
    # cells about the southern edges of the others, from centre to centre
    edge = R * R * dx * r * np.abs(np.sin(r * (south + dy / 2)) - np.sin(r * (south - dy / 2)))
    for k, e in (
        ("rSphere", R), ("resx", ni / 360), ("resy", nj / (NORTH - SOUTH)),
        ("XGvec", dx * np.arange(ni)), ("XCvec", dx * (np.arange(ni) + 0.5)), ("YGvec", south), ("YCvec", south + dy / 2),
        ("DXGvec", R * dx * r * np.cos(r * south)), ("DXCvec", R * dx * r * np.cos(r * (south + dy / 2))),
        ("DYGsc", R * dy * r), ("DYCsc", R * dy * r), ("RACvec", band), ("RAWvec", band), ("RASvec", edge), ("RAZvec", edge),
    ):
        ctx.check(np.shape(g[k]) == np.shape(e), "shape", f"{k} has shape {np.shape(g[k])}, not {np.shape(e)} {at}")
        ctx.close(g[k], e, "geometry", f"{k} {at}", rtol=1e-10, atol=1e-10 * float(np.max(np.abs(e))) if np.size(e) else 0)
    zone = 2 * np.pi * R * R * (np.sin(r * NORTH) - np.sin(r * SOUTH))
    ctx.close(ni * np.sum(g["RACvec"]), zone, "area", f"total area {at}", rtol=1e-11)
    ctx.event("geometries_judged")
    ctx.bucket("geometry", ni == 1, ni > nj, min(ni, 4), min(nj, 4))
