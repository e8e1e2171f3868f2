import numpy as np
import xarray as xr
from scipy.optimize import nnls
from .. import ref, gen
from neutralocean.stability import stabilize_ST, count_unstable
from neutralocean.eos import make_eos, vectorize_eos
from neutralocean.ppinterp import make_pp

ID = "C23"
RULE = (
    "small oceans with land, bottoms, ice, gaps and injected instabilities (none, one pair, inversions, homogeneous "
    "layers) x minimum gradients (scalar, per pair, zero) x weights x layouts (any vertical dimension, views, labelled, "
    "1D pressure) x density equations. Distinct: equation x layout x kind of instability x class of cast"
)
ASSUMPTIONS = [
    "least change judged against sequential quadratic programming on the same problem with complex-step gradients, to the "
    "function's own tolerance", "a cast whose optimisation does not converge is refused (RuntimeError) and not judged",
    "only the first block of valid bottles of a cast is stabilised",
]
REQUIRED = {"pairs_judged": 700, "stable_casts_judged": 150, "moved_casts_judged": 100, "optimal_judged": 75, "counts_judged": 80, "interpolated_counts_judged": 30}

EOSS = {"jmd95": (None, None), "jmdfwg06": (9.81, 1035.0), "lin": (None, None), "nonlin": (None, None)}


def groups(tier):
    q = tier == "quick"
    return [(f"{e}-{k}", 60 if q else 500) for e in EOSS for k in ("a", "b")] + [("count", 100 if q else 4000)]


def gradient(e, S, T, P):
    pm = 0.5 * (P[:-1] + P[1:])
    return (e(S[1:], T[1:], pm) - e(S[:-1], T[:-1], pm)) / (P[1:] - P[:-1])


def best(e, S, T, P, mn, w):
    """least weighted change with gradient >= mn: sequential QP, each solved in its dual by NNLS"""
    n = len(S)
    x = np.zeros(2 * n)
    iw = np.r_[np.full(n, 1 / w), np.ones(n)]
    pm, dP = 0.5 * (P[:-1] + P[1:]), P[1:] - P[:-1]
    for it in range(60):
        s, t = S + x[:n], T + x[n:]
        s1, t1 = e.s_t(s[:-1], t[:-1], pm)
        s2, t2 = e.s_t(s[1:], t[1:], pm)
        J = np.zeros((n - 1, 2 * n))
        k = np.arange(n - 1)
        J[k, k], J[k, k + 1], J[k, n + k], J[k, n + k + 1] = -s1 / dP, s2 / dP, -t1 / dP, t2 / dP
        c = mn - gradient(e, s, t, P) + J @ x  # need J x >= c
        D = np.sqrt(iw)
        A = J * D
        r = np.linalg.norm(A, axis=1)
        A, b = A / r[:, None], c / r
        # min |y|^2 s.t. A y >= b : least distance programming (Lawson & Hanson)
        E = np.vstack([A.T, b[None]])
        f = np.zeros(2 * n + 1)
        f[-1] = 1
        u, _ = nnls(E, f)
        res = E @ u - f
        if abs(res[-1]) < 1e-12:
            return None
        y = -res[:-1] / res[-1]
        new = y * D
        if np.max(np.abs(new - x)) < 1e-11:
            return new
        x = new
    return None


def disturb(rng, S, T, c, kind):
    ok = np.flatnonzero(np.isfinite(S[c]))
    if len(ok) < 2 or kind == "none":
        return
    if kind == "pair":
        k = int(rng.integers(len(ok) - 1))
        a, b = ok[k], ok[k + 1]
        T[c][a], T[c][b] = T[c][b], T[c][a]
        S[c][a], S[c][b] = S[c][b], S[c][a]
    elif kind == "cold":
        T[c][ok[int(rng.integers(len(ok)))]] -= rng.uniform(0.5, 3)
    elif kind == "salty":
        S[c][ok[int(rng.integers(len(ok)))]] += rng.uniform(0.1, 0.8)
    elif kind == "layer":
        k = int(rng.integers(len(ok) - 1))
        j = slice(ok[k], ok[min(len(ok) - 1, k + 3)] + 1)
        S[c][j], T[c][j] = S[c][ok[k]], T[c][ok[k]]
    elif kind == "rough":
        T[c] += 0.5 * rng.normal(size=T[c].shape)


def layout(rng, h, S, T, P):
    """(args, vert_dim, function giving S, T with vertical last, name)"""
    v = int(rng.integers(len(h) + 1))
    how = str(rng.choice(["plain", "moved", "view", "xarray", "xarray", "fortran"]))
    if how == "plain":
        v = len(h)
    A = [np.ascontiguousarray(np.moveaxis(x, -1, v)) for x in (S, T)]
    PA = P if P.ndim == 1 else np.ascontiguousarray(np.moveaxis(P, -1, v))
    if how == "view":
        A = [np.repeat(x, 2, axis=0)[::2] for x in A]
    if how == "fortran":
        A = [np.asfortranarray(x) for x in A]
    vd = v - len(h) - 1 if rng.random() < 0.5 else v
    if how == "xarray":
        d = ["x", "y"][: len(h)]
        d.insert(v, "z")
        A = [xr.DataArray(x, dims=d) for x in A]
        PA = xr.DataArray(PA, dims=d if PA.ndim > 1 else ["z"])
        vd = "z"
    return A, PA, vd, (lambda: [np.moveaxis(np.asarray(x), v, -1).copy() for x in A]), how


def vertical(rng, vd, h, how):
    """The last dimension need not be named."""
    return {} if vd in (-1, len(h)) and rng.random() < 0.5 else {"vert_dim": vd}


def ocean(rng, nk):
    h = tuple(int(x) for x in rng.integers(1, 4, 2)) if rng.random() < 0.7 else (int(rng.integers(1, 6)),)
    S, T, P3, Parg, tags = gen.ocean(rng, h, nk, p3d=None, pmax=float(rng.choice([300.0, 1500.0])))
    kinds = {}
    for c in np.ndindex(h):
        if tags[c] == "P-nan":
            S[c][np.isnan(P3[c])] = T[c][np.isnan(P3[c])] = np.nan
        kinds[c] = str(rng.choice(["none", "none", "pair", "cold", "salty", "layer", "rough"]))
        disturb(rng, S, T, c, kinds[c])
    return h, S, T, P3, Parg, tags, kinds


def case(ctx, group, i, rng):
    if group == "count":
        return count(ctx, i, rng)
    name = group.split("-")[0]
    g, r = EOSS[name]
    e = ref.Eos(name, g, r)
    fn = gen.CUSTOM[name][0] if name in gen.CUSTOM else make_eos(name, g, r)
    if group.endswith("b"):
        fn = vectorize_eos(fn)
    nk = int(rng.choice([2, 3, 5, 8, 12]))
    h, S, T, P3, Parg, tags, kinds = ocean(rng, nk)
    m = str(rng.choice(["default", "scalar", "array", "zero"]))
    mn = {"default": 1e-6, "scalar": 10 ** rng.uniform(-7, -4), "array": 10 ** rng.uniform(-7, -4, nk - 1), "zero": 0.0}[m]
    MN = np.broadcast_to(mn, nk - 1)
    w = float(rng.choice([10.0, 1.0, 100.0, 0.1]))
    kw = dict(verbose=False)
    if m != "default":
        kw["min_dLRPDdp"] = mn if m != "array" else mn.copy()
    if w != 10.0 or rng.random() < 0.5:
        kw["weight"] = w
    if i % 8 == 7:  # too few iterations must be refused, not accepted
        kw["options"] = {"maxiter": int(rng.integers(1, 6))}
    A, PA, vd, back, how = layout(rng, h, S, T, Parg)
    what = f"{group}, casts {h}, nk {nk}, minimum {m}, weight {w}, layout {how}, vertical {vd}"
    P_before = np.asarray(PA).tobytes()
    ctx.event("calls")
    try:
        out = stabilize_ST(*A, PA, fn, **vertical(rng, vd, h, how), **kw)
    except RuntimeError as x:
        ctx.event("refused")
        return
    except Exception as x:
        ctx.fail("raised", f"{what}: {type(x).__name__}: {x}")
    ctx.check(np.asarray(PA).tobytes() == P_before, "pressure-changed", what)
    S2, T2 = back()
    for c in np.ndindex(h):
        k, K = ref.first_block(S[c])
        out = np.ones(nk, bool)
        out[k:K] = False
        where = f"{what}, cast {c} ({tags[c]}, {kinds[c]})"
        same = lambda a, b: np.array_equal(a, b, equal_nan=True)
        ctx.check(same(S2[c][out], S[c][out]) and same(T2[c][out], T[c][out]), "outside-block",
                  f"{where}: data outside the first valid block changed")
        n = K - k
        if n < 2:
            ctx.check(same(S2[c], S[c]) and same(T2[c], T[c]), "short-cast", f"{where}: changed")
            continue
        s0, t0, p = S[c][k:K], T[c][k:K], P3[c][k:K]
        s, t = S2[c][k:K], T2[c][k:K]
        mc = MN[k : K - 1]
        G0 = gradient(e, s0, t0, p)
        if np.all(G0 >= mc + 1e-12):
            ctx.check(same(s, s0) and same(t, t0), "stable-cast", f"{where}: was stable, but changed")
            ctx.event("stable_casts_judged")
            ctx.bucket(group, how, "stable", tags[c], m)
            continue
        if np.all(G0 >= mc - 1e-11):
            continue  # marginal to rounding
        G = gradient(e, s, t, p)
        bad = G < mc - 2e-9
        ctx.check(not bad.any(), "unstable",
                  f"{where}: gradient {G[bad][:1]} at pair {np.argmax(bad)}, minimum {mc[bad][:1]}, before {G0[bad][:1]}")
        ctx.event("pairs_judged", n - 1)
        ctx.event("moved_casts_judged")
        ctx.bucket(group, how, kinds[c], tags[c], m)
        x = best(e, s0, t0, p, mc, w)
        if x is None:
            ctx.event("reference_not_converged")
            continue
        f = lambda ds, dt: float(np.sum(w * ds**2 + dt**2))
        fo, fb = f(s - s0, t - t0), f(x[:n], x[n:])
        if not np.all(gradient(e, s0 + x[:n], t0 + x[n:], p) >= mc - 1e-12):
            ctx.event("reference_not_converged")
            continue
        ctx.check(fo <= fb * 1.002 + 2e-8, "not-least", f"{where}: weighted change {fo!r}, but {fb!r} suffices")
        ctx.event("optimal_judged")
        ctx.sample(eos=name, layout=how, kind=kinds[c], change=fo, needed=fb)


def count(ctx, i, rng):
    name = str(rng.choice(list(EOSS)))
    g, r = EOSS[name]
    e = ref.Eos(name, g, r)
    fn = gen.CUSTOM[name][0] if name in gen.CUSTOM else make_eos(name, g, r)
    h, S, T, P3, Parg, tags, kinds = ocean(rng, int(rng.choice([2, 3, 5, 12])))
    A, PA, vd, back, how = layout(rng, h, S, T, Parg)
    pm = 0.5 * (P3[..., :-1] + P3[..., 1:])
    with np.errstate(all="ignore"):
        d = e(S[..., :-1], T[..., :-1], pm) - e(S[..., 1:], T[..., 1:], pm)
    same = (S[..., :-1] == S[..., 1:]) & (T[..., :-1] == T[..., 1:])  # equally dense whatever the equation
    lo = int(np.sum((d > 1e-11) | same))
    hi = int(np.sum((d >= -1e-11) | same))
    got = ctx.call("count_unstable", count_unstable, *A, PA, eos=fn, **vertical(rng, vd, h, how))
    ctx.check(lo <= int(got) <= hi, "count", f"{name}, casts {h}, {how}, vertical {vd}: {got} unstable, expected {lo}..{hi}")
    ctx.event("counts_judged")
    # with an interpolant: bottles (the last may count or not) at which density decreases with pressure
    kind = str(rng.choice(["linear", "pchip"]))
    two = make_pp(kind, kind="u", out="interp", num_dep_vars=2)
    lo = hi = 0
    for c in np.ndindex(h):
        C = ref.Cast(S[c], T[c], P3[c], kind)
        if not C.ok:
            continue
        K0 = ref.first_block(S[c], P3[c])[0]
        rs, rt = e.s_t(S[c], T[c], P3[c])
        for k in range(len(C.P)):
            x = C.P[k]
            g = []
            for side in ([0, 1] if kind == "linear" else [0]):
                y = x if side == 0 or k + 1 >= len(C.P) else 0.5 * (x + C.P[k + 1])
                ds, dt = float(C.S(y, 1)), float(C.T(y, 1))
                a, b = rs[K0 + k] * ds, rt[K0 + k] * dt
                g.append((a + b, 1e-9 * (abs(a) + abs(b)) + 1e-15))
            last = K0 + k == S.shape[-1] - 1
            lo += int(not last and all(v < -m for v, m in g))
            hi += int(any(v < m for v, m in g))
    got = ctx.call("count_unstable", count_unstable, *A, PA, interp_two=two, eos_s_t=e.s_t,
                   **vertical(rng, vd, h, how))
    ctx.check(lo <= int(got) <= hi, "count-interpolated", f"{name}, {kind}, casts {h}, {how}, vertical {vd}: {got} unstable, expected {lo}..{hi}")
    ctx.event("interpolated_counts_judged")
    ctx.bucket("count", name, how, min(lo, 3))
