import numpy as np
from .. import gen, ref, om
from ..harness import Skip
from .c08 import links, decide, passes
from neutralocean.mixed_layer import mixed_layer

ID = "C09"
RULE = (
    "random oceans and graphs with a mixed layer base scattered around the surface: iteration n+1 "
    "is replayed from the surface after n iterations (cut, connected region, wetting on trees, least "
    "squares); parameters against the equivalent field; none against no mixed layer. Distinct: "
    "configuration x grid x mode x n x number of casts cut"
)
ASSUMPTIONS = [
    "reference interpolants, equations of state and dense least squares are right",
    "the pinning cast is below its mixed layer; casts within 1e-6 of the base are not judged",
]
REQUIRED = {"iterations_judged": 60, "casts_cut": 40, "disconnecting_cuts": 5, "equivalences_judged": 25,
            "wetting_after_cut_judged": 15, "cuts_after_wetting": 20,
            "equivalences_near_base": 8, "flat_cuts_judged": 4}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmdfwg06-linear-bsq", "nonlin-linear", "vol-pchip",
         "lin-linear", "jmd95-pchip-bsq"]


def groups(tier):
    return [(g, 36 if tier == "quick" else 1500) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def flat(r):
    return tuple(np.asarray(x).reshape(-1).copy() for x in r[:3])


def equivalence(ctx, group, rng, conf, o):
    """The mixed layer given by its parameters, or as the field they give, or none."""
    kw = dict(ITER_MAX=int(rng.integers(1, 4)), TOL_LRPD_MAV=0.0, diags=False)
    p_init = om.init_surface(rng, o) if rng.random() < 0.5 else o.pin_p
    if rng.random() < 0.25:
        a = om.run(ctx, o, p_init, **kw)
        b = om.run(ctx, o, p_init, p_ml=np.full(o.hshape, -np.inf), **kw)
        c = om.run(ctx, o, p_init, p_ml=None, **kw)
        for x, y, z in zip(a[:3], b[:3], c[:3]):
            ctx.check(np.array_equal(x, y, equal_nan=True) and np.array_equal(x, z, equal_nan=True), "none-cuts",
                      "no mixed layer, and one above every cast, give different surfaces")
        ctx.event("equivalences_judged")
        ctx.bucket(group, "none")
        return
    d = {}
    if rng.random() < 0.7:
        d["pot_dens_diff"] = float(rng.choice([0.01, 0.1, 0.3]))
    if rng.random() < 0.5:
        d["ref_p"] = float(rng.uniform(0, 500))
    if rng.random() < 0.5:
        d["bottle_index"] = int(rng.integers(0, 3))
    if rng.random() < 0.5:
        d["interp"] = str(rng.choice(["linear", "pchip"]))
    g = {} if conf.grav is None else dict(grav=conf.grav, rho_c=conf.rho_c)
    ml = ctx.call("mixed_layer", mixed_layer, o.S, o.T, o.P, conf.eos_fn, **g, **d)
    if rng.random() < 0.7 and np.isfinite(ml).sum() > 2:
        # a surface about as deep as the mixed layer, so that a small difference of either shows
        o.pin = int(np.nanargmin(ml))
        o.pin_cast = tuple(int(x) for x in np.unravel_index(o.pin, o.hshape))
        c = o.casts[o.pin]
        z = float(ml[o.pin_cast] + rng.uniform(0.05, 0.8) * np.nanstd(ml))
        if c.P[0] < z < c.P[-1]:
            o.pin_p = z
            p_init = o.pin_p if rng.random() < 0.7 else om.init_surface(rng, o, smooth=0.01)
            ctx.event("equivalences_near_base")
        else:
            raise Skip("mixed layer base off the cast")
    if not (ml[o.pin_cast] < o.pin_p) and np.isfinite(ml[o.pin_cast]):
        raise Skip("pinning cast in the mixed layer")
    d0 = dict(d)
    a = om.run(ctx, o, p_init, p_ml=d, **kw)
    ctx.check(d == d0, "dict-changed", "the mixed layer parameters given were modified")
    b = om.run(ctx, o, p_init, p_ml=ml, **kw)
    for x, y in zip(a[:3], b[:3]):
        ctx.check(np.array_equal(x, y, equal_nan=True), "dict-vs-array",
                  f"mixed layer parameters {d} and the mixed layer they give lead to different surfaces", x=x, y=y)
    ctx.event("equivalences_judged")
    ctx.bucket(group, "dict", tuple(sorted(d)))


def sharp(ctx, group, rng, conf, o):
    """Casts alike but for their near-surface bottle: the surface is flat, only the mixed layer is not."""
    nk = o.S.shape[-1]
    P = np.cumsum(rng.uniform(0.2, 1.0, nk)) * 1500.0 / nk
    T1 = 2.0 + 18.0 * np.exp(-P / rng.uniform(100, 800))
    S1 = 35.0 + rng.uniform(-0.2, 0.4) * P / P[-1]
    o.S, o.T, o.P3 = (np.broadcast_to(x, o.hshape + (nk,)).copy() for x in (S1, T1, P))
    k = int(rng.integers(0, min(3, nk - 2)))
    o.pin_p = float(rng.uniform(P[k + 1], P[-2])) if P[k + 1] < P[-2] else float(0.5 * (P[-2] + P[-1]))
    d = dict(pot_dens_diff=float(rng.choice([0.03, 0.1, 0.3])), ref_p=float(rng.choice([0.0, 100.0])))
    if k != 1 or rng.random() < 0.5:
        d["bottle_index"] = k
    if rng.random() < 0.3:
        d["interp"] = str(rng.choice(["linear", "pchip"]))
    # near-surface bottle as light as to put the base near the surface, but not above the bottle
    c = ref.Cast(S1, T1, P, conf.interp)
    for q in np.ndindex(o.hshape):
        z = o.pin_p + rng.normal() * 0.3 * (o.pin_p - P[k])
        s, t = c.st(min(max(z, P[k] + 1e-3), P[-1]))
        x = conf.ref(s, t, d["ref_p"])
        o.S[q][k] = S1[k]
        lo, hi = t, 40.0
        for _ in range(60):
            m = 0.5 * (lo + hi)
            y = conf.ref(S1[k], m, d["ref_p"])
            diff = (x - y) if conf.ref.density else (1 / x - 1 / y)
            lo, hi = (m, hi) if diff < d["pot_dens_diff"] else (lo, m)
        o.T[q][k] = hi
        if k:
            o.T[q][:k] = hi + 0.5 * np.arange(k, 0, -1)
    o.P = o.P3
    o.casts = [ref.Cast(o.S[q], o.T[q], o.P3[q], conf.interp) for q in np.ndindex(o.hshape)]
    g = {} if conf.grav is None else dict(grav=conf.grav, rho_c=conf.rho_c)
    ml = ctx.call("mixed_layer", mixed_layer, o.S, o.T, o.P, conf.eos_fn, **g, **d)
    deep = [q for q in range(o.N) if ml.reshape(-1)[q] < o.pin_p - 1.0]
    if not deep:
        raise Skip("no cast below its mixed layer")
    o.pin = int(deep[int(rng.integers(len(deep)))])
    o.pin_cast = tuple(int(x) for x in np.unravel_index(o.pin, o.hshape))
    kw = dict(ITER_MAX=2, TOL_LRPD_MAV=0.0, ITER_START_WETTING=om.BIG if rng.random() < 0.7 else 1, diags=False)
    p0 = np.full(o.hshape, o.pin_p)
    a = om.run(ctx, o, p0, p_ml=d, **kw)
    b = om.run(ctx, o, p0, p_ml=ml, **kw)
    for x, y in zip(a[:3], b[:3]):
        ctx.check(np.array_equal(x, y, equal_nan=True), "dict-vs-array",
                  f"mixed layer parameters {d} and the mixed layer they give lead to different surfaces", x=x, y=y)
    ctx.event("equivalences_judged")
    flat_ = P[k + 1] <= o.pin_p and (conf.interp == "linear" or k + 2 < nk and P[k + 2] <= o.pin_p)
    if flat_ and kw["ITER_START_WETTING"] == om.BIG and not np.any(np.abs(ml - o.pin_p) < 1e-3):
        ok = ref.component(o.edges, ~(o.pin_p < ml.reshape(-1)), o.pin)
        ctx.check(np.array_equal(np.isfinite(np.asarray(b[2])).reshape(-1), ok), "cut-mismatch",
                  f"flat surface at {o.pin_p}: wet casts are not those joined to the pinning cast below the mixed layer", ml=ml, p=b[2])
        ctx.event("flat_cuts_judged")
        ctx.event("casts_cut", int((o.pin_p < ml).sum()))
    ctx.bucket(group, "sharp", tuple(sorted(d)), k)


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    mode = ["cut", "cut", "wet", "equiv"][i % 4]
    o = om.setup(rng, conf, kind="tree" if mode == "wet" else None, hgrad=0.05 if mode == "equiv" and rng.random() < 0.7 else None)
    if mode == "equiv" and i % 8 == 7:
        return sharp(ctx, group, rng, conf, o)
    if mode == "equiv":
        return equivalence(ctx, group, rng, conf, o)
    if mode == "wet":
        o.tol = 1e-9
    p_init = om.init_surface(rng, o, smooth=0.05)
    pm = np.where(np.isfinite(p_init), p_init, o.pin_p) + rng.normal(size=o.hshape) * 0.1 * o.pin_p - 0.05 * o.pin_p
    pm[rng.random(o.hshape) < 0.2] = -np.inf
    pm[o.pin_cast] = 0.5 * o.pin_p
    pml = pm.reshape(-1)
    form = "gradient" if mode == "cut" and i % 5 == 4 else "poisson"
    slack = 1e-2 if form == "gradient" else 1e-7
    n = int(rng.choice([0, 1, 1, 1, 2, 3])) if mode == "cut" else int(rng.choice([1, 1, 2]))
    kw = dict(p_ml=pm, OMEGA_FORMULATION=form, TOL_LRPD_MAV=0.0)
    if mode == "cut":
        # no wetting in iteration n + 1: none at all, or only before
        kw["ITER_START_WETTING"] = om.BIG
        if n and rng.random() < 0.5:
            kw["ITER_START_WETTING"], kw["ITER_STOP_WETTING"] = 1, int(rng.integers(0, n + 1))
            ctx.event("cuts_after_wetting")
    else:
        kw["ITER_START_WETTING"] = n + 1
    if n == 0:
        old = om.start_state(o, p_init)
    else:
        old = flat(om.run(ctx, o, p_init, ITER_MAX=n, diags=False, **kw))
    s, t, p = (x.copy() for x in old)
    if np.any(np.abs(p - pml) < 1e-6):
        raise Skip("at the mixed layer base")
    if n > 0:
        cut = p < pml
        ctx.event("casts_cut", int(cut.sum()))
        p[cut] = np.nan
    else:
        cut = np.zeros(o.N, dtype=bool)
        if np.any(p < pml):
            ctx.event("first_iteration_uncut")
    comp = ref.component(o.edges, np.isfinite(p), o.pin)
    broke = bool((np.isfinite(p) & ~comp).any())
    if broke:
        ctx.event("disconnecting_cuts")
    if mode == "wet":
        if broke:
            raise Skip("the cut disconnects the surface")
        adj = ref.adjacency(o.edges, o.N)
        pred = {}
        for m, srcs in passes(o, adj, list(np.flatnonzero(comp)), lambda m: pred[m]):
            pred[m] = False
            if o.casts[m].ok:
                ok = decide(ctx, o, links(ctx, o, s, t, p, m, srcs, o.tol), pml[m], o.tol)
                if ok:
                    p[m] = np.mean(ok)
                    s[m], t[m] = o.casts[m].st(p[m])
                    pred[m] = True
        slack, tol_old = 1e-6, 1e-6
    else:
        tol_old = 0.0
    new = om.run(ctx, o, p_init, ITER_MAX=n + 1, diags=True, **kw)
    if mode == "wet":
        ctx.check(int(new[3]["n_newly_wet"][n + 1]) == sum(pred.values()), "count-newly-wet",
                  f"{sum(pred.values())} casts can be wetted below the mixed layer, "
                  f"{new[3]['n_newly_wet'][n + 1]} reported")
        ctx.event("wetting_after_cut_judged")
    phi, comp = om.solve_phi(o, s, t, p)
    om.judge_update(ctx, o, (s, t, p), phi, comp, new[:3], f"{form} iteration {n + 1} with a mixed layer ({mode})",
                    slack, tol_old=tol_old)
    ctx.event("iterations_judged")
    ctx.bucket(group, o.kind, mode, n, min(int(cut.sum()), 3), broke)
    ctx.sample(config=group, grid=o.kind, N=o.N, mode=mode, iteration=n + 1, cut=int(cut.sum()))
