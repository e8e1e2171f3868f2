import numpy as np
from .. import gen, om
from ..harness import Skip

ID = "C29"
RULE = (
    "oceans and grids as for C06, initial surfaces with holes; one run of all iterations with recorded history, then runs "
    "with every smaller maximum, other wetting windows, and minima, maxima and tolerances placed between values of the "
    "recorded history (or equal to one of them), with and without diagnostics. Distinct: configuration x what stopped the "
    "run x iteration it stopped at, and iteration x inside or outside of the wetting window x casts wetted or none"
)
ASSUMPTIONS = ["two runs of the same iterations are bitwise the same (decided by C27)",
               "a number of casts wetted is judged only where it is unaffected by moving the surface by 1e-3 dbar"]
REQUIRED = {"stops_judged": 400, "stopped_by_phi": 40, "stopped_by_p": 30, "stopped_by_max": 60, "held_by_min": 20, "continuations": 150,
            "wetting_judged": 10, "dry_iterations_judged": 60, "defaults_judged": 8, "volume_stops": 20}
CONFS = {"quick": ["gsw-linear", "jmd95-pchip-bsq", "nonlin-linear", "vol-pchip"],
         "thorough": ["gsw-linear", "jmd95-pchip-bsq", "nonlin-linear", "vol-pchip", "gsw-linear-bsq", "jmd95-linear"]}
SHARD = {"quick": 12, "thorough": 100}
NMAX = 6


def groups(tier):
    n = 32 if tier == "quick" else 1200
    return [(c, n) for c in CONFS[tier]]


def n_of(d):
    return len(d["ϕ_MAV"]) - 1


def same(a, b):
    return all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(a[:3], b[:3]))


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    o = om.setup(rng, conf, hgrad=float(rng.choice([0.3, 1.0, 2.0])), rough=float(rng.choice([0, 0, 0.05])))
    form = str(rng.choice(["poisson", "poisson", "gradient"]))
    scalar = rng.random() < 0.2
    p_init = o.pin_p if scalar else om.init_surface(rng, o, smooth=0.01 if i % 2 else None)
    if not scalar and i % 2:
        p_init[rng.random(o.hshape) < 0.3] = np.nan
        p_init[o.pin_cast] = o.pin_p
    a = int(rng.choice([1, 1, 2, 3, NMAX + 1]))
    b = int(rng.choice([0, 1, 2, 3, 5, NMAX, om.BIG]))
    kw = dict(OMEGA_FORMULATION=form, ITER_START_WETTING=np.inf if a > NMAX and i % 2 else a, ITER_STOP_WETTING=b)
    p_ml = None
    if rng.random() < 0.25:
        p_ml = np.full(o.hshape, -np.inf)
        m = rng.random(o.hshape) < 0.3
        p_ml[m] = rng.uniform(0, 1.2, int(m.sum())) * o.pin_p
        p_ml[o.pin_cast] = 0.0
        kw["p_ml"] = p_ml
    if not np.isfinite(o.casts[o.pin].st(o.pin_p)[0]):
        raise Skip("pinning bottle out of range")
    what = f"{group}, {o.kind} {o.hshape}, {form}, wetting in {a}..{b}"
    free = dict(kw, TOL_LRPD_MAV=0.0, TOL_P_CHANGE_RMS=0.0)
    full = om.run(ctx, o, p_init, ITER_MAX=NMAX, diags=True, **free)
    d = full[3]
    ctx.check(n_of(d) == NMAX, "stopped", f"{what}: stopped after {n_of(d)} of {NMAX} iterations with no tolerance set")
    ctx.check(all(len(v) == NMAX + 1 for v in d.values()), "history-length", f"{what}: lengths {[len(v) for v in d.values()]}")
    phi, dp = np.array(d["ϕ_MAV"]), np.array(d["Δp_RMS"])

    # every smaller maximum is a start of the same history
    states = {NMAX: full}
    for m in range(1, NMAX):
        r = states[m] = om.run(ctx, o, p_init, ITER_MAX=m, diags=True, **free)
        ctx.check(n_of(r[3]) == m, "maximum", f"{what}: {n_of(r[3])} iterations with maximum {m}")
        for k in d:
            if k.startswith("timer"):
                continue
            ctx.check(np.array_equal(r[3][k], d[k][: m + 1], equal_nan=True), "not-continued",
                      f"{what}: {k} with maximum {m} is {r[3][k]}, with {NMAX} it is {d[k][: m + 1]}")
        ctx.check(int(d["n_wet"][m]) == int(np.isfinite(np.asarray(r[2])).sum()), "not-continued",
                  f"{what}: {int(np.isfinite(np.asarray(r[2])).sum())} wet casts with maximum {m}, {d['n_wet'][m]} then with {NMAX}")
        ctx.event("continuations")

    window(ctx, o, what, a, b, p_init, states, d, p_ml, form, free, scalar)

    for q in range(6):
        stop(ctx, o, rng, what, p_init, kw, states, phi, dp, q, group)

    # what happens by default
    if i % 4 == 0:
        r = om.run(ctx, o, p_init, OMEGA_FORMULATION=form, diags=True)
        e = om.run(ctx, o, p_init, OMEGA_FORMULATION=form, diags=True, ITER_MIN=1, ITER_MAX=10, ITER_START_WETTING=1, ITER_STOP_WETTING=5,
                   TOL_LRPD_MAV=1e-7, TOL_P_CHANGE_RMS=0.0)
        ctx.check(same(r, e) and n_of(r[3]) == n_of(e[3]), "default", f"{what}: the default is not as documented: {n_of(r[3])} and {n_of(e[3])} iterations")
        ctx.event("defaults_judged")
    ctx.sample(setting=what, phi=phi[1:], dp=dp[1:], wetted=d["n_newly_wet"])


def window(ctx, o, what, a, b, p_init, states, d, p_ml, form, free, scalar):
    if scalar:
        before = None
    else:
        before = np.array(p_init, dtype=float)
        before[np.isnan(om.start_state(o, p_init)[0].reshape(o.hshape))] = np.nan
    for k in range(1, NMAX + 1):
        prev = np.asarray(states[k - 1][2]) if k > 1 else before
        new = np.asarray(states[k][2])
        inside = a <= k <= b
        n = int(d["n_newly_wet"][k])
        if prev is None:
            continue
        prev = prev.copy()
        if k > 1 and p_ml is not None:
            prev[prev < p_ml] = np.nan
        grown = int((np.isfinite(new) & np.isnan(prev)).sum())
        if not inside:
            ctx.check(n == 0 and grown == 0, "wetting-outside",
                      f"{what}: {n} casts reported newly wet, {grown} newly wet, in iteration {k}")
            ctx.event("dry_iterations_judged")
            ctx.bucket("window", k, inside, False)
            continue
        ctx.check(grown <= n, "wetting-count", f"{what}: {n} casts reported newly wet but {grown} are, in iteration {k}")
        counts = set()
        for s in (0.0, 1e-3, -1e-3):
            p = prev + s
            p[o.pin_cast] = o.pin_p
            if not np.isfinite(om.start_state(o, p)[0][o.pin]):
                counts.add(None)
                break
            r = om.run(ctx, o, p, **dict(free, ITER_START_WETTING=1, ITER_STOP_WETTING=1, ITER_MAX=1, diags=True))
            counts.add(int(r[3]["n_newly_wet"][1]))
        if len(counts) == 1 and None not in counts:
            m = counts.pop()
            ctx.check(n == m, "wetting-inside", f"{what}: {n} casts newly wet in iteration {k}, {m} when wetting starts from the same surface")
            ctx.event("wetting_judged", m > 0)
            ctx.event("wet_windows_judged")
            ctx.bucket("window", k, inside, m > 0)
        else:
            ctx.event("wetting_borderline")


def place(rng, v):
    """A tolerance among the values of v: between two, equal to one, below or above all."""
    u = np.unique(v[1:][v[1:] > 0])
    if not len(u):
        return 1e-30
    k = int(rng.integers(len(u)))
    how = int(rng.integers(6))
    if how == 0:
        return float(u[k])
    if how == 1:
        return float(u[-1] * 3)
    lo = u[k - 1] if k else u[0] / 10
    return float(np.sqrt(lo * u[k]))


def stop(ctx, o, rng, what, p_init, kw, states, phi, dp, q, group):
    use = ("phi", "p", "both")[q % 3]
    t1 = place(rng, phi) if use != "p" else 0.0
    t2 = place(rng, dp) if use != "phi" else 0.0
    lo = int(rng.choice([1, 1, 2, 3, NMAX]))
    hi = int(rng.choice([NMAX, NMAX, 4, 2]))
    volume = o.conf.ref(34.5, 3.0, 1000.0) < 1
    given = t1 * 1e6 if volume else t1
    if volume:  # as the code turns it back, to rounding
        t1 = given / 1000.0**2
    end, why = hi, "max"
    for k in range(1, hi + 1):
        c = ("phi" if phi[k] < t1 else "") + ("p" if dp[k] < t2 else "")
        if volume and abs(phi[k] - t1) < 1e-9 * t1:
            return
        if c and k < lo:
            ctx.event("held_by_min")
        if c and k >= lo:
            end, why = k, c
            break
    diags = bool(rng.random() < 0.6)
    w = f"{what}: minimum {lo}, maximum {hi}, tolerances {given} and {t2}"
    r = om.run(ctx, o, p_init, ITER_MIN=lo, ITER_MAX=hi, TOL_LRPD_MAV=given, TOL_P_CHANGE_RMS=t2, diags=diags, **kw)
    if diags:
        ctx.check(n_of(r[3]) == end, "stopped-wrong", f"{w}: {n_of(r[3])} iterations, not {end} ({why}); phi {phi[1:hi+1]}, dp {dp[1:hi+1]}")
    if not same(r, states[end]):
        others = [m for m in states if same(r, states[m])]
        ctx.fail("stopped-wrong", f"{w}: the surface is not that after {end} iterations ({why}) but after {others}; phi {phi[1:hi+1]}, dp {dp[1:hi+1]}")
    ctx.event("stops_judged")
    ctx.event("volume_stops", volume and "phi" in why)
    ctx.event("stopped_by_phi", why == "phi")
    ctx.event("stopped_by_p", why == "p")
    ctx.event("stopped_by_max", why == "max")
    ctx.bucket(group, why, end, lo > 1, diags)
