import contextlib
import io
import numpy as np
from .. import gen, ref, om
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf

ID = "C10"
RULE = (
    "random oceans and graphs; potential, anomaly and omega surfaces with diagnostics and output on "
    "and off; omega histories compared entry by entry with runs stopped after each iteration. "
    "Distinct: configuration x grid x kind of surface x start x wetting x formulation x iterations"
)
ASSUMPTIONS = ["reference derivatives of the equation of state are right (to 1e-12)"]
REQUIRED = {"histories_judged": 60, "entries_judged": 150, "isopycnal_judged": 60, "changes_judged": 60,
            "silent_pairs_judged": 120}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmdfwg06-linear-bsq", "nonlin-linear", "vol-pchip",
         "lin-linear", "jmd95-pchip-bsq"]
KEYS = ["e_MAV", "e_RMS", "n_wet", "timer", "ϕ_MAV", "Δp_MAV", "Δp_RMS", "Δp_Linf", "n_newly_wet", "timer_bfs",
        "timer_mat", "timer_update"]
TIMERS = [k for k in KEYS if k.startswith("timer")]


def groups(tier):
    return [(g, 30 if tier == "quick" else 1200) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def same(a, b):
    return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[:3], b[:3]))


def judge_norms(ctx, o, s, t, p, rms, mav, nwet, what):
    r, m = ref.norms(o.conf.ref, s, t, p, o.edges, o.dist, o.distperp)
    ar, am = ref.norms_scale(o.conf.ref, s, t, p, o.edges, o.dist, o.distperp)
    ctx.close(rms, r, "e_RMS", f"{what}: e_RMS", rtol=1e-9, atol=1e-12 * ar)
    ctx.close(mav, m, "e_MAV", f"{what}: e_MAV", rtol=1e-9, atol=1e-12 * am)
    n = int(np.isfinite(p).sum())
    ctx.check(int(nwet) == n, "n_wet", f"{what}: n_wet = {nwet}, but {n} casts are wet")


def quiet(ctx, fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.call(fn.__name__, fn, *a, **k)


def isopycnal(ctx, group, rng, conf, o):
    fn = potential_surf if rng.random() < 0.5 else anomaly_surf
    kw = dict(pin_cast=o.pin_cast, pin_p=o.pin_p, TOL_P_SOLVER=o.tol, **conf.kw())
    if rng.random() < 0.5:
        kw["ref"] = float(rng.uniform(0, 2000)) if fn is potential_surf else (35.0, float(rng.uniform(0, 20)))
    a = ctx.call(fn.__name__, fn, o.S, o.T, o.P, grid=o.grid, output=False, **kw)
    judge_norms(ctx, o, *a[:3], a[3]["e_RMS"], a[3]["e_MAV"], a[3]["n_wet"], fn.__name__)
    b = ctx.call(fn.__name__, fn, o.S, o.T, o.P, diags=False, **kw)
    c = quiet(ctx, fn, o.S, o.T, o.P, grid=o.grid, output=True, **kw)
    ctx.check(same(a, b), "diags-change", f"{fn.__name__}: the surface differs with diags=False")
    ctx.check(same(a, c), "output-change", f"{fn.__name__}: the surface differs with output=True")
    ctx.event("silent_pairs_judged", 2)
    for k in ("ref", "isoval"):
        ctx.check(np.array_equal(np.asarray(a[3][k]), np.asarray(b[3][k]), equal_nan=True), "diags-ref",
                  f"{fn.__name__}: {k} differs with diags=False")
    ctx.event("isopycnal_judged")
    ctx.bucket(group, o.kind, fn.__name__, "ref" in kw, int(np.isfinite(a[2]).sum()) > 1)


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    o = om.setup(rng, conf)
    if i % 3 == 0:
        return isopycnal(ctx, group, rng, conf, o)
    arr = bool(rng.random() < 0.6)
    p_init = om.init_surface(rng, o) if arr else o.pin_p
    n = int(rng.integers(1, 5))
    wet = bool(rng.random() < 0.5)
    form = "gradient" if rng.random() < 0.25 else "poisson"
    kw = dict(OMEGA_FORMULATION=form, TOL_LRPD_MAV=float(rng.choice([0.0, 1e-7, 1e-3])))
    if not wet:
        kw["ITER_START_WETTING"] = om.BIG
    s, t, p, d = om.run(ctx, o, p_init, ITER_MAX=n, diags=True, **kw)
    missing = [k for k in KEYS if k not in d]
    ctx.check(not missing, "keys", f"diagnostics lack {missing}")
    m = len(d["e_RMS"]) - 1
    for k in KEYS:
        ctx.check(len(d[k]) == m + 1, "length",
                  f"diagnostic {k} has {len(d[k])} entries, e_RMS {m + 1} (initial surface and {m} iterations)")
        ctx.check(bool(np.all(np.isfinite(d[k]))), "not-finite", f"diagnostic {k} has non-finite entries {d[k]}")
    ctx.check(1 <= m <= n, "count", f"{m} iterations recorded, at most {n} asked for")
    for k in TIMERS:
        ctx.check(bool(np.all(d[k] >= 0)), "timer", f"negative time in {k}: {d[k]}")
    b = om.run(ctx, o, p_init, ITER_MAX=n, diags=False, **kw)
    ctx.check(same((s, t, p), b), "diags-change", "omega_surf: the surface differs with diags=False")
    ctx.check(len(b[3]) == 0, "diags-off", f"diags=False, yet diagnostics {list(b[3])}")
    c = quiet(ctx, omega_surf, o.S, o.T, o.P, o.grid, o.pin_cast, p_init, output=True, ITER_MAX=n, diags=True,
              TOL_P_SOLVER=o.tol, **kw, **conf.kw())
    ctx.check(same((s, t, p), c), "output-change", "omega_surf: the surface differs with output=True")
    for k in KEYS:
        ctx.check(k in TIMERS or np.array_equal(d[k], c[3][k]), "output-change", f"{k} differs with output=True")
    ctx.event("silent_pairs_judged", 2)
    prev = None
    for j in range(m + 1):
        if j == m:
            st = (s, t, p)
        elif j == 0 and arr:
            st = om.start_state(o, p_init)
        else:
            st = om.run(ctx, o, p_init, **{**kw, "ITER_MAX": j, "diags": False})[:3]
        st = tuple(np.asarray(x).reshape(-1) for x in st)
        judge_norms(ctx, o, *st, d["e_RMS"][j], d["e_MAV"][j], d["n_wet"][j], f"omega, after iteration {j} of {m}")
        ctx.event("entries_judged")
        if prev is not None and not wet:
            dp = st[2] - prev[2]
            dp = dp[np.isfinite(dp)]
            at = 1e-12 * float(np.nanmax(np.abs(prev[2])))
            for k, v in (("Δp_MAV", np.mean(np.abs(dp))), ("Δp_RMS", np.sqrt(np.mean(dp**2))),
                         ("Δp_Linf", np.max(np.abs(dp)))):
                ctx.close(d[k][j], v, "change", f"{k} of iteration {j}", rtol=1e-9, atol=at)
            ctx.check(d["n_newly_wet"][j] == 0, "n_newly_wet", f"wetting is off, n_newly_wet = {d['n_newly_wet']}")
            ctx.event("changes_judged")
        prev = st
    ctx.event("histories_judged")
    ctx.bucket(group, o.kind, "omega", arr, wet, form, m)
    ctx.sample(config=group, grid=o.kind, N=o.N, iterations=m, e_RMS=d["e_RMS"], n_wet=d["n_wet"])
