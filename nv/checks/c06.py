import numpy as np
from .. import gen, ref, om, surf
from neutralocean.surface import omega_surf

ID = "C06"
RULE = (
    "random oceans on rectilinear, periodic, tree and general graphs x configuration x array or "
    "scalar initial surface x both formulations x 0-4 iterations x wetting on/off x mixed layer; "
    "each returned surface judged. Distinct: configuration x grid x start x formulation x outcome"
)
ASSUMPTIONS = ["reference interpolants are right", "the pinning cast is not within the mixed layer"]
REQUIRED = {"surfaces_judged": 120, "wet_casts_interpolant_checked": 800, "disconnected_judged": 40,
            "refused_judged": 6}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmdfwg06-linear-bsq", "nonlin-linear", "vol-pchip",
         "lin-linear", "jmd95-pchip-bsq"]


def groups(tier):
    return [(g, 30 if tier == "quick" else 1200) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    o = om.setup(rng, conf, rough=float(rng.choice([0, 0, 0.05])))
    arr = bool(rng.random() < 0.5)
    p_init = om.init_surface(rng, o) if arr else o.pin_p
    form = "poisson" if rng.random() < 0.7 else "gradient"
    if rng.random() < 0.3:
        form = form.upper() if rng.random() < 0.5 else form.capitalize()
    it = int(rng.integers(0, 5))
    kw = dict(ITER_MAX=it, OMEGA_FORMULATION=form, TOL_LRPD_MAV=0.0, diags=it > 0 and rng.random() < 0.5)
    if rng.random() < 0.3:
        kw["ITER_START_WETTING"] = int(rng.choice([2, om.BIG]))
    if rng.random() < 0.2:
        kw["ITER_STOP_WETTING"] = int(rng.integers(0, 3))
    if rng.random() < 0.3:
        pm = rng.uniform(0, 0.5, o.hshape) * o.pin_p
        pm[o.pin_cast] = min(pm[o.pin_cast], 0.9 * o.pin_p)
        kw["p_ml"] = pm
    if i % 10 == 9:  # a start that does not exist at the pinning cast must be refused
        c = o.casts[o.pin]
        bad = float(c.P[-1] + rng.uniform(1, 100)) if rng.random() < 0.5 else float("nan")
        if arr:
            p_init[o.pin_cast] = bad
        else:
            p_init = bad
        try:
            r = omega_surf(o.S, o.T, o.P, o.grid, o.pin_cast, p_init, output=False, **kw, **conf.kw())
        except Exception:
            ctx.event("refused_judged")
            ctx.bucket(group, "refused", arr)
            return
        ctx.fail("accepted-nan-pin", f"start {bad} is not on the pinning cast, yet a surface came back", p=r[2])
    s, t, p, d = om.run(ctx, o, p_init, **kw)
    ctx.sample(config=group, grid=o.kind, shape=o.S.shape, pin=o.pin_cast, pin_p=o.pin_p,
               start="array" if arr else "scalar", iters=it, p=p)
    surf.judge_consistent(ctx, s, t, p, o.S, o.T, o.P3, conf.interp, f"omega {form} {it}")
    ctx.check(p[o.pin_cast] == o.pin_p, "pin-moved",
              f"omega ({form}, {it} iterations): p at the pinning cast is {p[o.pin_cast]}, not {o.pin_p}")
    es, et = o.casts[o.pin].st(o.pin_p)
    ctx.check(abs(s[o.pin_cast] - es) < 1e-10 and abs(t[o.pin_cast] - et) < 1e-10, "pin-st",
              f"s, t at the pinning cast {s[o.pin_cast], t[o.pin_cast]}, interpolants {es, et}")
    if it > 0 or not arr:
        reach = ref.component(o.edges, np.array([c.ok for c in o.casts]), o.pin)
        if not reach.all():
            ctx.event("disconnected_judged")
        ctx.check(not np.any(np.isfinite(p.reshape(-1)) & ~reach), "wet-unreachable",
                  "casts that no path of ocean casts joins to the pinning cast are wet", p=p)
    ctx.event("surfaces_judged")
    n = int(np.isfinite(p).sum())
    ctx.bucket(group, o.kind, arr, form.lower(), it, "alone" if n == 1 else "all" if n == o.N else "part",
               "p_ml" in kw)
