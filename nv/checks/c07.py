import numpy as np
from .. import gen, ref, om

ID = "C07"
RULE = (
    "random oceans and graphs, up to 300 casts; the surface after n and after n+1 iterations (wetting off) is "
    "compared with an independent dense weighted least-squares solution and vertical solve, for "
    "both formulations; with a linear equation of state one iteration must give the isopycnal. "
    "Distinct: configuration x grid x geometry x formulation x n x outcome"
)
ASSUMPTIONS = [
    "reference interpolants, equations of state and numpy's dense least squares are right",
    "poisson solution within 1e-7 of the largest perturbation, gradient (LSQR) within 1e-2",
]
REQUIRED = {"update_wet_judged": 800, "update_dry_judged": 5, "outside_casts_judged": 80, "large_gradient": 6, "large_poisson": 6,
            "isopycnal_judged": 20}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmdfwg06-linear-bsq", "nonlin-linear", "vol-pchip",
         "lin-linear", "jmd95-pchip-bsq"]
SLACK = {"poisson": 1e-7, "gradient": 1e-2}


def groups(tier):
    return [(g, 24 if tier == "quick" else 1200) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    form = "gradient" if i % 3 == 2 else "poisson"
    n = int(rng.choice([0, 0, 1, 2, 3]))
    large = i % 12 in (5, 7)
    if large:  # a solution by iteration takes many steps
        kind = str(rng.choice(["chain", "graph", "graph", "tree"]))
        o = om.setup(rng, conf, kind=kind, n=int(rng.integers(100, 300)), land=0.0 if kind == "chain" else 0.02, holes=kind != "chain")
        p_init = om.init_surface(rng, o, smooth=0.05)
        bad = np.isnan(p_init.reshape(-1))
        if kind == "chain":  # without gaps
            for k in np.flatnonzero(bad):
                p_init.reshape(-1)[k] = o.pin_p
        n = 0
    else:
        o = om.setup(rng, conf)
        p_init = om.init_surface(rng, o)
    kw = dict(ITER_START_WETTING=om.BIG, OMEGA_FORMULATION=form, TOL_LRPD_MAV=0.0)
    if n == 0:
        old = om.start_state(o, p_init)
    else:
        r = om.run(ctx, o, p_init, ITER_MAX=n, ITER_MIN=n, diags=False, **kw)
        old = tuple(np.asarray(x).reshape(-1).copy() for x in r[:3])
    new = om.run(ctx, o, p_init, ITER_MAX=n + 1, ITER_MIN=n + 1, diags=True, **kw)
    phi, comp = om.solve_phi(o, *old)
    slack = SLACK[form]
    om.judge_update(ctx, o, old, phi, comp, new[:3], f"{form} iteration {n + 1}", slack)
    d = new[3]
    key = "ϕ_MAV"
    if key in d:
        ctx.close(d[key][n + 1], np.nanmean(np.abs(phi)), "phi-mav", "reported mean |perturbation|",
                  rtol=10 * slack, atol=20 * conf.slack)
    k = int(comp.sum())
    if large and k > 80:
        ctx.event("large_" + form)
    ctx.bucket(group, o.kind, "uniform" if "dist" not in o.grid else "weighted", form, n,
               "one" if k == 1 else "all" if k == o.N else "part")
    ctx.sample(config=group, grid=o.kind, N=o.N, component=k, form=form, iteration=n + 1,
               phi_max=float(np.nanmax(np.abs(phi))))
    if conf.eos_name == "lin" and n == 0:
        # density differences are exact: one iteration makes the component's surface isopycnal
        s, t, p = (np.asarray(x).reshape(-1) for x in new[:3])
        sig = conf.ref(s, t, 0.0)
        sig0 = sig[o.pin]
        for k in np.flatnonzero(comp):
            if k != o.pin:
                c = o.casts[k]

                def f(x):
                    return conf.ref(*c.st(x), 0.0) - sig0

                kind, why = ref.judge_root(f, c.P[0], c.P[-1], p[k], o.tol,
                                           slack * np.nanmax(np.abs(phi)) + 20 * conf.slack, c.P)
                ctx.check(why is None, "linear-eos", f"one iteration with a linear eos: cast {k}: {why}")
                ctx.event("isopycnal_judged")
