import numpy as np
from .. import gen, ref, surf
from .c01 import setup, pick_cast, QUICK
from neutralocean.surface import anomaly_surf
from neutralocean.eos import make_eos

ID = "C02"
KIND = "anomaly"
RULE = (
    "random oceans as for potential surfaces x configuration x tolerance x reference (S, T) x "
    "isovalue of the specific volume / density anomaly; every cast judged. Distinct: "
    "configuration x verdict x cast type x number of crossings x cast length"
)
ASSUMPTIONS = [
    "reference interpolants and equations of state are right",
    "roots are compared to within 2 TOL_P_SOLVER and 4e-13 relative rounding of density",
]
REQUIRED = {"wet_casts_judged": 400, "dry_casts_judged": 100, "land_casts_judged": 20}


def groups(tier):
    if tier == "quick":
        return [(g, 40) for g in QUICK]
    return [(g, 1500) for g in gen.CONFIGS]


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    S, T, P3, P, tags = setup(rng, i)
    tol = float(rng.choice([1e-4, 1e-4, 1e-2, 1e-8]))
    c = pick_cast(rng, S, P3)
    u = rng.random()
    top = None
    if c is None:
        refv, isoval = (35.0, 10.0), 0.0
    else:
        cast = ref.Cast(S[c], T[c], P3[c], conf.interp)
        x = rng.uniform(cast.P[0], cast.P[-1])
        s0, t0 = (float(v) for v in cast.st(x))
        if u < 0.4:
            refv, isoval = (s0, t0), 0.0
        elif u < 0.8:
            refv = (float(rng.uniform(34, 36)), float(rng.uniform(0, 20)))
            isoval = float(conf.ref(s0, t0, x) - conf.ref(*refv, x))
        elif u < 0.9:
            fn = make_eos(conf.eos_fn, conf.grav, conf.rho_c)
            k, K = ref.first_block(S[c], P3[c])
            refv = (float(rng.uniform(34, 36)), float(rng.uniform(0, 20)))
            pk = P3[c][k]
            isoval = float(fn(S[c][k], T[c][k], pk) - fn(refv[0], refv[1], pk))
            top = c
        else:
            refv, isoval = (35.0, 5.0), float(rng.normal() * conf.ref.scale * 0.02)
    s, t, p, d = ctx.call(
        "anomaly_surf", anomaly_surf, S, T, P, ref=refv, isoval=isoval, diags=False,
        TOL_P_SOLVER=tol, **conf.kw(single=True),
    )
    ctx.sample(config=group, shape=S.shape, ref=refv, isoval=isoval, tol=tol, p=p)
    surf.judge_consistent(ctx, s, t, p, S, T, P3, conf.interp, "anomaly_surf")
    surf.judge_isosurface(ctx, conf, KIND, s, t, p, S, T, P3, refv, isoval, tol, tags=tags)
    if top is not None:
        ctx.check(np.isfinite(p[top]), "boundary-bottle",
                  f"isovalue is that of cast {top}'s shallowest bottle, but the cast is dry")
        ctx.event("boundary_bottles_judged")
