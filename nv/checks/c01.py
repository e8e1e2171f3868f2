import numpy as np
from .. import gen, ref, surf
from neutralocean.surface import potential_surf
from neutralocean.eos import make_eos

ID = "C01"
KIND = "potential"
RULE = (
    "random oceans (land, ice caps, bottom and interior gaps, single bottles, NaN pressures, "
    "inversions) x equation of state x interpolant x tolerance x (ref, isoval); every cast of "
    "every surface is judged. Distinct: configuration x verdict x cast type x number of "
    "crossings of the isovalue x cast length"
)
ASSUMPTIONS = [
    "reference interpolants (numpy, scipy pchip) and reference equations of state (published "
    "polynomials, GSW C library) are right",
    "roots are compared to within 2 TOL_P_SOLVER and 1e-13 relative rounding of density",
]
REQUIRED = {"wet_casts_judged": 500, "dry_casts_judged": 100, "land_casts_judged": 20}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmd95-pchip-bsq", "jmdfwg06-linear-bsq",
         "nonlin-linear", "vol-pchip", "jmdfwg06-pchip"]


def groups(tier):
    if tier == "quick":
        return [(g, 40) for g in QUICK]
    return [(g, 1500) for g in gen.CONFIGS]


def setup(rng, i):
    hshape = (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
    nk = int(rng.choice([2, 3, 4, 6, 10, 17, 30]))
    rough = float(rng.choice([0.0, 0.0, 0.05, 0.6]))
    return gen.ocean(rng, hshape, nk, rough=rough)


def pick_cast(rng, S, P3):
    ok = [c for c in np.ndindex(S.shape[:-1]) if np.sum(np.isfinite(S[c] + P3[c])) > 1
          and np.diff(ref.first_block(S[c], P3[c]))[0] > 1]
    return ok[int(rng.integers(len(ok)))] if ok else None


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    S, T, P3, P, tags = setup(rng, i)
    tol = float(rng.choice([1e-4, 1e-4, 1e-2, 1e-8]))
    c = pick_cast(rng, S, P3)
    pmax = float(np.nanmax(P3))
    refv = float(rng.choice([0.0, rng.uniform(0, pmax), pmax, 2000.0]))
    top = None
    if c is None:
        isoval = float(conf.ref(35.0, 10.0, refv))
    else:
        k, K = ref.first_block(S[c], P3[c])
        u = rng.random()
        if u < 0.12:  # exactly the shallowest bottle of a cast
            fn = make_eos(conf.eos_fn, conf.grav, conf.rho_c)
            isoval = float(fn(S[c][k], T[c][k], refv))
            top = c
        elif u < 0.2:  # exactly some bottle
            fn = make_eos(conf.eos_fn, conf.grav, conf.rho_c)
            m = int(rng.integers(k, K))
            isoval = float(fn(S[c][m], T[c][m], refv))
        elif u < 0.9:
            cast = ref.Cast(S[c], T[c], P3[c], conf.interp)
            x = rng.uniform(cast.P[0], cast.P[-1])
            isoval = float(conf.ref(*cast.st(x), refv))
        else:
            isoval = float(conf.ref(*[(20.0, 38.0, refv), (40.5, -2.0, refv)][int(rng.integers(2))]))
    s, t, p, d = ctx.call(
        "potential_surf", potential_surf, S, T, P, ref=refv, isoval=isoval, diags=False,
        TOL_P_SOLVER=tol, **conf.kw(single=True),
    )
    ctx.sample(config=group, shape=S.shape, ref=refv, isoval=isoval, tol=tol, p=p)
    surf.judge_consistent(ctx, s, t, p, S, T, P3, conf.interp, "potential_surf")
    surf.judge_isosurface(ctx, conf, KIND, s, t, p, S, T, P3, refv, isoval, tol, tags=tags)
    if top is not None:
        ctx.check(np.isfinite(p[top]), "boundary-bottle",
                  f"isovalue is that of cast {top}'s shallowest bottle, but the cast is dry")
        ctx.event("boundary_bottles_judged")
