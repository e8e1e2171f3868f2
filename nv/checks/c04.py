import numpy as np
from .. import gen, ref
from neutralocean.traj import ntp_bottle_to_cast

ID = "C04"
RULE = (
    "random bottles and casts (NaN at top, bottom, inside; 0, 1, 2 .. 40 valid bottles; "
    "inversions; bottle above, on, within or below the cast) x configuration x tolerance. "
    "Distinct: configuration x verdict x cast type x bottle position x crossings"
)
ASSUMPTIONS = [
    "reference interpolants and equations of state are right",
    "the neutral relation is judged within 2 tol_p and 1e-13 relative rounding of density",
]
REQUIRED = {"wet_judged": 500, "dry_judged": 100, "land_judged": 30}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmd95-pchip-bsq", "jmdfwg06-linear-bsq",
         "nonlin-linear", "vol-pchip", "jmdfwg06-pchip"]


def groups(tier):
    return [(g, 400 if tier == "quick" else 20000) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def make_cast(rng):
    nk = int(rng.choice([1, 2, 3, 4, 6, 12, 40]))
    S, T, P3, P, tags = gen.ocean(rng, (1,), nk, rough=float(rng.choice([0, 0, 0.05, 0.8])), p3d=True,
                                  holes=rng.random() < 0.6)
    return S[0].copy(), T[0].copy(), P3[0].copy(), str(tags[0])


def judge_link(ctx, conf, sB, tB, pB, S, T, P, s, t, p, tol, tag, what):
    """(s, t, p) is the neutral link from bottle to cast, or all NaN when there is none."""
    cast = ref.Cast(S, T, P, conf.interp)
    nans = [bool(np.isnan(x)) for x in (s, t, p)]
    ctx.check(len(set(nans)) == 1, "nan-structure", f"{what}: NaN in only some of s, t, p: {s, t, p}")
    if not cast.ok:
        ctx.check(nans[0], "wet-land", f"{what}: cast ({tag}) has < 2 valid bottles, yet p = {p}")
        ctx.event("land_judged")
        ctx.bucket(conf.name, what, "land", tag)
        return

    def f(x):
        a, b = cast.st(x)
        m = 0.5 * (x + pB)
        return conf.ref(sB, tB, m) - conf.ref(a, b, m)

    k, why = ref.judge_root(f, cast.P[0], cast.P[-1], p, tol, 2 * conf.slack, cast.P)
    if why:
        ctx.fail(f"link-{k}", f"{what} ({tag}): {why}", bottle=(sB, tB, pB), S=S, T=T, P=P)
    if k == "wet":
        es, et = cast.st(p)
        ctx.check(abs(s - es) <= 1e-10 and abs(t - et) <= 1e-10, "not-interpolant",
                  f"{what}: (s, t) = {s, t} at p = {p}; the cast has {es, et}")
    ctx.event(f"{k}_judged")
    pos = "above" if pB < cast.P[0] else "below" if pB > cast.P[-1] else "on" if pB in cast.P else "in"
    nz = int(min(3, np.sum(np.diff(np.sign(f(cast.P))) != 0)))
    ctx.bucket(conf.name, what, k, tag, pos, nz, min(cast.n, 3))


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    S, T, P, tag = make_cast(rng)
    cast = ref.Cast(S, T, P, conf.interp)
    tol = float(rng.choice([1e-4, 1e-4, 1e-2, 1e-7, 1.0]))
    if cast.ok and rng.random() < 0.85:
        x = rng.uniform(cast.P[0], cast.P[-1])
        sB, tB = (float(v) for v in cast.st(x))
        sB += 0.03 * rng.normal()
        tB += 0.3 * rng.normal()
        u = rng.random()
        pB = float(x + 0.05 * (cast.P[-1] - cast.P[0]) * rng.normal()) if u < 0.6 else (
            float(cast.P[int(rng.integers(cast.n))]) if u < 0.8 else float(rng.uniform(-100, 7000)))
        if rng.random() < 0.1:
            sB, tB, pB = float(cast.S.Y[0]), float(cast.T.Y[0]), float(cast.P[0])
    else:
        sB, tB, pB = float(rng.uniform(5, 40)), float(rng.uniform(-2, 35)), float(rng.uniform(0, 6000))
    pB = max(pB, 0.0)
    s, t, p = ctx.call("ntp_bottle_to_cast", ntp_bottle_to_cast, sB, tB, pB, S, T, P, tol_p=tol,
                       **conf.kw(single=True))
    ctx.sample(config=group, bottle=(sB, tB, pB), n=len(S), tag=tag, result=(s, t, p))
    judge_link(ctx, conf, sB, tB, pB, S, T, P, s, t, p, tol, tag, "link")
    if np.isfinite(p) and cast.ok and abs(sB - cast.S.Y[0]) == 0 and pB == cast.P[0]:
        ctx.event("self_links")
