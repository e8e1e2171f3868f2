import numpy as np
from .. import gen, ref
from .c04 import judge_link, QUICK
from ..harness import Skip
from neutralocean.traj import neutral_trajectory

ID = "C05"
RULE = (
    "random sequences of 1-12 casts (land first, land in the middle, NaN gaps, windows of the levels, casts too shallow "
    "or too light) x start pressure on, above, below the first cast x configuration x tolerance. "
    "Distinct: configuration x where the trajectory ended x start x layout, plus link situations"
)
ASSUMPTIONS = ["reference interpolants and equations of state are right"]
REQUIRED = {"wet_judged": 300, "ended_judged": 60, "start_off_judged": 15, "complete_trajectories": 30}


def groups(tier):
    return [(g, 90 if tier == "quick" else 4000) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    nc, nk = int(rng.integers(1, 13)), int(rng.choice([2, 3, 6, 15, 30]))
    S, T, P3, P, tags = gen.ocean(
        rng, (nc,), nk, rough=float(rng.choice([0, 0, 0.05])), hgrad=float(rng.choice([0.1, 0.5, 2.0])),
        holes=rng.random() < 0.7, land=0.15)
    if nk > 5 and rng.random() < 0.3:  # as many bottles in each cast, but not at the same levels
        L = int(rng.integers(3, nk))
        for c in range(nc):
            k = int(rng.integers(0, nk - L + 1))
            bad = np.ones(nk, dtype=bool)
            bad[k : k + L] = False
            S[c][bad], T[c][bad] = np.nan, np.nan
            tags[c] = "window"
        ctx.event("windows")
    tol = float(rng.choice([1e-4, 1e-6, 1e-2]))
    c0 = ref.Cast(S[0], T[0], P3[0], conf.interp)
    u = rng.random()
    if c0.ok and u < 0.8:
        p0 = float(rng.uniform(c0.P[0], c0.P[-1]))
        if rng.random() < 0.15:
            p0 = float(c0.P[int(rng.integers(c0.n))])
    else:
        p0 = float(rng.choice([-10.0, 7500.0])) if rng.random() < 0.5 else float(rng.uniform(0, 6000))
    # layouts: vertical dimension first or last, 1D pressure
    args, kw = (S, T, P), {}
    vd = -1
    if rng.random() < 0.3:
        vd = 0
        args = (S.T.copy(), T.T.copy(), P.T.copy() if P.ndim == 2 else P)
        kw["vert_dim"] = 0
    s, t, p = ctx.call("neutral_trajectory", neutral_trajectory, *args, p0, tol_p=tol, **kw,
                       **conf.kw(single=True))
    ctx.sample(config=group, casts=nc, levels=nk, p0=p0, tags=tags.tolist(), p=p)
    for x in (s, t, p):
        ctx.check(x.shape == (nc,), "shape", f"output shape {x.shape}, {nc} casts")
    on = c0.ok and c0.P[0] <= p0 <= c0.P[-1]
    if not on:
        ctx.check(np.isnan(s).all() and np.isnan(t).all() and np.isnan(p).all(), "start-off-cast",
                  f"p0 = {p0} is not on the first cast ({tags[0]}), but the trajectory is {p}")
        ctx.event("start_off_judged")
        ctx.bucket(conf.name, "off", str(tags[0]), vd)
        return
    es, et = c0.st(p0)
    ctx.check(p[0] == p0 and abs(s[0] - es) < 1e-10 and abs(t[0] - et) < 1e-10, "start",
              f"start {s[0], t[0], p[0]}; the first cast at p0 = {p0} has {es, et}")
    for c in range(1, nc):
        if np.isnan(p[c - 1]):
            ctx.check(np.isnan(p[c]) and np.isnan(s[c]) and np.isnan(t[c]), "resumed",
                      f"trajectory ended before cast {c} but resumed: {p}")
            ctx.event("ended_judged")
            continue
        judge_link(ctx, conf, s[c - 1], t[c - 1], p[c - 1], S[c], T[c], P3[c], s[c], t[c], p[c], tol,
                   str(tags[c]), "trajectory")
    end = "complete" if np.isfinite(p).all() else "ended"
    if end == "complete":
        ctx.event("complete_trajectories")
    ctx.bucket(conf.name, end, vd, P.ndim)
