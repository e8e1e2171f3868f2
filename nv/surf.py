"""Oracles for isopycnal surfaces, shared by several checks."""

import numpy as np
from . import ref


def interp_tol(cast):
    return 1e-11 * (np.nanmax(np.abs(cast.S.Y)) + 1), 1e-11 * (np.nanmax(np.abs(cast.T.Y)) + 1)


def judge_consistent(ctx, s, t, p, S, T, P3, interp, what, skip=()):
    """s, t, p dry together; where wet, p on the cast and s, t its interpolants there."""
    hshape = S.shape[:-1]
    for x in (s, t, p):
        ctx.check(x.shape == hshape, "shape", f"{what}: output shape {x.shape}, casts {hshape}")
    n = int(np.isnan(p).sum())
    ctx.check(
        np.array_equal(np.isnan(s), np.isnan(p)) and np.array_equal(np.isnan(t), np.isnan(p)),
        "nan-structure", f"{what}: s, t, p are not NaN at the same casts", s=s, t=t, p=p,
    )
    ctx.event("dry_casts_seen", n)
    for c in np.ndindex(hshape):
        if np.isnan(p[c]) or c in skip:
            continue
        cast = ref.Cast(S[c], T[c], P3[c], interp)
        ctx.check(cast.ok, "wet-land", f"{what}: cast {c} has < 2 valid bottles but is wet")
        ctx.check(
            cast.P[0] <= p[c] <= cast.P[-1], "off-cast",
            f"{what}: p = {p[c]} outside cast {c}'s range [{cast.P[0]}, {cast.P[-1]}]",
        )
        es, et = cast.st(p[c])
        ts, tt = interp_tol(cast)
        ctx.check(
            abs(s[c] - es) <= ts and abs(t[c] - et) <= tt, "not-interpolant",
            f"{what}: cast {c} at p = {p[c]}: (s, t) = {s[c], t[c]}, interpolants {es, et}",
        )
        ctx.event("wet_casts_interpolant_checked")


def judge_isosurface(ctx, conf, kind, s, t, p, S, T, P3, refv, isoval, tol, skip=(), tags=None):
    hshape = S.shape[:-1]
    eos = conf.ref
    for c in np.ndindex(hshape):
        if c in skip:
            continue
        cast = ref.Cast(S[c], T[c], P3[c], conf.interp)
        tag = tags[c] if tags is not None else "?"
        if not cast.ok:
            ctx.check(np.isnan(p[c]), "wet-land", f"cast {c} ({tag}) cannot be interpolated: {p[c]}")
            ctx.event("land_casts_judged")
            ctx.bucket(conf.name, kind, "land", tag)
            continue

        if kind == "potential":
            def f(x):
                a, b = cast.st(x)
                return eos(a, b, refv) - isoval
        else:
            def f(x):
                a, b = cast.st(x)
                return eos(a, b, x) - eos(refv[0], refv[1], x) - isoval

        slack = conf.slack * (1 if kind == "potential" else 4)
        k, why = ref.judge_root(f, cast.P[0], cast.P[-1], p[c], tol, slack, cast.P)
        ctx.event("judgements")
        ctx.event(f"{k}_casts_judged")
        nz = int(min(3, np.sum(np.diff(np.sign(f(cast.P))) != 0)))
        ctx.bucket(conf.name, kind, k, tag, f"crossings={nz}", f"nk={min(cast.n, 4)}")
        if why:
            ctx.fail(f"{kind}-{k}", f"{kind} surface, cast {c} ({tag}), tol {tol}: {why}",
                     S=S[c], T=T[c], P=P3[c], ref=refv, isoval=isoval)
