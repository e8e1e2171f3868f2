import numpy as np
from .. import gen, ref, surf
from .c01 import setup, pick_cast
from neutralocean.surface import potential_surf, anomaly_surf

ID = "C03"
RULE = (
    "random oceans x potential/anomaly x every documented way to select a surface (ref+isoval, "
    "ref+pin, pin only, ref+isoval with a pin that must be ignored, pin off the cast, incomplete "
    "selections). Distinct: configuration x kind x mode x what was judged"
)
ASSUMPTIONS = ["reference interpolants and equations of state are right"]
REQUIRED = {"pinned_judged": 60, "ignored_pin_judged": 20, "rejected_judged": 10, "offcast_judged": 8, "zero_refs": 25}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmdfwg06-linear-bsq", "nonlin-linear", "vol-pchip"]
MODES = ["ref+pin", "pin", "ref+isoval", "ref+isoval+pin", "off", "bad"]


def groups(tier):
    return [(f"{g}/{k}", 24 if tier == "quick" else 600)
            for g in (QUICK if tier == "quick" else gen.CONFIGS) for k in ("potential", "anomaly")]


def case(ctx, group, i, rng):
    cname, kind = group.split("/")
    conf = gen.Conf(cname)
    S, T, P3, P, tags = setup(rng, i)
    c = pick_cast(rng, S, P3)
    if c is None:
        from ..harness import Skip
        raise Skip("no ocean")
    fn = potential_surf if kind == "potential" else anomaly_surf
    tol = float(rng.choice([1e-4, 1e-4, 1e-2, 1e-7]))
    mode = MODES[i % len(MODES)]
    cast = ref.Cast(S[c], T[c], P3[c], conf.interp)
    pin_p = float(rng.uniform(cast.P[0], cast.P[-1]))
    if rng.random() < 0.2:
        pin_p = float(cast.P[int(rng.integers(cast.n))])
    pmax = float(np.nanmax(P3))
    if kind == "potential":
        refv = float(rng.uniform(0, pmax))
        if rng.random() < 0.2:
            refv = 0.0
        def iso(r, x):
            return float(conf.ref(*cast.st(x), r))
        local = pin_p
    else:
        refv = (float(rng.uniform(33, 37)), float(rng.uniform(-1, 25)))
        u = rng.random()
        if u < 0.5:  # zero is a value like any other
            refv = (refv[0], 0.0) if u < 0.3 else (0.0, refv[1]) if u < 0.4 else (0.0, 0.0)
            ctx.event("zero_refs")
        def iso(r, x):
            return float(conf.ref(*cast.st(x), x) - conf.ref(r[0], r[1], x))
        local = tuple(float(v) for v in cast.st(pin_p))
    kw = dict(TOL_P_SOLVER=tol, output=False, **conf.kw())
    E = gen.rect_edges(*S.shape[:2])
    if E[0].size:
        kw["grid"] = {"edges": E}
    else:
        kw["diags"] = False
    pin = dict(pin_cast=c if rng.random() < 0.7 else list(c), pin_p=pin_p)

    def judge(s, t, p, d, r, v, pinned):
        surf.judge_consistent(ctx, s, t, p, S, T, P3, conf.interp, mode)
        if pinned:
            ctx.check(p[c] == pin_p, "pin-not-exact",
                      f"{mode}: surface at pin_cast {c} is {p[c]}, pin_p {pin_p}")
        if kw.get("diags", True) or "ref" in d:
            ctx.close(np.array(d["ref"]), np.array(r), "reported-ref", f"{mode}: reported ref",
                      rtol=1e-11)
            ctx.close(np.array(d["isoval"]), np.array(v), "reported-isoval",
                      f"{mode}: reported isoval", rtol=1e-12, atol=4 * conf.slack)
        surf.judge_isosurface(ctx, conf, kind, s, t, p, S, T, P3, r, v, tol, tags=tags)
        ctx.bucket(cname, kind, mode, "diags" if "e_RMS" in d else "plain")

    ctx.sample(config=group, mode=mode, shape=S.shape, pin=pin, ref=refv)
    if mode == "ref+pin":
        out = ctx.call(mode, fn, S, T, P, ref=refv, **pin, **kw)
        judge(*out, refv, iso(refv, pin_p), True)
        ctx.event("pinned_judged")
    elif mode == "pin":
        extra = {}
        if rng.random() < 0.3:
            extra = dict(ref=None) if kind == "potential" or rng.random() < 0.5 else dict(ref=[(None, None), (35.0, None), (None, 5.0)][int(rng.integers(3))])
        out = ctx.call(mode, fn, S, T, P, **extra, **pin, **kw)
        judge(*out, local, iso(local, pin_p), True)
        ctx.event("pinned_judged")
    elif mode in ("ref+isoval", "ref+isoval+pin"):
        x = float(rng.uniform(cast.P[0], cast.P[-1]))
        v = iso(refv, x)
        extra = {}
        if mode == "ref+isoval+pin":
            extra = pin
            ctx.event("ignored_pin_judged")
        out = ctx.call(mode, fn, S, T, P, ref=refv, isoval=v, **extra, **kw)
        judge(*out, refv, v, False)
        d = out[3]
        if "isoval" in d:
            ctx.check(d["isoval"] == v and tuple(np.atleast_1d(d["ref"])) == tuple(np.atleast_1d(refv)),
                      "given-not-kept", f"{mode}: reported {d['ref'], d['isoval']}, given {refv, v}")
    elif mode == "off":
        off = float(cast.P[-1] + rng.uniform(1, 500)) if rng.random() < 0.6 else float(cast.P[0] - rng.uniform(0.01, 50))
        extra = dict(ref=refv) if rng.random() < 0.5 else {}
        s, t, p, d = ctx.call(mode, fn, S, T, P, pin_cast=c, pin_p=off, **extra, **kw)
        ctx.check(np.isnan(s).all() and np.isnan(t).all() and np.isnan(p).all(), "off-cast-pin",
                  f"pin_p = {off} is off cast {c} ({cast.P[0]}..{cast.P[-1]}), yet the surface exists", p=p)
        ctx.event("offcast_judged")
        ctx.bucket(cname, kind, mode, off > cast.P[-1], bool(extra))
    else:
        combos = [{}, dict(ref=refv), dict(pin_p=pin_p), dict(pin_cast=c), dict(ref=refv, pin_p=pin_p),
                  dict(ref=refv, pin_cast=c), dict(isoval=1027.0)]
        k = int(rng.integers(len(combos)))
        try:
            fn(S, T, P, **combos[k], **kw)
        except Exception:
            ctx.event("rejected_judged")
            ctx.bucket(cname, kind, mode, k)
        else:
            ctx.fail("accepted-incomplete", f"{kind}: incomplete selection {list(combos[k])} gave a surface")
