import importlib
import numpy as np
import numba as nb
from .. import ref, gen
from neutralocean.eos import make_eos, make_eos_s_t, make_eos_p, vectorize_eos
from neutralocean.eos.tools import make_bsq

ID = "C20"
RULE = (
    "sequences of 18 to 40 requests, each for one of three derivatives of one of six equations of state with one of 14 "
    "(gravity, density) pairs, one missing, or none, longer than the caches; every function is judged when made and "
    "again, in random order, after all others were made; vectorised versions on random broadcasts. Distinct: equation x "
    "derivative x Boussinesq or not x first or repeated request"
)
ASSUMPTIONS = ["reference equations of state as for C19"]
REQUIRED = {"functions_judged": 300, "values_judged": 3000, "repeats_judged": 100, "vectors_judged": 100, "refusals": 20,
            "own_functions_given": 80}

PAIRS = [(9.81, 1035.0), (9.81, 1027.5), (9.7963, 1035.0), (9.7963, 1027.5), (9.8, 1000.0), (10.0, 1000.0), (1.0, 1.0),
         (9.8, 1025.0), (9.82, 1035.0), (9.81, 1030.0), (10, 1030), (3.7, 1035.0), (1035.0, 9.81), (9.81, 1035.01)]


def groups(tier):
    q = tier == "quick"
    return [(f"history{k}", 6 if q else 25) for k in range(6)] + [("vector", 40 if q else 600), ("refuse", 30)]


@nb.njit
def lin_p(s, t, p):
    return 4.5e-3 + 0.0 * p


@nb.njit
def nonlin_p(s, t, p):
    return 4.5e-3 - 1.5e-5 * (t - 10.0)


@nb.njit
def vol_p(s, t, p):
    return 9.7e-4 * (2e-8 * (t - 10.0) - 4.3e-6)


CUSTOM_P = dict(lin=lin_p, nonlin=nonlin_p, vol=vol_p)


def points(rng, n):
    return rng.uniform(0.5, 40, n), rng.uniform(-1, 30, n), rng.uniform(0, 6000, n)


def judge(ctx, fn, q, rng, again):
    name, der, g, r = q
    E = ref.Eos(name, g, r)
    for s, t, p in zip(*points(rng, 3)):
        s, t, p = float(s), float(t), float(p)
        what = f"{name}{der} with grav={g}, rho_c={r} at ({s}, {t}, {p})"
        got = ctx.call(what, fn, s, t, p)
        if der == "":
            ctx.close(got, E(s, t, p), "value", what, rtol=1e-12)
        elif der == "_s_t":
            ctx.check(len(got) == 2, "count", f"{what}: {got}")
            ctx.close(got, np.array(E.s_t(s, t, p)), "derivative", what, rtol=1e-9, atol=E.scale * 1e-14)
        else:
            ctx.close(got, E.p(s, t, p), "p-derivative", what, rtol=1e-9)
        ctx.event("values_judged")
    ctx.event("repeats_judged" if again else "functions_judged")
    ctx.bucket(name, der, g is not None and r is not None, (g is None) + (r is None), again)


def case(ctx, group, i, rng):
    if group == "vector":
        return vector(ctx, i, rng)
    if group == "refuse":
        return refuse(ctx, i, rng)
    n = int(rng.integers(18, 41))
    made = []
    for k in range(n):
        name = str(rng.choice(["gsw", "jmd95", "jmdfwg06", "lin", "nonlin", "vol"]))
        der = str(rng.choice(["", "_s_t", "_p"]))
        g, r = PAIRS[int(rng.integers(len(PAIRS)))]
        u = rng.random()
        if u < 0.2:
            g = r = None
        elif u < 0.25:
            g = None
        elif u < 0.3:
            r = None
        if name in gen.CUSTOM:
            eos = CUSTOM_P[name] if der == "_p" else gen.CUSTOM[name][0 if der == "" else 1]
        elif rng.random() < 0.4:  # the library's own function, rather than its name
            m = importlib.import_module("neutralocean.eos." + name)
            eos = getattr(m, ("specvol" if name == "gsw" else "rho") + der)
            ctx.event("own_functions_given")
        else:
            eos = name
        q = (name, der, g, r)
        if made and rng.random() < 0.25:  # ask again for an earlier one
            q, eos, _ = made[int(rng.integers(len(made)))]
        F = {"": make_eos, "_s_t": make_eos_s_t, "_p": make_eos_p}[q[1]]
        how = int(rng.integers(3))
        if how == 0:
            fn = ctx.call(f"make {q}", F, eos, q[2], q[3])
        elif how == 1:
            fn = ctx.call(f"make {q}", F, eos, grav=q[2], rho_c=q[3])
        else:
            fn = ctx.call(f"make {q}", F, eos, rho_c=q[3], grav=q[2])
        if q[2] is None or q[3] is None:
            if callable(eos):
                ctx.check(fn is eos, "not-itself", f"{q}: a function without Boussinesq is not returned as it is")
        judge(ctx, fn, q, rng, False)
        made.append((q, eos, fn))
    for k in rng.permutation(len(made))[:16]:
        judge(ctx, made[k][2], made[k][0], rng, True)
    ctx.sample(requests=[m[0] for m in made[:8]], total=n)


def vector(ctx, i, rng):
    name = str(rng.choice(["gsw", "jmd95", "jmdfwg06", "lin", "nonlin", "vol"]))
    g, r = PAIRS[int(rng.integers(3))] if rng.random() < 0.3 else (None, None)
    eos = name if name not in gen.CUSTOM else gen.CUSTOM[name][0]
    der = "_p" if name in ("gsw", "jmd95", "jmdfwg06") and rng.random() < 0.3 else ""
    fn = ctx.call("make_eos", make_eos_p if der else make_eos, eos, g, r)
    V = ctx.call("vectorize_eos", vectorize_eos, fn)
    E = ref.Eos(name, g, r)
    for _ in range(4):
        shp = [((3, 4), (3, 4), (3, 4)), ((5,), (5,), ()), ((2, 3, 4), (2, 3, 4), (4,)), ((3, 1), (1, 4), ()), ((), (), ()),
               ((0,), (0,), (0,)), ((2, 3, 4), (3, 1), (4,))][int(rng.integers(7))]
        s = np.asarray(rng.uniform(0.5, 40, shp[0]))
        t = np.asarray(rng.uniform(-1, 30, shp[1]))
        p = np.asarray(rng.uniform(0, 6000, shp[2]))
        if s.ndim and s.size:
            s.reshape(-1)[int(rng.integers(s.size))] = np.nan
        f = E if not der else E.p
        exp = f(*np.broadcast_arrays(s, t, p))
        got = ctx.call("vectorised", V, s, t, p)
        ctx.close(got, exp, "vector-value", f"{name}{der} {shp}, grav={g}", rtol=1e-9 if der else 1e-12)
        ctx.event("vectors_judged")
        ctx.bucket("vector", name, der, shp, g is None)
    # the direct Boussinesq factory, any number of pressure derivatives
    k = int(rng.integers(0, 3))
    base = gen.nonlin
    g, r = PAIRS[int(rng.integers(len(PAIRS)))]
    B = ctx.call("make_bsq", make_bsq, base, g, r, k)
    s, t, p = (float(x[0]) for x in points(rng, 1))
    z = 1e-4 * g * r
    ctx.close(ctx.call("bsq", B, s, t, p), ref.nonlin(s, t, p * z) * z**k, "bsq", f"{k} p-derivatives, {g}, {r}", rtol=1e-12)
    ctx.event("values_judged")


def refuse(ctx, i, rng):
    for F in (make_eos, make_eos_s_t, make_eos_p):
        for bad, err in (("nope", ValueError), (3.0, TypeError), ("GSW ", ValueError)):
            try:
                r = F(bad)
            except err:
                ctx.event("refusals")
                ctx.check(True, "", "")
            except Exception as e:
                ctx.fail("refusal", f"{F.__name__}({bad!r}) raised {type(e).__name__}: {e}")
            else:
                ctx.fail("refusal", f"{F.__name__}({bad!r}) gave {r}")
    ctx.bucket("refuse")
