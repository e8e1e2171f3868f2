import copy
import numpy as np
import xarray as xr
from .. import gen
from neutralocean import eos as neos
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
from neutralocean.mixed_layer import mixed_layer
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
from neutralocean.label import veronis
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.ppinterp import make_pp
from neutralocean.lib import val_at
from neutralocean.grid import rectilinear, tripolar, graph, xgcm

ID = "C32"
RULE = (
    "random valid calls of surfaces, mixed layers, trajectories, labels, neutrality errors, grids and factories, each made "
    "impossible in one way (all ways listed in the code) and made again. Distinct: function x way x mode of the call"
)
ASSUMPTIONS = ["a refusal is any Python exception"]
REQUIRED = {"refusals_judged": 700, "answers_compared": 250, "surfaces_refused": 100, "omega_refused": 60, "casts_refused": 60,
            "grids_refused": 150, "factories_refused": 100}

CONFS = ("gsw-linear", "lin-linear")


def groups(tier):
    k = 1 if tier == "quick" else 25
    return [("surface", 160 * k), ("omega", 90 * k), ("casts", 120 * k), ("grid", 260 * k), ("factory", 200 * k)]


SHARD = {"quick": {"surface": 80}, "thorough": {"surface": 1000, "omega": 600, "casts": 1000, "grid": 2000, "factory": 2000}}


def snap(x):
    if isinstance(x, xr.DataArray):
        return ("xr", x.dims, snap(x.values), {k: snap(v.values) for k, v in x.coords.items()})
    if hasattr(x, "toarray"):
        return ("sp", snap(x.toarray()))
    if isinstance(x, np.ndarray):
        return ("np", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ("d", {k: snap(v) for k, v in x.items() if not str(k).startswith("timer")})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return repr(x) if isinstance(x, (float, np.floating)) else x


def refuse(ctx, what, way, fn, bad_a, bad_k, good_a, good_k, kind, *where):
    """The bad call raises and changes nothing; the good one is answered before and after it, alike."""
    first = snap(ctx.call(f"{what} (valid)", fn, *good_a, **good_k))
    before = snap([bad_a, bad_k])
    try:
        got = fn(*bad_a, **bad_k)
    except Exception as e:
        err = type(e).__name__
    else:
        ctx.fail("answered", f"{what} with {way} returned {str(got)[:300]} instead of raising an error")
    ctx.check(snap([bad_a, bad_k]) == before, "changed", f"{what} with {way} changed what it was given before it raised {err}")
    again = snap(ctx.call(f"{what} (valid, after a refusal)", fn, *good_a, **good_k))
    ctx.check(first == again, "differs-after", f"{what}: answered differently after a request with {way} was refused")
    ctx.event("refusals_judged")
    ctx.event("answers_compared")
    ctx.event(kind)
    ctx.bucket(what, way, err, *where)
    ctx.sample(call=what, way=way, error=err)


def one(rng, d):
    k = list(d)
    k = k[int(rng.integers(len(k)))]
    return k, d[k]


def case(ctx, group, i, rng):
    {"surface": surface, "omega": omega, "casts": casts, "grid": grid, "factory": factory}[group](ctx, rng)


DROP = object()


def changed(kw, ch):
    k = {**kw, **ch}
    return {x: v for x, v in k.items() if v is not DROP}


def water(rng, labelled=False):
    ni, nj, nk = (int(v) for v in rng.integers(2, 6, 3))
    nk += 2
    S, T, P3, P, _ = gen.ocean(rng, (ni, nj), nk, holes=False, land=np.zeros((ni, nj), bool))
    S, T = S.copy(), T.copy()
    if labelled:
        S, T = (xr.DataArray(x, dims=("x", "y", "z")) for x in (S, T))
    return (ni, nj), S, T, P3, P


def surface(ctx, rng):
    conf = gen.Conf(CONFS[int(rng.integers(2))])
    lab = rng.random() < 0.3
    (ni, nj), S, T, P3, P = water(rng, lab)
    kind = str(rng.choice(["potential", "anomaly"]))
    fn = potential_surf if kind == "potential" else anomaly_surf
    mode = str(rng.choice(["ref+isoval", "ref+pin", "pin"]))
    pin = (int(rng.integers(ni)), int(rng.integers(nj)))
    lo, hi = P3[pin][0], P3[pin][-1]
    ref = 1000.0 if kind == "potential" else (35.0, 5.0)
    diags = bool(rng.integers(2))
    g = rectilinear.build_grid((ni, nj), (False, True), 1.0, 1.0, 1.0, 1.0)
    kw = dict(conf.kw(), diags=diags, output=False, grid=g, vert_dim="z" if lab else -1)
    if "ref" in mode:
        kw["ref"] = ref
    if "isoval" in mode:
        v = np.asarray(S)[0, 0, 1], np.asarray(T)[0, 0, 1]
        kw["isoval"] = float(conf.ref(*v, 1000.0)) if kind == "potential" else 0.0
    else:
        kw.update(pin_cast=pin, pin_p=float(rng.uniform(lo, hi)))
    args = [S, T, P]
    W = {
        "an unknown equation of state": dict(eos="teos11"),
        "a number as equation of state": dict(eos=5.0),
        "an unknown interpolant": dict(interp="cubic"),
        "pressure of another length": None,
        "a vertical dimension that is not there": dict(vert_dim="nowhere"),
    }
    if diags:
        W["diagnostics without a grid"] = dict(grid=DROP)
        W["diagnostics with an empty grid"] = dict(grid={})
        W["diagnostics with a grid without edges"] = dict(grid={"dist": np.ones(3)})
        W["diagnostics with an equation of state without derivatives"] = dict(eos=gen.lin)
    if mode == "ref+isoval":
        W["an isovalue and no reference"] = dict(ref=DROP)
    else:
        W["no pinning cast"] = dict(pin_cast=DROP)
        W["no pinning pressure"] = dict(pin_p=DROP)
        W["no pinning at all"] = dict(pin_cast=DROP, pin_p=DROP)
        W["words as pinning pressure"] = dict(pin_p="1000")
        W["a list as pinning pressure"] = dict(pin_p=[1000.0])
        W["a pinning cast beyond the first dimension"] = dict(pin_cast=(ni + int(rng.integers(3)), 0))
        W["a pinning cast beyond the second dimension"] = dict(pin_cast=(0, nj + int(rng.integers(3))))
        W["a pinning cast before the first"] = dict(pin_cast=(-ni - 1, 0))
        W["a pinning cast of too many numbers"] = dict(pin_cast=(0, 0, 0, 0))
    if "ref" in mode:
        if kind == "potential":
            W["a tuple as reference pressure"] = dict(ref=(35.0, 5.0))
            W["words as reference pressure"] = dict(ref="1000")
        else:
            W["one number as reference water"] = dict(ref=35.0)
            W["three numbers as reference water"] = dict(ref=(35.0, 5.0, 1000.0))
            W["a tuple of one as reference water"] = dict(ref=(35.0,))
    way, ch = one(rng, W)
    bad = list(args)
    if ch is None:
        bad[2] = np.append(P3[0, 0], P3[0, 0][-1] + 10.0)
        ch = {}
    refuse(ctx, f"{kind}_surf", way, fn, bad, changed(kw, ch), args, kw, "surfaces_refused", mode, diags, lab)


def omega(ctx, rng):
    conf = gen.Conf(CONFS[int(rng.integers(2))])
    (ni, nj), S, T, P3, P = water(rng)
    if ni == nj:
        ctx.event("square_oceans")
    pin = (int(rng.integers(ni)), int(rng.integers(nj)))
    p1 = float(P3[pin][0] + (P3[pin][-1] - P3[pin][0]) * rng.uniform(0.3, 0.7))
    start = "array" if rng.random() < 0.6 else "number"
    p0 = np.full((ni, nj), p1) if start == "array" else p1
    g = rectilinear.build_grid((ni, nj), (False, True), 1.0, 1.0, 1.0, 1.0)
    kw = dict(conf.kw(), grid=g, pin_cast=pin, p_init=p0, ITER_MAX=int(rng.integers(1, 3)), output=False,
              diags=bool(rng.integers(2)), OMEGA_FORMULATION=str(rng.choice(["poisson", "gradient"])))
    land = np.asarray(S).copy()
    land[pin] = np.nan
    landT = np.where(np.isnan(land), np.nan, T)
    deep = float(np.nanmax(P3) + 100.0)

    def at(v):
        if start == "number":
            return v
        q = p0.copy()
        q[pin] = v
        return q

    W = {
        "an unknown equation of state": dict(eos="teos11"),
        "an equation of state without derivatives": dict(eos=gen.lin),
        "an unknown interpolant": dict(interp="cubic"),
        "an unknown formulation": dict(OMEGA_FORMULATION="laplace"),
        "a pinning cast beyond the first dimension": dict(pin_cast=(ni, 0)),
        "a pinning cast beyond the second dimension": dict(pin_cast=(0, nj)),
        "a pinning cast of three numbers": dict(pin_cast=(0, 0, 0)),
        "a start below the pinning cast": dict(p_init=at(deep)),
        "a start above the pinning cast": dict(p_init=at(-50.0)),
        "a start missing at the pinning cast": dict(p_init=at(np.nan)),
        "a pinning cast on land": "land",
        "a start of one row more": dict(p_init=np.full((ni + 1, nj), p1)),
        "a start of one column less": dict(p_init=np.full((ni, nj - 1), p1)),
        "a flat start": dict(p_init=np.full(ni * nj, p1)),
        "a list as start": dict(p_init=[[p1] * nj] * ni),
        "no start": dict(p_init=None),
        "a grid without edges": dict(grid={"dist": g["dist"], "distperp": g["distperp"]}),
    }
    if ni != nj:
        W["a start turned over"] = dict(p_init=np.full((nj, ni), p1))
    way, ch = one(rng, W)
    args, bad = [S, T, P], [S, T, P]
    if ch == "land":
        bad, ch = [land, landT, P], {}
    refuse(ctx, "omega_surf", way, omega_surf, bad, changed(kw, ch), args, kw, "omega_refused", start, kw["diags"])


def casts(ctx, rng):
    (ni, nj), S, T, P3, P = water(rng)
    what = str(rng.choice(["mixed_layer", "neutral_trajectory", "ntp_bottle_to_cast", "veronis", "ntp_epsilon_errors",
                           "ntp_epsilon_errors_norms", "val_at"]))
    P1 = P3[0, 0]
    E = {"an unknown equation of state": dict(eos="teos11"), "a number as equation of state": dict(eos=5.0)}
    I = {"an unknown interpolant": dict(interp="cubic"), "no interpolant": dict(interp=None)}
    long = np.append(P1, P1[-1] + 10.0)
    kw = dict(eos="gsw")
    if what == "mixed_layer":
        fn, args = mixed_layer, [S, T, P]
        W = {**E, **I, "a vertical dimension that is not there": dict(vert_dim="nowhere"), "pressure of another length": (S, T, long)}
    elif what == "neutral_trajectory":
        fn, args = neutral_trajectory, [S[0], T[0], P1, float(P1[1])]
        W = {**E, **I, "a vertical dimension that is not there": dict(vert_dim="nowhere"),
             "pressure of another length": (S[0], T[0], long, float(P1[1])), "an ocean, not a section": (S, T, P3, float(P1[1]))}
    elif what == "ntp_bottle_to_cast":
        fn, args = ntp_bottle_to_cast, [35.0, 5.0, float(P1[1]), S[0, 0], T[0, 0], P1]
        W = {**E, **I}
    elif what == "veronis":
        fn, args = veronis, [float(P1[1]), S[0, 0], T[0, 0], P1]
        W = {**I, "an unknown equation of state": dict(eos="teos11")}
        if rng.random() < 0.5:
            kw = {}
            W = {**I}
    elif what.startswith("ntp"):
        fn = ntp_epsilon_errors if what.endswith("errors") else ntp_epsilon_errors_norms
        g = rectilinear.build_grid((ni, nj), (False, True), 1.0, 1.0, 1.0, 1.0)
        args = [S[..., 0], T[..., 0], P3[..., 0], g]
        kw = dict(eos_s_t="gsw")
        W = {"an unknown equation of state": dict(eos_s_t="teos11"), "a number as equation of state": dict(eos_s_t=5.0),
             "a grid without edges": (*args[:3], {"dist": g["dist"]})}
    else:
        fn, args, kw = val_at, [S, rng.integers(0, S.shape[-1], (ni, nj))], {}
        W = {"indices of one dimension too few": (S, np.zeros(ni, int)),
             "indices of one dimension too many": (S, np.zeros((ni, nj, 1), int)), "an index beyond the data": (S, S.shape[-1])}
    way, ch = one(rng, W)
    bad, bk = (args, changed(kw, ch)) if isinstance(ch, dict) else (list(ch), kw)
    refuse(ctx, what, way, fn, bad, bk, args, kw, "casts_refused")


def grid(ctx, rng):
    ni, nj = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    what = str(rng.choice(["rectilinear", "tripolar", "graph", "xgcm"]))
    per = (bool(rng.integers(2)), bool(rng.integers(2)))
    d = lambda: rng.uniform(1, 2, (ni, nj))
    if what == "rectilinear":
        fn, args, kw = rectilinear.build_grid, [(ni, nj), per], dict(dxC=d(), dyC=d(), dyG=d(), dxG=d())
        k = str(rng.choice(list(kw)))
        W = {
            "one dimension": ([(ni,), per], {}),
            "three dimensions": ([(ni, nj, 2), (*per, False)], {}),
            "periodic of one": ([(ni, nj), per[:1]], {}),
            "periodic of three": ([(ni, nj), (*per, False)], {}),
            "a distance of one row more": ([*args], {k: rng.uniform(1, 2, (ni + 1, nj))}),
            "a distance of one number more": ([*args], {k: rng.uniform(1, 2, nj + 1)}),
        }
    elif what == "tripolar":
        fn, args, kw = tripolar.build_grid, [(ni, nj), *(d() for _ in range(4))], {}
        j = int(rng.integers(1, 5))

        def put(x):
            a = list(args)
            a[j] = x
            return a, {}

        W = {
            "one dimension": ([(ni,), *args[1:]], {}),
            "three dimensions": ([(ni, nj, 2), *args[1:]], {}),
            "a distance of one row more": put(rng.uniform(1, 2, (ni + 1, nj))),
            "a distance of one column less": put(rng.uniform(1, 2, (ni, nj - 1)) if nj > 2 else np.ones((ni, nj + 1))),
            "a distance of three rows more": put(rng.uniform(1, 2, (ni + 3, nj + 2))),
        }
    elif what == "graph":
        n = int(rng.integers(4, 9))
        M = np.triu(rng.uniform(1, 2, (n, n)) * (rng.random((n, n)) < 0.7), 1)
        # as many edges, with the same first casts or the same second casts
        r, c = int(rng.integers(0, n - 3)), int(rng.integers(2, n - 1))
        r = min(r, c - 2)
        first = rng.random() < 0.5
        if first:
            M[:, c : c + 2] = 0.0
        else:
            M[r : r + 2, :] = 0.0
        Z = M.copy()
        M[r, c] = 1.5
        Z[(r, c + 1) if first else (r + 1, c)] = 1.5
        X = M.copy()
        X[r, c] = 0.0
        sym = rng.random() < 0.5
        G = {"dist": M + M.T if sym else M, "distperp": 2 * M}
        if rng.random() < 0.5:
            import scipy.sparse as sp

            G = {k: sp.csr_matrix(v) for k, v in G.items()}
            X, Z = sp.csr_matrix(X), sp.csr_matrix(Z)
        fn, args, kw = graph.build_grid, [G], {}
        W = {
            "no distances": ([{"distperp": G["distperp"]}], {}),
            "no faces": ([{"dist": G["dist"]}], {}),
            "a face less than distances": ([{"dist": G["dist"], "distperp": X}], {}),
            "faces of other edges": ([{"dist": G["dist"], "distperp": Z}], {}),
            "distances of other edges": ([{"dist": Z, "distperp": G["distperp"]}], {}),
            "a distance less than faces": ([{"dist": X, "distperp": G["distperp"]}], {}),
        }
    else:
        n = int(rng.integers(2, 5))
        fc = {"tile": {0: {"X": ((1, "X", False), (1, "X", False)), "Y": (None, None)},
                       1: {"X": ((0, "X", False), (0, "X", False)), "Y": (None, None)}}}
        dims = tuple(rng.permutation(["tile", "j", "i"]).tolist())
        sh = [str(rng.choice(["left", "right"])) for _ in range(2)]
        shape = tuple(2 if q == "tile" else n for q in dims)
        kw = {k: xr.DataArray(rng.uniform(1, 2, shape), dims=dims) for k in ("dxC", "dyC", "dyG", "dxG")}
        fn, args = xgcm.build_grid, [n, fc, dims, *sh]
        wrong = lambda a, b: tuple(b if q == a else q for q in dims)
        plain = {k: v.values for k, v in kw.items()}
        more = np.ones(tuple(m + 1 for m in shape))
        W = {
            "an unknown shift in i": ([n, fc, dims, "up", sh[1]], {}),
            "an unknown shift in j": ([n, fc, dims, sh[0], "down"], {}),
            "faces not among the dimensions": ([n, fc, wrong("tile", "face"), *sh], {}),
            "i not among the dimensions": ([n, fc, wrong("i", "x"), *sh], {}),
            "j not among the dimensions": ([n, fc, wrong("j", "y"), *sh], {}),
            "distances of i labelled unlike their faces": ([*args], dict(dxC=kw["dxC"].rename({"i": "ig"}))),
            "distances of j labelled unlike their faces": ([*args], dict(dxG=kw["dxG"].rename({"j": "jg"}))),
            "a distance of another shape": ([*args], {**plain, str(rng.choice(list(kw))): more}),
        }
    way, (bad, ch) = one(rng, W)
    refuse(ctx, f"{what}.build_grid", way, fn, bad, changed(kw, ch), args, kw, "grids_refused")


def factory(ctx, rng):
    what = str(rng.choice(["make_pp", "make_eos", "make_eos_s_t", "make_eos_p"]))
    ok = lambda *a, **k: callable(fn(*a, **k))
    if what == "make_pp":
        fn = make_pp
        name = str(rng.choice(["linear", "pchip"]))
        out = str(rng.choice(["coeffs", "interp"]))
        args = [name, str(rng.choice(["1", "u"])), out]
        kw = dict(nans=True, num_dep_vars=int(rng.integers(1, 3)) if out == "interp" else 1)
        W = {
            "an unknown interpolant": (["cubic", *args[1:]], kw),
            "an unknown kind": ([name, "2", out], kw),
            "an unknown output": ([name, args[1], "values"], kw),
            "three variables": (args, dict(kw, num_dep_vars=3)),
            "no variable": (args, dict(kw, num_dep_vars=0)),
            "coefficients of two variables at once": ([name, args[1], "coeffs"], dict(nans=True, num_dep_vars=2)),
            "many interpolants without missing data": ([name, "u", "coeffs"], dict(nans=False, num_dep_vars=1)),
            "evaluation without missing data": ([name, "1", "interp"], dict(nans=False, num_dep_vars=1)),
        }
    else:
        fn = getattr(neos, what)
        args, kw = [str(rng.choice(["gsw", "jmd95", "jmdfwg06"]))], {}
        if rng.random() < 0.5:
            kw = dict(grav=9.81, rho_c=1030.0)
        bad = {"an unknown name": "teos11", "a part of a name": "gs", "an empty name": "", "a number": 5.0, "nothing": None,
               "a list": ["gsw"], "a name in capitals": args[0].upper() + "!"}
        W = {k: ([v], kw) for k, v in bad.items()}
    way, (bad, bk) = one(rng, W)
    refuse(ctx, what, way, ok, bad, bk, args, kw, "factories_refused")
