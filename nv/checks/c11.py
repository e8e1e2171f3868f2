import numpy as np
import xarray as xr
from .. import gen, ref
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.eos.tools import make_eos_s_t

ID = "C11"
RULE = (
    "random surfaces (dry casts, all dry, isolated, equal neighbours) on random graphs x geometry (missing, scalar, per "
    "edge, any scale) x equation of state (name or function, Boussinesq or not) x 1D/2D/labelled input. "
    "Distinct: configuration x geometry x container x dryness x graph"
)
ASSUMPTIONS = ["reference derivatives of the equation of state are right (to 1e-12)"]
REQUIRED = {"edges_judged": 20000, "nan_edges_judged": 2000, "norms_judged": 800, "all_dry_judged": 30,
            "reversed_judged": 100, "zero_edges_judged": 2000}
QUICK = ["gsw-linear", "jmd95-linear", "jmdfwg06-linear-bsq", "nonlin-linear", "vol-pchip", "jmd95-pchip-bsq",
         "lin-linear", "gsw-linear-bsq"]


def groups(tier):
    return [(g, 150 if tier == "quick" else 20000) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    kind = str(rng.choice(["rect", "tree", "graph"]))
    if kind == "rect":
        ni, nj = int(rng.integers(1, 9)), int(rng.integers(2, 9))
        hshape = (ni, nj)
        edges = gen.rect_edges(ni, nj, (ni > 2 and rng.random() < 0.5, nj > 2 and rng.random() < 0.5))
    else:
        n = int(rng.integers(2, 60))
        hshape = (n,)
        edges = gen.random_tree(rng, n) if kind == "tree" else gen.random_graph(rng, n, 2 * n)
    N, E = int(np.prod(hshape)), len(edges[0])
    s = rng.uniform(30, 38) + rng.choice([0.01, 1.0]) * rng.normal(size=hshape)
    t = rng.uniform(3, 25) + rng.choice([0.01, 1.0]) * rng.normal(size=hshape)
    p = np.abs(rng.uniform(0, 5000) + rng.choice([1.0, 300.0]) * rng.normal(size=hshape))
    same = str(rng.choice(["no", "some", "all"], p=[0.6, 0.3, 0.1]))
    if same != "no":  # equal casts next to one another: edges whose error is exactly zero
        src = np.arange(N) if same == "some" else np.zeros(N, int)
        if same == "some":
            for u, v in zip(*edges):
                if rng.random() < 0.4:
                    src[v] = src[u]
        s, t, p = (x.reshape(-1)[src].reshape(hshape).copy() for x in (s, t, p))
    dry = float(rng.choice([0.0, 0.1, 0.5, 1.0], p=[0.3, 0.4, 0.25, 0.05]))
    m = rng.random(hshape) < dry
    for x in (s, t, p):
        x[m] = np.nan
    grid = {"edges": edges}
    geo = str(rng.choice(["none", "dist", "distperp", "both", "scalar"]))
    f = 10 ** rng.uniform(-2, 6)
    dist = distperp = 1.0
    if geo in ("dist", "both"):
        dist = grid["dist"] = rng.uniform(0.3, 3, E) * f
    if geo in ("distperp", "both"):
        distperp = grid["distperp"] = rng.uniform(0.3, 3, E) * f
    if geo == "scalar":
        dist, distperp = float(rng.uniform(0.3, 3) * f), float(rng.uniform(0.3, 3) * f)
        grid["dist"], grid["distperp"] = dist, distperp
    a = (s, t, p)
    cont = str(rng.choice(["numpy", "flat", "xarray"]))
    if cont == "flat":
        a = tuple(x.reshape(-1) for x in a)
    elif cont == "xarray":
        a = tuple(xr.DataArray(x, dims=[f"d{k}" for k in range(x.ndim)]) for x in a)
    kw = {} if conf.grav is None else dict(grav=conf.grav, rho_c=conf.rho_c)
    fn = conf.eos_s_t
    if rng.random() < 0.3:
        fn, kw = make_eos_s_t(conf.eos_s_t, **kw), {}
    e = ctx.call("ntp_epsilon_errors", ntp_epsilon_errors, *a, grid, fn, **kw)
    ex = ref.epsilon(conf.ref, s, t, p, edges)
    sc = np.abs(ex)
    ea, eb = (np.asarray(x) for x in edges)
    sf, tf, pf = (x.reshape(-1) for x in (s, t, p))
    rs, rt = conf.ref.s_t(0.5 * (sf[ea] + sf[eb]), 0.5 * (tf[ea] + tf[eb]), 0.5 * (pf[ea] + pf[eb]))
    sc = np.abs(rs) * (np.abs(sf[ea]) + np.abs(sf[eb])) + np.abs(rt) * (np.abs(tf[ea]) + np.abs(tf[eb]))
    ctx.close(e, ex / dist, "error", f"neutrality errors ({geo})", rtol=1e-10, atol=1e-12 * np.nan_to_num(sc) / dist)
    ctx.event("edges_judged", E)
    ctx.event("zero_edges_judged", int((ex == 0).sum()))
    ctx.event("nan_edges_judged", int(np.isnan(ex).sum()))
    if rng.random() < 0.4:  # only edges given, in either direction
        e2 = ctx.call("ntp_epsilon_errors", ntp_epsilon_errors, *a, edges, fn, **kw)
        e3 = ctx.call("ntp_epsilon_errors", ntp_epsilon_errors, *a, (edges[1], edges[0]), fn, **kw)
        ctx.close(e2, ex, "error-tuple", "neutrality errors (edges only)", rtol=1e-10, atol=1e-12 * np.nan_to_num(sc))
        ctx.check(np.array_equal(e2, -e3, equal_nan=True), "antisymmetry", "reversed edges do not negate errors")
        ctx.event("reversed_judged")
    rms, mav = ctx.call("ntp_epsilon_errors_norms", ntp_epsilon_errors_norms, *a, grid, fn, **kw)
    r, v = ref.norms(conf.ref, s, t, p, edges, dist, distperp)
    ar, av = ref.norms_scale(conf.ref, s, t, p, edges, dist, distperp)
    ctx.close(rms, r, "e_RMS", f"root mean square ({geo})", rtol=1e-9, atol=1e-12 * ar)
    ctx.close(mav, v, "e_MAV", f"mean absolute value ({geo})", rtol=1e-9, atol=1e-12 * av)
    ctx.event("norms_judged")
    if np.isnan(ex).all():
        ctx.check(rms == 0.0 and mav == 0.0, "all-dry", f"no wet edge, norms {rms, mav}")
        ctx.event("all_dry_judged")
    ctx.bucket(group, kind, geo, cont, dry, bool(kw), same)
    ctx.sample(config=group, graph=kind, N=N, E=E, geometry=geo, rms=rms, mav=mav)
