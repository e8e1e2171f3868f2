import copy
import numpy as np
import numba as nb
import scipy.sparse as sp
import xarray as xr
from .. import gen, om, ref
from . import c14, c24
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
from neutralocean.label import veronis
from neutralocean.mixed_layer import mixed_layer
from neutralocean.stability import count_unstable, stabilize_ST
from neutralocean.eos import make_eos, make_eos_s_t, vectorize_eos
from neutralocean.ppinterp import make_pp
from neutralocean.ppinterp.ppinterp import ppval, ppval_two
from neutralocean.bfs import bfs_conncomp1
from neutralocean.lib import find_first_nan, val_at, take_fill, aggsum, xr_to_np
from neutralocean.grid import rectilinear, tripolar, graph, xgcm
from neutralocean.grid.tools import divergence

ID = "C25"
RULE = (
    "random oceans, grids, graphs and options x every public function x layouts (contiguous double precision with the "
    "vertical dimension last, which may be passed straight through, and others) x labelled or plain, writable or "
    "write-protected. Distinct: function x configuration x layout x protection"
)
ASSUMPTIONS = ["labels (coordinates) of labelled outputs may share memory with those of labelled inputs, as is xarray's custom",
               "maps of edge data may be views of it; the search of a graph is documented to consume its set of good nodes"]
REQUIRED = {"arrays_compared": 6000, "outputs_compared": 1500, "calls_judged": 1500, "protected_calls": 60, "attrs_compared": 300,
            "stored_zeros": 25}
QUICK = ["gsw-linear", "jmd95-pchip-bsq", "vol-pchip", "nonlin-linear"]
SHARD = {"quick": 1000, "thorough": 1500}
TASKS = ["omega", "isopycnal", "ntp", "trajectory", "mixed", "stabilize", "single"]


def groups(tier):
    q = tier == "quick"
    return [(g, 140 if q else 3000) for g in (QUICK if q else gen.CONFIGS)] + [("grids", 240 if q else 8000),
                                                                               ("arrays", 240 if q else 8000)]


# ------------------------------------------------------------------------------------ monitor
def arrays(x, path="", depth=0):
    """Every buffer reachable from an argument, as (path, ndarray)."""
    if isinstance(x, np.ndarray):
        yield path, x
    elif isinstance(x, xr.DataArray):
        yield path + ".values", x.values
        for k, c in x.coords.items():
            yield f"{path}.coords[{k}]", c.values
    elif sp.issparse(x):
        for k in ("data", "indices", "indptr", "row", "col"):
            if hasattr(x, k) and isinstance(getattr(x, k), np.ndarray):
                yield f"{path}.{k}", getattr(x, k)
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from arrays(v, f"{path}[{k!r}]", depth + 1)
    elif isinstance(x, (tuple, list)):
        for k, v in enumerate(x):
            yield from arrays(v, f"{path}[{k}]", depth + 1)


def plain(x):
    """The structure of an argument, without the numbers in its arrays."""
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, x.dtype.str, x.strides, x.flags.writeable)
    if isinstance(x, xr.DataArray):
        return ("xr", x.dims, x.name, copy.deepcopy(dict(x.attrs)), {k: (c.dims, copy.deepcopy(dict(c.attrs))) for k, c in x.coords.items()},
                plain(x.values))
    if sp.issparse(x):
        return ("sp", type(x).__name__, x.shape, x.nnz, x.dtype.str)
    if isinstance(x, dict):
        return ("dict", [(k, plain(v)) for k, v in x.items()])
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, [plain(v) for v in x])
    return repr(x)


def guarded(ctx, what, fn, *a, mutates=(), out=True, protect=False, **k):
    """Call fn; no argument may change (but those at positions `mutates`), nor share memory with the result."""
    args = {**{str(q): v for q, v in enumerate(a)}, **k}
    frozen = {q: v for q, v in args.items() if q not in mutates}
    bufs = list(arrays(frozen))
    if protect:
        for _, b in bufs:
            b.flags.writeable = False
    before = [b.tobytes() for _, b in bufs]
    shape = plain(frozen)
    r = ctx.call(what + (" of write-protected arrays" if protect else ""), fn, *a, **k)
    for (nm, b), was in zip(bufs, before):
        ctx.check(b.tobytes() == was, "input-changed", f"{what} changed its argument {nm}")
        ctx.event("arrays_compared")
    now = plain(frozen)
    ctx.check(now == shape, "input-restructured", f"{what} changed its arguments: {shape} became {now}"[:600])
    ctx.event("attrs_compared", sum(isinstance(v, xr.DataArray) for v in args.values()))
    if out:
        outs = [x for x in arrays(r) if ".coords[" not in x[0]]
        for nm, y in outs:
            for n2, b in arrays(args):
                ctx.check(not np.may_share_memory(y, b) or not np.shares_memory(y, b), "output-shares-input",
                          f"{what}: output {nm} shares memory with argument {n2}")
            ctx.event("outputs_compared")
        # attributes of labelled outputs must not be the inputs' own dictionary
        for q, v in enumerate(r if isinstance(r, tuple) else (r,)):
            if isinstance(v, xr.DataArray):
                v.attrs["nv_probe"] = q
                v.values[...] = -1.0
        ctx.check(plain(frozen) == shape, "output-shares-attrs", f"{what}: changing the output's attributes changes an input's")
        for (nm, b), was in zip(bufs, before):
            ctx.check(b.tobytes() == was, "output-shares-input", f"{what}: writing to the output changes the argument {nm}")
    ctx.event("calls_judged")
    ctx.event("protected_calls", int(protect))
    return r


def direct(o):
    """The layout most likely to be worked on in place."""
    L = om.Setup()
    L.S, L.T, L.P, L.pin, L.kw, L.h = o.S.copy(), o.T.copy(), o.P3.copy(), o.pin_cast, {}, o.hshape
    return L


def direct_xr(o):
    L = direct(o)
    d = ["x", "y", "z"]
    L.S, L.T, L.P = (xr.DataArray(x, dims=d, name=n, attrs={"units": n, "a": [1, 2]}) for x, n in ((L.S, "S"), (L.T, "T"), (L.P, "P")))
    return L


def layout(rng, o):
    u = rng.random()
    if u < 0.4:
        return direct(o), "direct"
    if u < 0.65:
        return direct_xr(o), "direct-xr"
    L = c24.Layout(rng, o, flat=False, faces=False)
    return L, str(L.desc()[1:5])


def case(ctx, group, i, rng):
    if group in ("grids", "arrays"):
        return globals()["g_" + group](ctx, rng)
    conf = gen.Conf(group)
    task = TASKS[i % len(TASKS)]
    o = om.setup(rng, conf)
    o.S, o.T, o.P3 = (x.astype("f4").astype(float) for x in (o.S, o.T, o.P3))
    o.int_P = False
    f = o.P3.reshape(o.N, -1)
    o.same_P = bool(np.all(f == f[0]))
    o.casts = [ref.Cast(o.S[c], o.T[c], o.P3[c], conf.interp) for c in np.ndindex(o.hshape)]
    c = o.casts[o.pin]
    o.pin_p = float(rng.uniform(c.P[0], c.P[-1]))
    E = len(o.edges[0])
    o.grid = dict(edges=(o.edges[0].copy(), o.edges[1].copy()), dist=np.broadcast_to(o.dist, E).copy(),
                  distperp=np.broadcast_to(o.distperp, E).copy())
    globals()["t_" + task](ctx, group, rng, conf, o)


def prot(rng, kind):
    # write protection forces new compilation, so only for one layout
    return kind == "direct" and rng.random() < 0.5


def t_omega(ctx, group, rng, conf, o):
    for _ in range(2):
        L, kind = layout(rng, o)
        kw = dict(output=False, TOL_P_SOLVER=o.tol, ITER_MAX=int(rng.integers(1, 4)), TOL_LRPD_MAV=0.0, **conf.kw())
        if rng.random() < 0.3:
            kw["OMEGA_FORMULATION"] = "gradient"
        if rng.random() < 0.2:
            kw["diags"] = False
        q = o.pin_p
        if rng.random() < 0.7:
            q = om.init_surface(rng, o).reshape(L.h)
            if rng.random() < 0.3:
                q = xr.DataArray(q, dims=["x", "y"], attrs={"b": 2}, name="start")
        u = rng.random()
        if u < 0.3:
            kw["p_ml"] = o.pin_p * rng.uniform(0, 0.5, L.h)
        elif u < 0.5:
            kw["p_ml"] = dict(pot_dens_diff=1e-3, ref_p=0.0, bottle_index=0)
            s, t = o.casts[o.pin].st(o.pin_p)
        try:
            omega_surf(o.S, o.T, o.P3, o.grid, o.pin_cast, np.array(q) if isinstance(q, np.ndarray) else (q.values.copy() if hasattr(q, "values") else q),
                       **{a: copy.deepcopy(b) for a, b in kw.items() if a != "eos"}, eos=kw["eos"])
        except (RuntimeError, IndexError):
            ctx.event("refused")
            continue
        guarded(ctx, f"omega_surf {kind}", omega_surf, L.S, L.T, L.P, o.grid, L.pin, q, protect=prot(rng, kind), **L.kw, **kw)
        ctx.bucket("omega", group, kind, type(q).__name__, type(kw.get("p_ml")).__name__)


def t_isopycnal(ctx, group, rng, conf, o):
    for fn in (potential_surf, anomaly_surf):
        L, kind = layout(rng, o)
        kw = dict(output=False, TOL_P_SOLVER=o.tol, grid=o.grid, **conf.kw())
        if rng.random() < 0.5:
            kw["ref"] = float(rng.uniform(0, 2000)) if fn is potential_surf else [35.0, float(rng.uniform(0, 20))]
        guarded(ctx, f"{fn.__name__} {kind}", fn, L.S, L.T, L.P, pin_cast=L.pin, pin_p=o.pin_p, protect=prot(rng, kind), **L.kw, **kw)
        ctx.bucket(fn.__name__, group, kind)


def t_ntp(ctx, group, rng, conf, o):
    s, t, p = (x.reshape(o.hshape) for x in om.start_state(o, om.init_surface(rng, o)))
    if rng.random() < 0.4:
        s, t, p = (xr.DataArray(x, dims=["x", "y"], attrs={"u": 1}) for x in (s, t, p))
    k = conf.kw()
    k = dict(eos_s_t=conf.eos_s_t, **{q: k[q] for q in ("grav", "rho_c") if q in k})
    for fn in (ntp_epsilon_errors, ntp_epsilon_errors_norms):
        guarded(ctx, fn.__name__, fn, s, t, p, o.grid, **k)
        guarded(ctx, fn.__name__, fn, s, t, p, {"edges": o.grid["edges"]}, **k)
        ctx.bucket(fn.__name__, group, type(s).__name__)


def t_trajectory(ctx, group, rng, conf, o):
    nk = o.S.shape[-1]
    q = rng.permutation(o.N)
    S, T, P = (x.reshape(o.N, nk)[q].copy() for x in (o.S, o.T, o.P3))
    kw = dict(tol_p=o.tol, **conf.kw(True))
    kind = "direct"
    if rng.random() < 0.3:
        S, T, P = (xr.DataArray(x, dims=["n", "z"]) for x in (S, T, P))
        kw["vert_dim"], kind = "z", "xr"
    elif rng.random() < 0.4:
        S, T, P = (np.ascontiguousarray(x.T) for x in (S, T, P))
        kw["vert_dim"], kind = 0, "vert-first"
    guarded(ctx, "neutral_trajectory", neutral_trajectory, S, T, P, o.pin_p, **kw)
    ctx.bucket("trajectory", group, kind)


def t_mixed(ctx, group, rng, conf, o):
    L, kind = layout(rng, o)
    guarded(ctx, "mixed_layer", mixed_layer, L.S, L.T, L.P, pot_dens_diff=float(rng.choice([1e-3, 0.03])), bottle_index=int(rng.integers(2)),
            protect=prot(rng, kind), **L.kw, **conf.kw(True))
    ctx.bucket("mixed", group, kind)
    L, kind = layout(rng, o)
    e = vectorize_eos(make_eos(conf.eos_fn, conf.grav, conf.rho_c))
    guarded(ctx, "count_unstable", count_unstable, L.S, L.T, L.P, eos=e, protect=prot(rng, kind), **L.kw)
    ctx.bucket("count", group, kind)


def t_stabilize(ctx, group, rng, conf, o):
    if not conf.ref.density:
        return t_mixed(ctx, group, rng, conf, o)
    L, kind = layout(rng, o)
    for x in (L.S, L.T):  # an inversion in a writable array of the caller's
        v = x.values if hasattr(x, "values") else x
        if not v.flags.writeable or v.dtype.itemsize != 8:
            return t_mixed(ctx, group, rng, conf, o)
    nk = o.S.shape[-1]
    e = vectorize_eos(make_eos(conf.eos_fn, conf.grav, conf.rho_c))
    kw = dict(verbose=False, min_dLRPDdp=1e-7 if rng.random() < 0.5 else rng.uniform(0, 1e-7, nk - 1), options={"maxiter": 500}, **L.kw)
    try:
        guarded(ctx, "stabilize_ST", stabilize_ST, L.S, L.T, L.P, e, mutates=("0", "1"), out=False, **kw)
    except Exception as x:
        if "Stabilization" in str(x) or "optimal" in str(x).lower() or "RuntimeError" in str(x):
            ctx.event("refused")
            return
        raise
    ctx.bucket("stabilize", group, kind)


def t_single(ctx, group, rng, conf, o):
    c = o.pin_cast
    S, T, P = (x[c].copy() for x in (o.S, o.T, o.P3))
    sb, tb = o.casts[o.pin].st(o.pin_p)
    guarded(ctx, "ntp_bottle_to_cast", ntp_bottle_to_cast, sb + 0.01, tb, o.pin_p, S, T, P, tol_p=o.tol, **conf.kw(True))
    lo, hi = o.casts[o.pin].P[[0, -1]]
    if group in ("gsw-linear", "vol-pchip"):
        guarded(ctx, "veronis", veronis, float(rng.uniform(lo, hi)), S, T, P, p_ref=0.0, dp=float(hi - lo) / 50, **conf.kw())
    e = make_eos(conf.eos_fn, conf.grav, conf.rho_c)
    guarded(ctx, "vectorised eos", vectorize_eos(e), o.S.copy(), o.T.copy(), o.P3.copy())
    ctx.bucket("single", group)


def g_arrays(ctx, rng):
    """Interpolation and array utilities."""
    sh = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
    n = int(rng.integers(2, 8))
    X = np.cumsum(rng.uniform(0.1, 1, sh + (n,)), -1)
    Y, Z = rng.normal(size=(2,) + sh + (n,))
    if rng.random() < 0.5:
        Y[..., n // 2 :], Z[..., n // 2 :] = np.nan, np.nan
    x = rng.uniform(-0.5, n, sh)
    it = str(rng.choice(["linear", "pchip"]))
    C, D = (guarded(ctx, f"{it}_coeffs", make_pp(it, kind="u", out="coeffs"), X, y) for y in (Y, Z))
    guarded(ctx, f"{it}_interp", make_pp(it, kind="u", out="interp"), x, X, Y, int(rng.integers(3)))
    guarded(ctx, f"{it}_interp_two", make_pp(it, kind="u", out="interp", num_dep_vars=2), x, X, Y, Z, int(rng.integers(3)))
    guarded(ctx, "ppval", ppval, x, X, C, 0)
    guarded(ctx, "ppval_two", ppval_two, x, X, C, D, 0)
    k = rng.integers(-1, n, sh)
    guarded(ctx, "val_at", val_at, Y, k)
    guarded(ctx, "val_at", val_at, Y, int(rng.integers(-1, n)))
    guarded(ctx, "val_at", val_at, Y[(0,) * len(sh)].copy(), np.asarray(k))
    guarded(ctx, "find_first_nan", find_first_nan, Y, axis=int(rng.integers(Y.ndim)))
    guarded(ctx, "take_fill", take_fill, Y, rng.integers(-1, Y.size, 9))
    guarded(ctx, "aggsum", aggsum, rng.normal(size=9), rng.integers(-1, 4, 9), 4)
    ctx.bucket("arrays", it, len(sh), n)


def g_grids(ctx, rng):
    which = int(rng.integers(5))
    f = lambda *sh: rng.uniform(1, 2, sh)
    if which == 0:
        d = tuple(int(x) for x in rng.integers(3, 7, 2))
        per = tuple(bool(x) for x in rng.integers(0, 2, 2))
        kw = {k: [f(*d), f(d[0], 1), f(1, d[1]), 2.0][int(rng.integers(4))] for k in ("dxC", "dyC", "dyG", "dxG")}
        g = guarded(ctx, "rectilinear.build_grid", rectilinear.build_grid, d, per, **kw)
        guarded(ctx, "rectilinear.edgedata_to_maps", rectilinear.edgedata_to_maps, f(len(g["edges"][0])), d, per, out=False)
    elif which == 1:
        d = tuple(int(x) for x in rng.integers(2, 7, 2))
        pad = bool(rng.integers(2))
        sh = (d[0] + 1, d[1] + 2) if pad else d
        g = guarded(ctx, "tripolar.build_grid", tripolar.build_grid, d, f(*sh), f(*sh), f(*sh), f(*sh))
        guarded(ctx, "tripolar.edgedata_to_maps", tripolar.edgedata_to_maps, f(len(g["edges"][0])), d, out=False)
    elif which == 2:
        n = int(rng.integers(2, 5))
        dims = ("tile", "j", "i")
        topo = c14.random_topology(rng, int(rng.integers(2, 4)), True)
        sh = (len(topo), n, n)
        kw = {k: (xr.DataArray(f(*sh), dims=dims) if rng.random() < 0.5 else f(*sh)) for k in ("dxC", "dyC", "dyG", "dxG")}
        fc = {"tile": topo}
        g = guarded(ctx, "xgcm.build_grid", xgcm.build_grid, n, fc, dims, "left", "left", **kw)
        guarded(ctx, "xgcm.edgedata_to_maps", xgcm.edgedata_to_maps, f(len(g["edges"][0])), n, fc, dims, "left", "left", out=False)
    else:
        n = int(rng.integers(2, 12))
        a, b = gen.random_graph(rng, n, int(rng.integers(0, n)))
        A = np.zeros((n, n))
        w = f(len(a))
        A[a, b] = w
        if rng.random() < 0.5:
            A[b, a] = w
        rep = [np.array, sp.csr_matrix, sp.csc_matrix, sp.coo_matrix][int(rng.integers(4))]
        if rep is not np.array and rng.random() < 0.5:  # with zeros stored
            i, j = np.nonzero((A != 0) | (rng.random((n, n)) < 0.2))
            r1 = rep
            rep = lambda M: r1(sp.coo_matrix((M[i, j], (i, j)), shape=(n, n)))
            ctx.event("stored_zeros")
        G = rep(A) if rng.random() < 0.5 else {"dist": rep(A), "distperp": rep(2 * A)}
        guarded(ctx, "graph.build_grid", graph.build_grid, G)
        guarded(ctx, "edges_to_graph", graph.edges_to_graph, (a, b), n, w)
        ip, ix = guarded(ctx, "edges_to_csr", graph.edges_to_csr, (a, b), n)
        guarded(ctx, "bfs_conncomp1", bfs_conncomp1, ip, ix, int(rng.integers(n)), rng.random(n) < 0.7, mutates=("3",))
        guarded(ctx, "graph_binary_fcn", graph.graph_binary_fcn, (a, b), f(n), DIFF)
        guarded(ctx, "divergence", divergence, f(len(a)), (a, b), f(len(a)), f(max(a.max(), b.max()) + 1))
    ctx.bucket("grids", which)


@nb.njit
def DIFF(x, y):
    return x - y
