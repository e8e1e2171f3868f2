import numpy as np
import xarray as xr
from .. import gen, om
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
from neutralocean.label import veronis
from neutralocean.mixed_layer import mixed_layer
from neutralocean.stability import count_unstable
from neutralocean.eos import make_eos, vectorize_eos

ID = "C24"
RULE = (
    "random oceans holding single precision (sometimes integral) values x public functions x layouts: vertical dimension "
    "(first to last, from either end, by name), labelled or plain each of S, T, P, C, Fortran, strided, reversed, "
    "unaligned, big-endian, read-only and single precision or integer memory, pressure 1D or repeated, casts in 1 to 3 "
    "dimensions, pinning cast as int, tuple, list or coordinates in any order, initial surface as any kind of number or "
    "array. Distinct: function x configuration x layout"
)
ASSUMPTIONS = ["auxiliary coordinates of labelled data that vary along the vertical are not judged",
               "labelled S, T and P have their dimensions in the same order"]
REQUIRED = {"pairs_judged": 400, "labelled_judged": 150, "omega_judged": 60, "potential_judged": 60, "anomaly_judged": 60,
            "ntp_judged": 30, "trajectory_judged": 30, "mixed_judged": 30, "count_judged": 30, "single_judged": 30, "faces_labelled_judged": 30}
QUICK = ["gsw-linear", "jmd95-pchip-bsq", "vol-pchip", "nonlin-linear", "jmdfwg06-linear-bsq", "gsw-linear-bsq"]
SHARD = {"quick": 1000, "thorough": 800}
TASKS = ["omega", "omega", "potential", "anomaly", "ntp", "trajectory", "mixed", "count", "single"]


def groups(tier):
    return [(g, 150 if tier == "quick" else 1500) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def memory(rng, X, exact_int=False, f4=True, k=None):
    """The same values in other memory."""
    kinds = ["C", "F", "strided", "reversed", ">f8", "moved"]
    if f4:
        kinds += ["f4", ">f4"]
    if exact_int:
        kinds += ["i8", "i4"]
    k = k or str(rng.choice(kinds))
    X = np.asarray(X)
    if k == "F":
        Y = np.asfortranarray(X)
    elif k == "strided":
        B = np.full(tuple(2 * n for n in X.shape), -999.0)
        Y = B[tuple(slice(int(rng.integers(2)), None, 2) for _ in X.shape)]
        Y[...] = X
    elif k == "reversed":
        sl = tuple(slice(None, None, -1) for _ in X.shape)
        Y = np.ascontiguousarray(X[sl])[sl]
    elif k == "unaligned":
        b = np.zeros(X.size * 8 + 1, dtype=np.uint8)
        Y = b[1:].view(np.float64).reshape(X.shape)
        Y[...] = X
    elif k == "moved":
        Y = np.moveaxis(np.ascontiguousarray(np.moveaxis(X, 0, -1)), -1, 0)
    elif k == "C":
        Y = np.ascontiguousarray(X)
    elif k == "readonly":
        Y = np.array(X)
        Y.flags.writeable = False
    else:
        Y = X.astype(k)
    assert np.array_equal(np.asarray(Y, dtype=float), np.asarray(X, dtype=float), equal_nan=True)
    return Y, k


class Layout:
    """One way of handing over the ocean `o`."""

    def __init__(self, rng, o, flat=None, faces=True):
        self.flat = bool(rng.random() < 0.3) if flat is None else flat
        h = (o.N,) if self.flat else o.hshape
        if faces and not self.flat and rng.random() < 0.25:  # faces, rows and columns
            k = int(rng.integers(3))
            d = [q for q in range(1, o.N + 1) if o.N % q == 0]
            a = int(rng.choice(d))
            h = [(1,) + tuple(h), tuple(h) + (1,), (a, 1, o.N // a)][k]
        self.h = h
        nk = o.S.shape[-1]
        self.v = v = int(rng.integers(len(h) + 1))
        S, T, P3 = (np.moveaxis(x.reshape(h + (nk,)), -1, v) for x in (o.S, o.T, o.P3))
        self.p1d = o.same_P and rng.random() < 0.6
        P = o.P3.reshape(-1, nk)[0] if self.p1d else P3
        mode = int(rng.integers(4))  # 0: all plain, 1, 2: all labelled, 3: any
        lab = [mode in (1, 2) or (mode == 3 and bool(rng.integers(2))) for _ in range(3)]
        self.lab = lab
        hd = [str(q) for q in rng.permutation(["lon", "lat"] + ["face"] * (len(h) == 3))][: len(h)]
        dims = hd[:]
        dims.insert(v, "depth")
        self.hd = hd
        self.index = {}
        for d, n in zip(hd, h):
            k = int(rng.integers(4))
            x = np.cumsum(rng.integers(1, 4, n)) * 0.5
            self.index[d] = [x, x[::-1].copy(), np.arange(n) + 10, np.array([f"c{q:03d}" for q in range(n)])][k]
        self.kinds = []
        out = []
        # few of these, as compiled code is compiled anew for them
        special = [None, "readonly", "unaligned"][int(rng.choice(3, p=[0.9, 0.06, 0.04]))]
        for q, (X, l, nm) in enumerate(zip((S, T, P), lab, "STP")):
            Y, k = memory(rng, X, nm == "P" and o.int_P, k=special)
            self.kinds.append(k)
            if l:
                dd = dims if Y.ndim > 1 else ["depth"]
                co = {d: self.index[d] for d in hd if d in dd}
                if rng.random() < 0.6:
                    co["depth"] = np.arange(nk) * 7.0
                if rng.random() < 0.5 and len(dd) > 1:
                    co["area"] = (tuple(hd), rng.uniform(size=h))
                if rng.random() < 0.5:
                    co["time"] = 3.25
                at = {"units": nm + "unit", "long_name": nm + " long"}
                for a in list(at):
                    if rng.random() < 0.3:
                        at.pop(a)
                Y = xr.DataArray(Y, dims=dd, coords=co, attrs=at, name=(None if rng.random() < 0.2 else nm))
            out.append(Y)
        self.S, self.T, self.P = out
        u = rng.random()
        if lab[0] and u < 0.6:
            self.vd = "depth"
        else:
            self.vd = v if u < 0.8 else v - len(h) - 1
        self.kw = {} if self.vd in (-1, len(h)) and rng.random() < 0.5 else dict(vert_dim=self.vd)
        # pinning cast
        ix = tuple(int(x) for x in np.unravel_index(o.pin, h))
        ch = ["tuple", "list"] + (["int", "int"] if self.flat else []) + (["dict", "dict"] if lab[0] else [])
        self.pk = str(rng.choice(ch))
        if self.pk == "dict":
            it = [(d, self.index[d][q]) for d, q in zip(hd, ix)]
            rng.shuffle(it)
            self.pin = {str(d): (x if isinstance(x, str) else x.item() if hasattr(x, "item") else x) for d, x in it}
            for d in self.pin:  # shuffle made arrays of str
                if self.index[d].dtype.kind != "U":
                    self.pin[d] = type(self.index[d][0].item())(self.pin[d])
        else:
            self.pin = {"tuple": ix, "list": list(ix), "int": ix[0]}[self.pk]

    def desc(self):
        return (self.h, f"v={self.v}", str(self.vd), tuple(self.lab), tuple(self.kinds), self.p1d, self.pk)


def judge_labels(ctx, L, s, t, p):
    ref_c = L.S if L.lab[0] else None
    for nm, x, X in (("s", s, L.S), ("t", t, L.T), ("p", p, None)):
        src = ref_c if nm == "p" else X
        if not isinstance(src, xr.DataArray):
            ctx.check(type(x) is np.ndarray, "label-type", f"{nm} is {type(x).__name__} though its input is plain", layout=L.desc())
            continue
        if len(L.h) == 3:
            ctx.event("faces_labelled_judged")
        ctx.check(isinstance(x, xr.DataArray), "label-type", f"{nm} is {type(x).__name__} though its input is labelled", layout=L.desc())
        ctx.check(x.dims == tuple(L.hd), "label-dims", f"{nm}.dims = {x.dims}, expected {tuple(L.hd)}", layout=L.desc())
        want = {k: c for k, c in src.coords.items() if "depth" not in c.dims}
        ctx.check(set(x.coords) == set(want), "label-coords", f"{nm} has coordinates {sorted(x.coords)}, expected {sorted(want)}",
                  layout=L.desc())
        for k, c in want.items():
            ctx.check(x.coords[k].dims == c.dims and np.array_equal(x.coords[k].values, c.values), "label-coords",
                      f"{nm}'s coordinate {k} differs from its input's", layout=L.desc())
        own = L.P if nm == "p" else src
        name, attrs = (own.name, dict(own.attrs)) if isinstance(own, xr.DataArray) else (None, {})
        ctx.check(x.name == name and dict(x.attrs) == attrs, "label-attrs",
                  f"{nm} has name {x.name!r}, attributes {dict(x.attrs)}; expected {name!r}, {attrs}", layout=L.desc())
        ctx.event("labelled_judged")


def same(ctx, what, a, b, L):
    a, b = np.asarray(a), np.asarray(b)
    ctx.check(a.size == b.size, "shape", f"{what}: sizes {a.shape}, {b.shape}", layout=L)
    a = a.reshape(b.shape)
    ok = np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if not ok:
        bad = np.flatnonzero(~((a == b) | ((a != a) & (b != b))).reshape(-1))[:5]
        ctx.fail("layout-changes-result", f"{what} differs in another layout, at {bad.tolist()}: {a.reshape(-1)[bad].tolist()},"
                 f" not {b.reshape(-1)[bad].tolist()}", layout=L)
    ctx.event("judgements")


def same_d(ctx, what, a, b, L):
    ctx.check(set(a) == set(b), "diag-keys", f"{what}: diagnostics {sorted(a)} and {sorted(b)}", layout=L)
    for k in a:
        if not k.startswith("timer"):
            same(ctx, f"{what} d[{k!r}]", np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float), L)


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    task = TASKS[i % len(TASKS)]
    if task == "single" and group not in ("gsw-linear", "jmd95-pchip-bsq", "vol-pchip"):
        task = "trajectory"  # slow to compile
    o = om.setup(rng, conf)
    o.int_P = bool(rng.random() < 0.25)
    f4 = lambda x: x.astype(np.float32).astype(np.float64)
    o.S, o.T, o.P3 = f4(o.S), f4(o.T), f4(o.P3)
    if o.int_P:
        q = np.round(o.P3)
        o.int_P = bool(np.all(np.diff(q, axis=-1) > 0))  # False where NaN
        o.P3 = q if o.int_P else o.P3
    f = o.P3.reshape(o.N, -1)
    o.same_P = bool(np.all(f == f[0]))
    o.casts = [om.ref.Cast(o.S[c], o.T[c], o.P3[c], conf.interp) for c in np.ndindex(o.hshape)]
    c = o.casts[o.pin]
    o.pin_p = float(rng.uniform(c.P[0], c.P[-1]))
    globals()["t_" + task](ctx, group, rng, conf, o)


def t_isopycnal(ctx, group, rng, conf, o, fn):
    kw = dict(output=False, TOL_P_SOLVER=o.tol, grid=o.grid, **conf.kw())
    if rng.random() < 0.3:
        kw["diags"] = False
        kw.pop("grid")
    style = int(rng.integers(3))
    if style:
        kw["ref"] = float(rng.uniform(0, 2000)) if fn is potential_surf else (35.0, float(rng.uniform(0, 20)))
    if style == 2:
        s, t = o.casts[o.pin].st(o.pin_p)
        r = kw["ref"]
        kw["isoval"] = float(conf.ref(s, t, r) if fn is potential_surf else conf.ref(s, t, o.pin_p) - conf.ref(*r, o.pin_p))
    pk = (lambda pc: {}) if style == 2 else (lambda pc: dict(pin_cast=pc, pin_p=o.pin_p))
    base = ctx.call(fn.__name__, fn, o.S, o.T, o.P3, **pk(o.pin_cast), **kw)
    for _ in range(3):
        L = Layout(rng, o)
        got = ctx.call(fn.__name__ + f" {L.desc()}", fn, L.S, L.T, L.P, **pk(L.pin), **L.kw, **kw)
        for nm, a, b in zip("stp", got, base):
            ctx.check(a.shape == L.h, "shape", f"{nm}.shape = {a.shape}, casts {L.h}", layout=L.desc())
            same(ctx, f"{fn.__name__} {nm}", a, b, L.desc())
        same_d(ctx, fn.__name__, got[3], base[3], L.desc())
        judge_labels(ctx, L, *got[:3])
        ctx.event("pairs_judged")
        ctx.event(fn.__name__.split("_")[0] + "_judged")
        ctx.bucket(fn.__name__, group, L.desc()[1:], style)


def t_potential(ctx, group, rng, conf, o):
    t_isopycnal(ctx, group, rng, conf, o, potential_surf)


def t_anomaly(ctx, group, rng, conf, o):
    t_isopycnal(ctx, group, rng, conf, o, anomaly_surf)


def t_omega(ctx, group, rng, conf, o):
    kw = dict(output=False, TOL_P_SOLVER=o.tol, ITER_MAX=int(rng.integers(1, 4)), TOL_LRPD_MAV=0.0, **conf.kw())
    if rng.random() < 0.3:
        kw["OMEGA_FORMULATION"] = "gradient"
    if rng.random() < 0.3:
        kw["diags"] = False
    scalar = rng.random() < 0.5
    if rng.random() < 0.4:
        o.pin_p = float(np.round(o.pin_p))
        c = o.casts[o.pin]
        if not c.P[0] <= o.pin_p <= c.P[-1]:
            o.pin_p = float(c.P[0])
    o.pin_p = float(np.float32(o.pin_p)) if c_ok(o, float(np.float32(o.pin_p))) else float(o.casts[o.pin].P[0])
    if scalar:
        p0 = o.pin_p
    else:
        p0 = om.init_surface(rng, o)
        p0 = p0.astype("f4").astype(float)
        p0[o.pin_cast] = o.pin_p
        if rng.random() < 0.3:  # an isobar, of integers
            q = float(np.round(o.pin_p))
            if c_ok(o, q):
                p0 = np.full(o.hshape, q)
    ml = rng.random()
    mlv = None
    if ml < 0.3:
        mlv = (0.3 * o.pin_p * rng.uniform(size=o.hshape)).astype("f4").astype(float)
    elif ml < 0.5:
        kw["p_ml"] = dict(pot_dens_diff=float(rng.choice([1e-4, 0.01])), bottle_index=0, ref_p=0.0)
    with_ml = (lambda x: {} if x is None else dict(p_ml=x))
    try:
        base = omega_surf(o.S, o.T, o.P3, o.grid, o.pin_cast, p0, **with_ml(mlv), **kw)
        err = None
    except (RuntimeError, IndexError) as e:  # pin in the mixed layer: not judged, but the same everywhere
        err, base = type(e), None
    for _ in range(3):
        L = Layout(rng, o)
        if scalar:
            ch = [p0, np.float64(p0), np.float32(p0)] + ([int(p0), np.int64(p0)] if p0 == int(p0) else [])
            q = ch[int(rng.integers(len(ch)))]
            pd = type(q).__name__
        else:
            q, pd = memory(rng, p0.reshape(L.h), bool(np.all(p0 == np.round(p0))))
            if rng.random() < 0.4:
                q, pd = xr.DataArray(q, dims=L.hd, attrs={"a": 1}, name="pinit"), pd + "-xr"
        m = None if mlv is None else memory(rng, mlv.reshape(L.h))[0]
        if err is not None:
            try:
                omega_surf(L.S, L.T, L.P, o.grid, L.pin, q, **with_ml(m), **L.kw, **kw)
                ctx.fail("raises-in-one-layout", f"omega_surf raised {err.__name__} in one layout only", layout=L.desc())
            except (RuntimeError, IndexError):
                ctx.event("refused_alike")
            continue
        got = ctx.call(f"omega_surf {L.desc()} {pd}", omega_surf, L.S, L.T, L.P, o.grid, L.pin, q, **with_ml(m), **L.kw, **kw)
        for nm, a, b in zip("stp", got, base):
            ctx.check(a.shape == L.h, "shape", f"{nm}.shape = {a.shape}, casts {L.h}", layout=L.desc())
            same(ctx, f"omega_surf {nm}", a, b, (L.desc(), pd))
        same_d(ctx, "omega_surf", got[3], base[3], (L.desc(), pd))
        judge_labels(ctx, L, *got[:3])
        ctx.event("pairs_judged")
        ctx.event("omega_judged")
        ctx.bucket("omega", group, L.desc()[1:], pd)


def c_ok(o, p):
    c = o.casts[o.pin]
    return bool(c.P[0] <= p <= c.P[-1])


def t_ntp(ctx, group, rng, conf, o):
    s, t, p = (x.reshape(o.hshape) for x in om.start_state(o, om.init_surface(rng, o)))
    k = conf.kw()
    k = dict(eos_s_t=conf.eos_s_t, **{q: k[q] for q in ("grav", "rho_c") if q in k})
    e0 = ctx.call("ntp_epsilon_errors", ntp_epsilon_errors, s, t, p, o.grid, **k)
    n0 = ctx.call("ntp_epsilon_errors_norms", ntp_epsilon_errors_norms, s, t, p, o.grid, **k)
    E = len(o.edges[0])
    for _ in range(3):
        h = (o.N,) if rng.random() < 0.3 else o.hshape
        X, kinds = [], []
        for x in (s, t, p):
            # the surface itself is used as given
            y, kd = memory(rng, x.reshape(h), k=str(rng.choice(["C", "F", "strided", "reversed", "moved"])))
            if rng.random() < 0.5:
                y, kd = xr.DataArray(y), kd + "-xr"
            X.append(y)
            kinds.append(kd)
        g = dict(o.grid)
        if "dist" in g:
            for q in ("dist", "distperp"):
                if rng.random() < 0.5 and np.ndim(g[q]):
                    g[q] = np.repeat(g[q], 2)[::2]
        if rng.random() < 0.5:
            g["edges"] = tuple(np.repeat(x, 2)[::2].astype(rng.choice(["i8", "i4"])) for x in g["edges"])
        same(ctx, "ntp_epsilon_errors", ctx.call("ntp_epsilon_errors", ntp_epsilon_errors, *X, g, **k), e0, kinds)
        n = ctx.call("ntp_epsilon_errors_norms", ntp_epsilon_errors_norms, *X, g, **k)
        # sums of strided arrays may be taken in another order
        ctx.close(n, n0, "layout-changes-result", "ntp_epsilon_errors_norms in another layout", rtol=1e-13, layout=kinds)
        full = dict(g, **{q: np.broadcast_to(np.asarray(g.get(q, 1.0), float).reshape(-1), E) for q in ("dist", "distperp")})
        ctx.close(ntp_epsilon_errors_norms(*X, full, **k), n0, "geometry-form", "norms with a distance per edge", rtol=1e-12)
        ctx.close(ntp_epsilon_errors(*X, full, **k), e0, "geometry-form", "errors with a distance per edge", rtol=1e-12)
        if "dist" not in g:
            same(ctx, "ntp_epsilon_errors of edges alone", ctx.call("ntp_epsilon_errors", ntp_epsilon_errors, *X, g["edges"], **k), e0, kinds)
        ctx.event("pairs_judged")
        ctx.event("ntp_judged")
        ctx.bucket("ntp", group, tuple(kinds), h)


def t_trajectory(ctx, group, rng, conf, o):
    kw = dict(tol_p=o.tol, **conf.kw(True))
    q = rng.permutation(o.N)
    nk = o.S.shape[-1]
    w = om.Setup()
    w.N, w.hshape, w.pin, w.int_P, w.same_P = o.N, (o.N,), 0, o.int_P, o.same_P
    w.S, w.T, w.P3 = (x.reshape(o.N, nk)[q] for x in (o.S, o.T, o.P3))
    base = ctx.call("neutral_trajectory", neutral_trajectory, w.S, w.T, w.P3, o.pin_p, **kw)
    for _ in range(3):
        L = Layout(rng, w, flat=True)
        got = ctx.call(f"neutral_trajectory {L.desc()}", neutral_trajectory, L.S, L.T, L.P, o.pin_p, **L.kw, **kw)
        for nm, a, b in zip("stp", got, base):
            same(ctx, f"neutral_trajectory {nm}", a, b, L.desc())
        ctx.event("pairs_judged")
        ctx.event("trajectory_judged")
        ctx.bucket("trajectory", group, L.desc()[1:])


def t_mixed(ctx, group, rng, conf, o):
    kw = dict(conf.kw(True), pot_dens_diff=float(rng.choice([0.001, 0.03, 0.3])), bottle_index=int(rng.integers(2)))
    base = ctx.call("mixed_layer", mixed_layer, o.S, o.T, o.P3, **kw)
    for _ in range(3):
        L = Layout(rng, o)
        same(ctx, "mixed_layer", ctx.call(f"mixed_layer {L.desc()}", mixed_layer, L.S, L.T, L.P, **L.kw, **kw), base, L.desc())
        ctx.event("pairs_judged")
        ctx.event("mixed_judged")
        ctx.bucket("mixed", group, L.desc()[1:])


def t_count(ctx, group, rng, conf, o):
    e = make_eos(conf.eos_fn, conf.grav, conf.rho_c)
    kw = dict(eos=vectorize_eos(e))
    base = ctx.call("count_unstable", count_unstable, o.S, o.T, o.P3, **kw)
    for _ in range(3):
        L = Layout(rng, o)
        same(ctx, "count_unstable", ctx.call(f"count_unstable {L.desc()}", count_unstable, L.S, L.T, L.P, **L.kw, **kw), base, L.desc())
        ctx.event("pairs_judged")
        ctx.event("count_judged")
        ctx.bucket("count", group, L.desc()[1:])


def t_single(ctx, group, rng, conf, o):
    """Functions of one cast: columns of larger arrays."""
    c = o.pin_cast
    S, T, P = o.S[c], o.T[c], o.P3[c]
    sb, tb = o.casts[o.pin].st(o.pin_p)
    a0 = ctx.call("ntp_bottle_to_cast", ntp_bottle_to_cast, sb + 0.01, tb, o.pin_p, S, T, P, tol_p=o.tol, **conf.kw(True))
    lo, hi = o.casts[o.pin].P[[0, -1]]
    p1 = float(rng.uniform(lo, hi))
    vk = conf.kw()
    v0 = ctx.call("veronis", veronis, p1, S, T, P, p_ref=0.0, dp=float(hi - lo) / 50, **vk)
    for _ in range(3):
        X, kinds = [], []
        for x in (S, T, P):
            k = str(rng.choice(["C", "F", "strided", "reversed"]))
            if k == "strided":
                x = np.tile(x[:, None], (1, 3))[:, 1]
            elif k == "F":
                x = np.asfortranarray(np.tile(x, (3, 1)))[1]
            elif k == "reversed":
                x = np.ascontiguousarray(x[::-1])[::-1]
            X.append(x)
            kinds.append(k)
        same(ctx, "ntp_bottle_to_cast", ctx.call("ntp_bottle_to_cast", ntp_bottle_to_cast, sb + 0.01, tb, o.pin_p, *X, tol_p=o.tol, **conf.kw(True)), a0, kinds)
        same(ctx, "veronis", ctx.call("veronis", veronis, p1, *X, p_ref=0.0, dp=float(hi - lo) / 50, **vk), v0, kinds)
        ctx.event("pairs_judged", 2)
        ctx.event("single_judged")
        ctx.bucket("single", group, tuple(kinds))
