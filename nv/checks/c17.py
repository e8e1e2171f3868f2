import numpy as np
from scipy.interpolate import PchipInterpolator
from neutralocean import ppinterp as pp

ID = "C17"
RULE = (
    "all patterns of missing X or Y up to 7 points (enumerated) and random data of 0 to 40 points with missing values "
    "anywhere, monotone, zigzag, flat runs, extreme scales and spacings, integer sites x evaluation at every knot, its floating point "
    "neighbours, ends, between, outside, NaN, infinities x derivative 0 to 5 x every variant. Distinct: interpolant x "
    "variant x derivative x class of site x size of the first block"
)
ASSUMPTIONS = [
    "numpy arithmetic for linear and scipy's PCHIP coefficients for PCHIP on the first valid block",
    "two variables in one call are missing in the same places, as documented",
]
REQUIRED = {"values_judged": 60000, "knots_judged": 5000, "nan_judged": 5000, "outside_judged": 2000, "integer_data_judged": 2000}

EPS = np.finfo(float).eps


def groups(tier):
    q = tier == "quick"
    return [("patterns", 4 * (2 + 4 + 8 + 16 + 32 + 64 + 128)), ("random", 900 if q else 40000),
            ("broadcast", 300 if q else 8000), ("integers", 120 if q else 4000), ("pval", 150 if q else 4000)]


SHARD = {"quick": {"patterns": 170, "random": 225}, "thorough": {"patterns": 130, "random": 5000, "broadcast": 4000, "integers": 4000}}


def make(name, kind, out, nans=True, num=1):
    return pp.make_pp(name, kind, out, nans, num)


def warm():
    X, x = np.arange(4.0), 1.5
    for n in ("linear", "pchip"):
        c = make(n, "1", "coeffs")(X, X)
        make(n, "1", "coeffs", False)(X, X)
        for f in (pp.ppval_1, pp.ppval_1_nonan):
            f(x, X, c, 0), f(x, X, c)
        for f in (pp.ppval_1_two, pp.ppval_1_nonan_two):
            f(x, X, c, c, 0), f(x, X, c, c)
        make(n, "1", "interp")(x, X, X, 0), make(n, "1", "interp")(x, X, X)
        make(n, "1", "interp", True, 2)(x, X, X, X, 0)
        make(n, "1", "interp", True, 2)(x, X, X, X)


class Ref:
    """The standard interpolant of the first valid block, with derivatives, continuous from the left."""

    def __init__(self, name, X, Y):
        ok = np.isfinite(X) & np.isfinite(Y)
        self.n = 0
        self.off = 0
        if ok.any():
            k = int(np.argmax(ok))
            K = k
            while K < len(X) and ok[K]:
                K += 1
            self.X, self.Y, self.n, self.off = X[k:K].astype(float), Y[k:K], K - k, k
        if self.n < 2:
            return
        X, Y = self.X, self.Y
        h, dl = np.diff(X), np.diff(Y) / np.diff(X)
        self.h, self.dl = h, dl
        if name == "linear" or self.n == 2:
            self.c = np.array([dl, Y[:-1]])
        else:
            self.c = PchipInterpolator(X, Y).c

    def __call__(self, x, d):
        """value, tolerance, class of the site"""
        if self.n < 2:
            return np.nan, 0.0, "few"
        if np.isnan(x):
            return np.nan, 0.0, "nan"
        if x < self.X[0] or x > self.X[-1]:
            return np.nan, 0.0, "outside"
        i = max(0, int(np.sum(self.X < x)) - 1)
        where = "knot" if x in self.X else "between"
        if x == self.X[0] or x == self.X[-1]:
            where = "end"
        c = self.c[:, i]
        if d:
            c = np.polyder(c, d) if d < len(c) else np.zeros(1)
        s = x - self.X[i]
        M = np.max(np.abs(self.dl[max(0, i - 1) : i + 2]))
        h = self.h[i]
        tol = 200 * EPS * M * h ** (1 - d) + (8 * EPS * max(abs(self.Y[i]), abs(self.Y[i + 1])) if d == 0 else 0)
        return float(np.polyval(c, s)), tol, where


def data(rng, n):
    sx, sy = 10 ** rng.uniform(-8, 8), 10 ** rng.uniform(-12, 12)
    if rng.random() < 0.5:
        sx = sy = 1.0
    step = rng.uniform(0.1, 1, n) * 10 ** rng.uniform(-3, 3, n) if rng.random() < 0.3 else rng.uniform(0.1, 1, n)
    X = np.cumsum(step) * sx + (rng.normal() * sx * 10 if rng.random() < 0.5 else 0)
    if rng.random() < 0.2:
        X = np.arange(n) * 10.0
    k = rng.integers(6)
    if k == 0:
        Y = np.cumsum(rng.uniform(0, 1, n))
    elif k == 1:
        Y = rng.normal(size=n)
    elif k == 2:
        Y = np.cumsum(rng.uniform(0, 1, n) * (rng.random(n) < 0.5))  # flat runs
    elif k == 3:
        Y = 1e6 + rng.normal(size=n)
    elif k == 4:
        Y = rng.integers(-2, 3, n).astype(float)
    else:
        Y = -np.cumsum(10 ** rng.uniform(-6, 3, n))
    return X, Y * sy


def sites(rng, X, Y):
    ok = np.isfinite(X)
    out = [np.nan, np.inf, -np.inf]
    V = X[ok]
    for v in V:
        out += [v, np.nextafter(v, np.inf), np.nextafter(v, -np.inf)]
    if len(V) > 1:
        out += list(rng.uniform(V[0], V[-1], 4)) + [V[0] - 1.0, V[-1] + 1.0]
        out += [(a + b) / 2 for a, b in zip(V[:-1], V[1:])]
    out = np.array(out)
    if len(out) > 14:
        out = rng.choice(out, 14, replace=False)
    return out


def scalar_variants(name, X, Y, Z, clean):
    """(name of the variant, which variables it gives, function of (x, d))"""
    C1 = make(name, "1", "coeffs")
    c, z = C1(X, Y), C1(X, Z)
    V = [
        ("coeffs_1+ppval_1", "y", lambda x, d: (pp.ppval_1(x, X, c, d),)),
        ("coeffs_1+ppval_1_two", "yz", lambda x, d: pp.ppval_1_two(x, X, c, z, d)),
        ("interp_1", "y", lambda x, d: (make(name, "1", "interp")(x, X, Y, d),)),
        ("interp_1_two", "yz", lambda x, d: make(name, "1", "interp", True, 2)(x, X, Y, Z, d)),
    ]
    if len(X):
        cu, zu = make(name, "u", "coeffs")(X, Y), make(name, "u", "coeffs")(X, Z)
        V += [
            ("coeffs+ppval", "y", lambda x, d: (pp.ppval(x, X, cu, d),)),
            ("coeffs+ppval_two", "yz", lambda x, d: pp.ppval_two(x, X, cu, zu, d)),
            ("interp", "y", lambda x, d: (make(name, "u", "interp")(x, X, Y, d),)),
            ("interp_two", "yz", lambda x, d: make(name, "u", "interp", True, 2)(x, X, Y, Z, d)),
        ]
    if clean and len(X) > 1:
        N = make(name, "1", "coeffs", False)
        cn, zn = N(X, Y), N(X, Z)
        V += [
            ("coeffs_1_nonan+ppval_1_nonan", "y", lambda x, d: (pp.ppval_1_nonan(x, X, cn, d),)),
            ("coeffs_1_nonan+ppval_1_nonan_two", "yz", lambda x, d: pp.ppval_1_nonan_two(x, X, cn, zn, d)),
        ]
    return V


def judge(ctx, got, ref, x, d, what):
    exp, tol, where = ref
    if not isinstance(got, (float, np.ndarray, np.floating)) or np.ndim(got):
        ctx.fail("type", f"{what}: returned {type(got).__name__}")
    if np.isnan(exp):
        ctx.check(np.isnan(got), "not-nan", f"{what}: {got} at {where} site {x!r}, expected NaN")
        ctx.event("nan_judged")
    else:
        ctx.check(abs(got - exp) <= tol, "value", f"{what}: at {where} site {x!r} got {got!r}, expected {exp!r}")
    ctx.event("values_judged")
    if where in ("knot", "end"):
        ctx.event("knots_judged")
    elif where == "outside":
        ctx.event("outside_judged")
    return where


def case(ctx, group, i, rng):
    if group == "pval":
        return poly(ctx, i, rng)
    name = ("linear", "pchip")[i % 2]
    if group == "broadcast":
        return broadcast(ctx, name, rng)
    if group == "patterns":
        inX = i // 2 % 2
        j = i // 4
        n = 1
        while j >= 2**n:
            j -= 2**n
            n += 1
        miss = np.array([j >> k & 1 for k in range(n)], dtype=bool)
        X, Y = data(rng, n)
        Z = data(rng, n)[1]
        if inX:
            X = np.where(miss, np.nan, X)
        else:
            Y, Z = np.where(miss, np.nan, Y), np.where(miss, np.nan, Z)
    elif group == "integers":
        n = int(rng.choice([2, 3, 4, 5, 8, 15]))
        X = np.cumsum(rng.integers(1, rng.choice([2, 5, 300]), n)) - rng.integers(0, 50)
        Y, Z = data(rng, n)[1], data(rng, n)[1]
        if rng.random() < 0.4:
            miss = rng.random(n) < 0.3
            Y, Z = np.where(miss, np.nan, Y), np.where(miss, np.nan, Z)
    else:
        n = int(rng.choice([0, 1, 2, 3, 4, 5, 8, 15, 40]))
        X, Y = data(rng, n)
        Z = data(rng, n)[1]
        f = rng.choice([0, 0, 0.1, 0.4])
        miss = rng.random(n) < f
        if rng.random() < 0.3 and n > 2:
            miss[: rng.integers(0, n)] = True
        if rng.random() < 0.3 and n > 2:
            miss[rng.integers(0, n) :] = True
        Y, Z = np.where(miss, np.nan, Y), np.where(miss, np.nan, Z)
        if rng.random() < 0.3:
            X = np.where(rng.random(n) < 0.2, np.nan, X)
    clean = bool(np.all(np.isfinite(X + Y + Z)))
    refs = {"y": Ref(name, X, Y), "z": Ref(name, X, Z)}
    V = ctx.call("make coefficients", scalar_variants, name, X, Y, Z, clean)
    for x in sites(rng, X, Y):
        x = float(x)
        for d in (0, int(rng.integers(1, 6))):
            r = {k: R(x, d) for k, R in refs.items()}
            for vn, ys, f in V:
                got = ctx.call(f"{name} {vn}", f, x, d)
                for k, g in zip(ys, got):
                    if group == "integers":
                        ctx.event("integer_data_judged")
                    w = judge(ctx, g, r[k], x, d, f"{name} {vn}, derivative {d}, X={X[:12]}, {k}")
                ctx.bucket(name, vn, d, w, min(refs["y"].n, 4))
    ctx.sample(interpolant=name, n=n, first_block=refs["y"].n, clean=clean, variants=[v[0] for v in V])


def broadcast(ctx, name, rng):
    n = int(rng.integers(1, 9))
    m, k = (int(v) for v in rng.integers(1, 4, 2))
    how = str(rng.choice(["X1", "XN", "x0", "x-outer", "strided", "Y1"]))
    base = [[data(rng, n) for _ in range(k)] for _ in range(m)]
    X = np.array([[q[0] for q in r] for r in base])
    Y = np.array([[q[1] for q in r] for r in base])
    Z = np.array([[data(rng, n)[1] for q in r] for r in base])
    bad = rng.random(Y.shape) < rng.choice([0, 0.2])
    Y[bad] = Z[bad] = np.nan
    if how == "X1":
        X = X[0, 0]
    if how == "Y1":
        Y, Z = Y[0, 0], Z[0, 0]
    if how == "strided":
        X, Y, Z = (np.asfortranarray(v) for v in (X, Y, Z))
    lo, hi = np.nanmin(X), np.nanmax(X)
    x = rng.uniform(lo, hi, (m, k))
    Xf, Yf, Zf = np.broadcast_arrays(X, Y, Z) if (X.ndim, Y.ndim) != (1, 1) else (X, Y, Z)
    x = np.where(rng.random((m, k)) < 0.4, np.broadcast_to(Xf[..., rng.integers(n)], (m, k)), x)
    if how == "x0":
        x = float(x[0, 0])
    if how == "x-outer":
        x = np.repeat(x[None], 3, 0)
        x[1] = rng.uniform(lo, hi, (m, k))
    full = np.broadcast_shapes(np.shape(x), Xf.shape[:-1])
    xf = np.broadcast_to(x, full)
    Xf, Yf, Zf = (np.broadcast_to(v, (*full, n)) for v in (Xf, Yf, Zf))
    d = int(rng.integers(0, 5))
    F = make(name, "u", "coeffs")
    c, z = ctx.call("coeffs", F, X, Y), ctx.call("coeffs", F, X, Z)
    got = {
        "ppval": (ctx.call("ppval", pp.ppval, x, X, c, d),),
        "ppval_two": ctx.call("ppval_two", pp.ppval_two, x, X, c, z, d),
        "interp": (ctx.call("interp", make(name, "u", "interp"), x, X, Y, d),),
        "interp_two": ctx.call("interp_two", make(name, "u", "interp", True, 2), x, X, Y, Z, d),
    }
    for vn, out in got.items():
        for arr, W in zip(out, (Yf, Zf)):
            ctx.check(np.shape(arr) == full, "shape", f"{name} {vn} {how}: {np.shape(arr)}, expected {full}")
            for ix in np.ndindex(full):
                r = Ref(name, Xf[ix], W[ix])
                w = judge(ctx, np.asarray(arr)[ix], r(float(xf[ix]), d), xf[ix], d, f"{name} {vn} broadcast {how} {ix}")
                ctx.bucket(name, vn, "broadcast " + how, w)


def poly(ctx, i, rng):
    n = int(rng.integers(1, 7))
    c = rng.normal(size=n) * 10 ** rng.uniform(-5, 5)
    x = float(rng.choice([0.0, 1.0, -1.0, rng.normal() * 10]))
    for d in range(0, 8):
        q = np.polyder(c, d) if 0 < d < n else (c if d == 0 else np.zeros(1))
        mag = np.polyval(np.abs(q), abs(x))
        for C in (c, tuple(float(v) for v in c)):
            got = ctx.call("pval", pp.pval, x, C, d)
            ctx.close(got, np.polyval(q, x), "pval", f"pval({x}, {c}, {d})", rtol=0, atol=1e-14 * mag)
        ctx.event("values_judged")
    ctx.close(pp.pval(x, c), np.polyval(c, x), "pval", "default derivative", rtol=0,
              atol=1e-14 * np.polyval(np.abs(c), abs(x)))
    ctx.bucket("pval", n)
