import numpy as np
from .. import ref, gen
from neutralocean.label import veronis

ID = "C22"
RULE = (
    "random casts (bottoms, ice, gaps, padded pressures, few bottles) x start and end pressures (knots, ends, between, "
    "outside, NaN, default) x reference pressure x factor x step 0.3 to 500 x all configurations. Distinct: "
    "configuration x classes of start and end x direction x step relative to the levels"
)
ASSUMPTIONS = [
    "reference: Gauss-Legendre quadrature on each interval between bottles; accuracy of the step: the trapezoidal rule's "
    "bound from the second derivative of the integrand",
]
REQUIRED = {"values_judged": 600, "nan_judged": 200, "additive_judged": 300, "antisymmetric_judged": 300}

CONF = list(gen.CONFIGS)
GX, GW = np.polynomial.legendre.leggauss(10)
CU = np.cos(np.pi * (np.arange(12) + 0.5) / 12)


def groups(tier):
    if tier == "quick":  # one process each
        return [(c, 220) for c in CONF if c not in ("gsw-linear", "jmdfwg06-pchip")]
    return [(c, 3000) for c in CONF]


class Model:
    def __init__(self, conf, S, T, P):
        self.e = conf.ref
        self.c = ref.Cast(S, T, P, conf.interp)
        self.ok = self.c.ok

    def y(self, a, b, x):
        """gradient of locally referenced density on a piece (a, b); x strictly inside"""
        s, t = self.c.st(x)
        rs, rt = self.e.s_t(s, t, x)
        return rs * self.c.S(x, 1) + rt * self.c.T(x, 1)

    def inside(self, p):
        return self.ok and self.c.P[0] <= p <= self.c.P[-1]

    def integral(self, p0, p1):
        """value and sum of max|y''| * length over whole intervals touched"""
        lo, hi = min(p0, p1), max(p0, p1)
        P = self.c.P
        I, K = 0.0, 0.0
        for a, b in zip(P[:-1], P[1:]):
            u, v = max(a, lo), min(b, hi)
            if v < u or (v == u and not (a < lo <= b)):
                continue
            m, h = 0.5 * (a + b), 0.5 * (b - a)
            # integrand as a polynomial on the whole interval, from interior points
            cf = np.polynomial.chebyshev.chebfit(CU, self.y(a, b, m + h * CU), 11)
            d2 = np.polynomial.chebyshev.chebval(np.linspace(-1, 1, 41), np.polynomial.chebyshev.chebder(cf, 2)) / h**2
            K += float(np.max(np.abs(d2))) * (b - a)
            if v > u:
                x = 0.5 * (u + v) + 0.5 * (v - u) * GX
                I += 0.5 * (v - u) * float(np.sum(GW * self.y(a, b, x)))
        return (I if p1 >= p0 else -I), K

    def tol(self, K, dp, b):
        return abs(b) * (dp**2 / 12 * K * 1.3 + 1e-11 * self.e.scale) + 1e-12 * self.e.scale


def site(rng, P, cast):
    k = str(rng.choice(["knot", "between", "between", "first", "last", "below", "above", "outside-block", "nan"],
                       p=[0.2, 0.2, 0.2, 0.1, 0.1, 0.06, 0.06, 0.05, 0.03]))
    V = cast.P if cast.ok else P[np.isfinite(P)]
    if k == "knot":
        return float(rng.choice(V)), k
    if k == "between":
        return float(rng.uniform(V[0], V[-1])), k
    if k == "first":
        return float(V[0]), k
    if k == "last":
        return float(V[-1]), k
    if k == "below":
        return float(np.nanmax(P) + 10 ** rng.uniform(-6, 2)), k
    if k == "above":
        return float(np.nanmin(P) - 10 ** rng.uniform(-6, 2)), k
    if k == "outside-block":
        return float(rng.uniform(np.nanmin(P), np.nanmax(P))), k
    return np.nan, k


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    nk = int(rng.choice([2, 3, 5, 12, 25]))
    S, T, P3, _, tags = gen.ocean(rng, (1,), nk, rough=float(rng.choice([0, 0.3])), p3d=True,
                                  land=0.15 if rng.random() < 0.9 else 0.9)
    S, T, P = S[0], T[0], P3[0]
    u = rng.random()
    if u < 0.08:  # pressures missing below any bottle, even the first
        P[int(rng.integers(1, nk)):] = np.nan
    elif u < 0.12 and nk > 2 and tags[0] == "full":  # or of one bottle
        P[int(rng.integers(1, nk))] = np.nan
    elif u < 0.14:
        S, T, P = S[:1], T[:1], P[:1]
    M = Model(conf, S, T, P)
    b = float(rng.choice([1.0, 1.0, 2.5, -0.5, 0.0]))
    dp = float(rng.choice([1.0, 0.3, 5.0, 37.0, 500.0]))
    if np.nanmax(P) > 2000 and dp < 1:
        dp = 1.0
    pr = float(rng.choice([0.0, 0.0, 1000.0, 2000.0]))
    kw = dict(conf.kw(), p_ref=pr, b=b, dp=dp)
    (p0, k0), (p1, k1) = site(rng, P, M.c), site(rng, P, M.c)
    if rng.random() < 0.15:
        p1, k1 = p0, "same"
    what = f"{group}, {tags[0]} cast of {nk}, p0 = {p0!r}, p1 = {p1!r}, p_ref {pr}, b {b}, dp {dp}"

    def V(a, z, **o):
        k = dict(kw, **o)
        return float(ctx.call(f"veronis {what}", veronis, z, S, T, P, p0=a, **k))

    def expect(a, z):
        if not (M.ok and M.inside(a) and M.inside(z)):
            return np.nan, 0.0
        I, K = M.integral(a, z)
        s, t = M.c.st(a)
        return float(M.e(s, t, pr)) + b * I, M.tol(K, dp, b)

    if i % 5 == 0 and np.isfinite(P[0]):  # default start: the first bottle
        e, tol = expect(float(P[0]), p1)
        g = float(ctx.call(f"veronis {what}", veronis, p1, S, T, P, **kw))
        ctx.close(g, e, "default-start", f"{what} (default start)", rtol=0, atol=tol)
    e, tol = expect(p0, p1)
    g = V(p0, p1)
    ctx.close(g, e, "value", what, rtol=0, atol=tol)
    ctx.event("nan_judged" if np.isnan(e) else "values_judged")
    ctx.bucket(group, k0, k1, bool(p1 >= p0), dp, np.isnan(e))
    ctx.sample(conf=group, p0=p0, p1=p1, got=g, expected=e, step=dp)
    if np.isnan(e):
        return
    # antisymmetry: the integral back undoes the integral out
    d = lambda a: float(M.e(*M.c.st(a), pr))
    back = V(p1, p0)
    r = 2e-12 * M.e.scale * (1 + abs(b))
    ctx.check(abs((g - d(p0)) + (back - d(p1))) <= r, "antisymmetry",
              f"{what}: out {g - d(p0)!r}, back {back - d(p1)!r}")
    ctx.event("antisymmetric_judged")
    # additivity
    q = float(rng.choice([rng.uniform(M.c.P[0], M.c.P[-1]), rng.choice(M.c.P)]))
    a1, a2 = V(p0, q) - d(p0), V(q, p1) - d(q)
    K = M.integral(p0, q)[1] + M.integral(q, p1)[1] + M.integral(p0, p1)[1]
    ctx.check(abs(a1 + a2 - (g - d(p0))) <= M.tol(K, dp, b), "additivity",
              f"{what}: via {q!r}: {a1!r} + {a2!r}, direct {g - d(p0)!r}")
    ctx.event("additive_judged")
