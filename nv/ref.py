"""Independent reference models: equations of state, interpolants, root oracle, graphs.

Nothing here imports neutralocean.  Equations of state: the published JMD95 and JMDFWG06
polynomials written out term by term (valid for complex arguments, so derivatives come from the
complex step), and the official GSW C library for TEOS-10.  Interpolants: numpy / scipy.
"""

import numpy as np
import gsw as _gswlib
from scipy.interpolate import PchipInterpolator

# ---------------------------------------------------------------- equations of state

_JMD95_RHO = {  # (power of t, 2 * power of s): coefficient, density at p = 0
    (0, 0): 999.842594, (1, 0): 6.793952e-02, (2, 0): -9.095290e-03, (3, 0): 1.001685e-04,
    (4, 0): -1.120083e-06, (5, 0): 6.536332e-09,
    (0, 2): 8.244930e-01, (1, 2): -4.089900e-03, (2, 2): 7.643800e-05, (3, 2): -8.246700e-07,
    (4, 2): 5.387500e-09,
    (0, 3): -5.724660e-03, (1, 3): 1.022700e-04, (2, 3): -1.654600e-06, (0, 4): 4.831400e-04,
}
_JMD95_K = {  # (power of t, 2 * power of s, power of p[bar]): secant bulk modulus [bar]
    (0, 0, 0): 1.965933e+04, (1, 0, 0): 1.444304e+02, (2, 0, 0): -1.706103e+00,
    (3, 0, 0): 9.648704e-03, (4, 0, 0): -4.190253e-05,
    (0, 2, 0): 5.284855e+01, (1, 2, 0): -3.101089e-01, (2, 2, 0): 6.283263e-03,
    (3, 2, 0): -5.084188e-05,
    (0, 3, 0): 3.886640e-01, (1, 3, 0): 9.085835e-03, (2, 3, 0): -4.619924e-04,
    (0, 0, 1): 3.186519e+00, (1, 0, 1): 2.212276e-02, (2, 0, 1): -2.984642e-04,
    (3, 0, 1): 1.956415e-06,
    (0, 2, 1): 6.704388e-03, (1, 2, 1): -1.847318e-04, (2, 2, 1): 2.059331e-07,
    (0, 3, 1): 1.480266e-04,
    (0, 0, 2): 2.102898e-04, (1, 0, 2): -1.202016e-05, (2, 0, 2): 1.394680e-07,
    (0, 2, 2): -2.040237e-06, (1, 2, 2): 6.128773e-08, (2, 2, 2): 6.207323e-10,
}


def jmd95(s, t, p):
    r = np.sqrt(s)
    pb = p / 10.0
    rho0 = sum(c * t**i * r**j for (i, j), c in _JMD95_RHO.items())
    K = sum(c * t**i * r**j * pb**k for (i, j, k), c in _JMD95_K.items())
    return rho0 / (1.0 - pb / K)


def jmdfwg06(s, t, p):
    r = np.sqrt(s)
    num = (
        9.9984085444849347e02 + 7.3471625860981584e00 * t - 5.3211231792841769e-02 * t**2
        + 3.6492439109814549e-04 * t**3 + 2.5880571023991390e00 * s
        - 6.7168282786692355e-03 * s * t + 1.9203202055760151e-03 * s**2
        + 1.1798263740430364e-02 * p + 9.8920219266399117e-08 * p * t**2
        + 4.6996642771754730e-06 * p * s - 2.5862187075154352e-08 * p**2
        - 3.2921414007960662e-12 * p**2 * t**2
    )
    den = (
        1.0 + 7.2815210113327091e-03 * t - 4.4787265461983921e-05 * t**2
        + 3.3851002965802430e-07 * t**3 + 1.3651202389758572e-10 * t**4
        + 1.7632126669040377e-03 * s - 8.8066583251206474e-06 * s * t
        - 1.8832689434804897e-10 * s * t**3 + 5.7463776745432097e-06 * s * r
        + 1.4716275472242334e-09 * s * r * t**2 + 6.7103246285651894e-06 * p
        - 2.4461698007024582e-17 * p**2 * t**3 - 9.1534417604289062e-18 * p**3 * t
    )
    return num / den


def gsw(s, t, p):
    return _gswlib.specvol(s, t, p)


def _cstep(f):
    h = 1e-30

    def d(s, t, p):
        s, t, p = (np.asarray(x, dtype=float) for x in (s, t, p))
        return (
            np.imag(f(s + 1j * h, t, p)) / h,
            np.imag(f(s, t + 1j * h, p)) / h,
            np.imag(f(s, t, p + 1j * h)) / h,
        )

    return d


def _gsw_d(s, t, p):
    vs, vt, vp = _gswlib.specvol_first_derivatives(s, t, p)
    return vs, vt, vp * 1e4  # per Pa -> per dbar


# Custom equations of state, given to the code as functions
def lin(s, t, p):
    return 1027.0 + 0.78 * (s - 35.0) - 0.17 * (t - 10.0) + 4.5e-3 * p


def nonlin(s, t, p):  # cabbeling and thermobaricity
    return (
        1027.0 + 0.78 * (s - 35.0) - (0.10 + 1.5e-5 * p) * (t - 10.0)
        - 5e-3 * (t - 10.0) * (t - 10.0) + 4.5e-3 * p
    )


def vol(s, t, p):  # a specific volume
    return 9.7e-4 * (
        1.0 - 7.6e-4 * (s - 35.0) + (1.2e-4 + 2e-8 * p) * (t - 10.0)
        + 5e-6 * (t - 10.0) * (t - 10.0) - 4.3e-6 * p
    )


EOS = {"gsw": gsw, "jmd95": jmd95, "jmdfwg06": jmdfwg06, "lin": lin, "nonlin": nonlin, "vol": vol}
EOS_D = {"gsw": _gsw_d, **{k: _cstep(EOS[k]) for k in EOS if k != "gsw"}}


class Eos:
    """Reference equation of state, with the Boussinesq change of argument."""

    def __init__(self, name, grav=None, rho_c=None):
        self.name, self.grav, self.rho_c = name, grav, rho_c
        self.z2p = 1.0 if grav is None or rho_c is None else 1e-4 * grav * rho_c
        self.density = name not in ("gsw", "vol")
        self.scale = 1000.0 if self.density else 1e-3

    def __call__(self, s, t, p):
        return EOS[self.name](
            np.asarray(s, dtype=float), np.asarray(t, dtype=float),
            np.asarray(p, dtype=float) * self.z2p,
        )

    def s_t(self, s, t, p):
        return EOS_D[self.name](s, t, np.asarray(p, dtype=float) * self.z2p)[:2]

    def p(self, s, t, p):
        return EOS_D[self.name](s, t, np.asarray(p, dtype=float) * self.z2p)[2] * self.z2p


# ---------------------------------------------------------------- interpolation


def first_block(*arrays):
    """[k, K): the first contiguous run of indices at which all arrays are finite."""
    ok = np.logical_and.reduce([np.isfinite(np.asarray(a, dtype=float)) for a in arrays])
    idx = np.flatnonzero(ok)
    if idx.size == 0:
        return len(ok), len(ok)
    k = int(idx[0])
    rest = np.flatnonzero(~ok[k:])
    return k, (k + int(rest[0]) if rest.size else len(ok))


class Interp1:
    """Interpolant of Y(X) over the first block of valid data; NaN outside of it."""

    def __init__(self, X, Y, kind):
        X, Y = np.asarray(X, dtype=float), np.asarray(Y, dtype=float)
        k, K = first_block(X, Y)
        self.X, self.Y, self.kind = X[k:K], Y[k:K], kind
        self.ok = K - k > 1
        self._pp = None
        if self.ok and kind == "pchip":
            with np.errstate(all="ignore"):
                self._pp = PchipInterpolator(self.X, self.Y, extrapolate=False)

    def __call__(self, x, d=0):
        x = np.asarray(x, dtype=float)
        if not self.ok:
            return np.full(x.shape, np.nan)
        bad = ~((x >= self.X[0]) & (x <= self.X[-1]))
        if self.kind == "pchip" and len(self.X) > 2:
            if d > 3:
                y = np.zeros(x.shape)
            else:
                # scipy takes pieces [X_i, X_i+1); the code takes (X_i, X_i+1]
                i = np.clip(np.searchsorted(self.X, x) - 1, 0, len(self.X) - 2)
                c = self._pp.c[:, i]
                dx = x - self.X[i]
                if d == 0:
                    y = ((c[0] * dx + c[1]) * dx + c[2]) * dx + c[3]
                elif d == 1:
                    y = (3 * c[0] * dx + 2 * c[1]) * dx + c[2]
                elif d == 2:
                    y = 6 * c[0] * dx + 2 * c[1]
                else:
                    y = 6 * c[0] + 0 * dx
        else:
            i = np.clip(np.searchsorted(self.X, x) - 1, 0, len(self.X) - 2)
            sl = (self.Y[i + 1] - self.Y[i]) / (self.X[i + 1] - self.X[i])
            y = self.Y[i] + sl * (x - self.X[i]) if d == 0 else (sl if d == 1 else 0.0 * sl)
        return np.where(bad, np.nan, y)


class Cast:
    """One water column with reference interpolants of S and T in P."""

    def __init__(self, S, T, P, kind):
        k, K = first_block(S, P)
        self.P = np.asarray(P, dtype=float)[k:K]
        self.n = K - k
        self.ok = self.n > 1
        self.S = Interp1(self.P, np.asarray(S, dtype=float)[k:K], kind)
        self.T = Interp1(self.P, np.asarray(T, dtype=float)[k:K], kind)

    def st(self, p):
        return self.S(p), self.T(p)


# ---------------------------------------------------------------- root oracle


def judge_root(f, A, B, p, tol, slack, knots=()):
    """Judge `p` as 'a root of f on [A, B], or NaN if there is none that shows at the ends'.

    Sound: f changes sign (or is zero to rounding) within 2 tol of p.  Complete: p is NaN only if
    f has one sign at both ends.  Returns (kind, None) or (kind, why it is wrong).
    """
    fa, fb = float(f(np.array([A]))[0]), float(f(np.array([B]))[0])
    if np.isnan(p):
        if fa * fb < 0 and min(abs(fa), abs(fb)) > slack:
            return "dry", f"NaN, but f({A}) = {fa} and f({B}) = {fb} differ in sign"
        return "dry", None
    d = 2.0 * tol + 1e-14 * (abs(p) + abs(A) + abs(B)) + 1e-300
    if not (A - d <= p <= B + d):
        return "wet", f"{p} is outside the cast's range [{A}, {B}]"
    lo, hi = max(A, p - d), min(B, p + d)
    x = np.unique(np.concatenate((np.linspace(lo, hi, 17), [min(max(p, A), B)],
                                  [k for k in knots if lo < k < hi])))
    y = f(x)
    fp = float(f(np.array([min(max(p, A), B)]))[0])
    if np.min(y) <= slack and np.max(y) >= -slack:
        return "wet", None
    if abs(fp) <= (np.max(y) - np.min(y)) + slack:
        return "wet", None
    return "wet", f"f({p}) = {fp} and no root within {d:g} (f in [{np.min(y)}, {np.max(y)}])"


# ---------------------------------------------------------------- graphs


def component(edges, good, root):
    """Boolean mask of the connected component of `root` among `good` nodes."""
    import collections

    n = len(good)
    adj = [[] for _ in range(n)]
    for a, b in zip(*edges):
        adj[int(a)].append(int(b))
        adj[int(b)].append(int(a))
    seen = np.zeros(n, dtype=bool)
    if not good[root]:
        return seen
    q = collections.deque([root])
    seen[root] = True
    while q:
        m = q.popleft()
        for k in adj[m]:
            if good[k] and not seen[k]:
                seen[k] = True
                q.append(k)
    return seen


def adjacency(edges, n):
    adj = [[] for _ in range(n)]
    for a, b in zip(*edges):
        adj[int(a)].append(int(b))
        adj[int(b)].append(int(a))
    return adj


def epsilon(eos, s, t, p, edges):
    a, b = (np.asarray(x, dtype=int) for x in edges)
    s, t, p = (np.asarray(x, dtype=float).reshape(-1) for x in (s, t, p))
    rs, rt = eos.s_t(0.5 * (s[a] + s[b]), 0.5 * (t[a] + t[b]), 0.5 * (p[a] + p[b]))
    return rs * (s[b] - s[a]) + rt * (t[b] - t[a])


def norms(eos, s, t, p, edges, dist=1.0, distperp=1.0):
    e = epsilon(eos, s, t, p, edges)
    E = len(e)
    dist, distperp = np.broadcast_to(dist, E), np.broadcast_to(distperp, E)
    ok = np.isfinite(e)
    w = (dist * distperp)[ok]
    if w.sum() == 0:
        return 0.0, 0.0
    g = e[ok] / dist[ok]
    return float(np.sqrt(np.sum(w * g * g) / w.sum())), float(np.sum(w * abs(g)) / w.sum())


def norms_scale(eos, s, t, p, edges, dist=1.0, distperp=1.0):
    """As `norms`, of the sum of magnitudes of the terms that cancel in each error: its rounding scale."""
    a, b = (np.asarray(x, dtype=int) for x in edges)
    s, t, p = (np.asarray(x, dtype=float).reshape(-1) for x in (s, t, p))
    rs, rt = eos.s_t(0.5 * (s[a] + s[b]), 0.5 * (t[a] + t[b]), 0.5 * (p[a] + p[b]))
    e = np.abs(rs) * (np.abs(s[a]) + np.abs(s[b])) + np.abs(rt) * (np.abs(t[a]) + np.abs(t[b]))
    dist, distperp = np.broadcast_to(dist, len(e)), np.broadcast_to(distperp, len(e))
    ok = np.isfinite(e)
    w = (dist * distperp)[ok]
    if w.sum() == 0:
        return 0.0, 0.0
    g = e[ok] / dist[ok]
    return float(np.sqrt(np.sum(w * g * g) / w.sum())), float(np.sum(w * g) / w.sum())
