"""Generators of oceans, casts, grids and configurations."""

import numpy as np
import numba as nb
from . import ref


@nb.njit
def lin(s, t, p):
    return 1027.0 + 0.78 * (s - 35.0) - 0.17 * (t - 10.0) + 4.5e-3 * p


@nb.njit
def lin_s_t(s, t, p):
    return 0.78 + 0.0 * s, -0.17 + 0.0 * s


@nb.njit
def nonlin(s, t, p):
    return (
        1027.0 + 0.78 * (s - 35.0) - (0.10 + 1.5e-5 * p) * (t - 10.0)
        - 5e-3 * (t - 10.0) * (t - 10.0) + 4.5e-3 * p
    )


@nb.njit
def nonlin_s_t(s, t, p):
    return 0.78 + 0.0 * s, -(0.10 + 1.5e-5 * p) - 1e-2 * (t - 10.0)


@nb.njit
def vol(s, t, p):
    return 9.7e-4 * (
        1.0 - 7.6e-4 * (s - 35.0) + (1.2e-4 + 2e-8 * p) * (t - 10.0)
        + 5e-6 * (t - 10.0) * (t - 10.0) - 4.3e-6 * p
    )


@nb.njit
def vol_s_t(s, t, p):
    return 9.7e-4 * -7.6e-4 + 0.0 * s, 9.7e-4 * (1.2e-4 + 2e-8 * p + 1e-5 * (t - 10.0))


CUSTOM = {"lin": (lin, lin_s_t), "nonlin": (nonlin, nonlin_s_t), "vol": (vol, vol_s_t)}

# Name: (equation of state, interpolant, grav, rho_c).  One worker process per configuration, as
# each is compiled anew.
CONFIGS = {
    "gsw-linear": ("gsw", "linear", None, None),
    "gsw-pchip": ("gsw", "pchip", None, None),
    "jmd95-linear": ("jmd95", "linear", None, None),
    "jmd95-pchip-bsq": ("jmd95", "pchip", 9.81, 1035.0),
    "jmdfwg06-linear-bsq": ("jmdfwg06", "linear", 9.7963, 1027.5),
    "jmdfwg06-pchip": ("jmdfwg06", "pchip", None, None),
    "nonlin-linear": ("nonlin", "linear", None, None),
    "vol-pchip": ("vol", "pchip", None, None),
    "lin-linear": ("lin", "linear", None, None),
    "gsw-linear-bsq": ("gsw", "linear", 9.81, 1030.0),
}


class Conf:
    def __init__(self, name):
        self.name = name
        self.eos_name, self.interp, self.grav, self.rho_c = CONFIGS[name]
        self.ref = ref.Eos(self.eos_name, self.grav, self.rho_c)
        # what is given to the code under test
        self.eos = CUSTOM.get(self.eos_name, self.eos_name)
        self.eos_fn = self.eos[0] if isinstance(self.eos, tuple) else self.eos
        self.eos_s_t = self.eos[1] if isinstance(self.eos, tuple) else self.eos
        self.slack = 1e-13 * self.ref.scale

    def kw(self, single=False):
        """Keyword arguments selecting this configuration."""
        k = dict(eos=self.eos_fn if single else self.eos, interp=self.interp)
        if self.grav is not None:
            k.update(grav=self.grav, rho_c=self.rho_c)
        return k


def levels(rng, nk, pmax):
    style = rng.integers(4)
    if style == 0:
        p = np.linspace(0, 1, nk)
    elif style == 1:
        p = np.linspace(0, 1, nk) ** rng.uniform(1.2, 3)
    elif style == 2:
        p = np.cumsum(rng.uniform(0.05, 1, nk))
        p = p / p[-1]
    else:
        p = np.cumsum(rng.exponential(1.0, nk) + 1e-3)
        p = p / p[-1]
    p = p * pmax
    if rng.random() < 0.3:
        p = p + rng.uniform(0, 20)
    return p


def ocean(rng, hshape, nk, rough=0.0, pmax=None, hgrad=1.0, p3d=None, holes=True, land=None):
    """S, T of shape hshape + (nk,), P 1D or 3D.  Returns S, T, P3, P_arg, tags."""
    hshape = tuple(hshape)
    pmax = float(rng.choice([300.0, 1500.0, 4000.0, 6000.0])) if pmax is None else pmax
    P1 = levels(rng, nk, pmax)
    p3d = bool(rng.integers(2)) if p3d is None else p3d
    n = int(np.prod(hshape))
    # smooth horizontal structure
    coords = [np.linspace(0, 1, m) if m > 1 else np.zeros(1) for m in hshape]
    mesh = np.meshgrid(*coords, indexing="ij") if hshape else []

    def field(amp):
        f = np.zeros(hshape)
        for m in mesh:
            f = f + rng.normal() * m + 0.5 * rng.normal() * np.sin(3 * m + rng.uniform(0, 6))
        f = f + 0.15 * rng.normal(size=hshape)
        return amp * hgrad * f

    P3 = np.broadcast_to(P1, hshape + (nk,)).copy()
    if p3d:
        fac = 1 + 0.05 * rng.uniform(-1, 1, hshape + (1,))
        P3 = P3 * fac
    h = pmax * rng.uniform(0.15, 0.6)
    Ts = rng.uniform(8, 26) + field(2.0)
    Tb = rng.uniform(-1, 3) + field(0.2)
    Ss = rng.uniform(33.5, 36.5) + field(0.4)
    Sb = rng.uniform(34.4, 35.2) + field(0.05)
    z = np.exp(-P3 / h)
    z2 = np.exp(-P3 / (h * rng.uniform(0.5, 1.5)))
    T = Tb[..., None] + (Ts - Tb)[..., None] * z
    S = Sb[..., None] + (Ss - Sb)[..., None] * z2
    if rough:
        T = T + rough * rng.normal(size=T.shape)
        S = S + 0.2 * rough * rng.normal(size=S.shape)
    T = np.clip(T, -2.0, 35.0)
    S = np.clip(S, 2.0, 41.0)
    tags = np.full(hshape, "full", dtype=object)
    P_arg_3d = p3d
    if holes:
        pl = rng.uniform(0.0, 0.35) if land is None else land
        for c in np.ndindex(hshape):
            u = rng.random()
            if u < pl * 0.5:
                S[c], T[c] = np.nan, np.nan
                tags[c] = "land"
            elif u < pl * 0.5 + 0.35 and nk > 2:
                k = int(rng.integers(2, nk))
                S[c][k:], T[c][k:] = np.nan, np.nan
                tags[c] = "bottom"
            elif u < pl * 0.5 + 0.42 and nk > 3:
                k = int(rng.integers(1, nk - 1))
                S[c][:k], T[c][:k] = np.nan, np.nan
                tags[c] = "icecap"
            elif u < pl * 0.5 + 0.47 and nk > 4:
                k = int(rng.integers(1, nk - 1))
                S[c][k], T[c][k] = np.nan, np.nan
                tags[c] = "gap"
            elif u < pl * 0.5 + 0.50:
                k = int(rng.integers(0, nk))
                s0, t0 = S[c][k], T[c][k]
                S[c], T[c] = np.nan, np.nan
                S[c][k], T[c][k] = s0, t0
                tags[c] = "one-bottle"
            elif u < pl * 0.5 + 0.56 and P_arg_3d and nk > 3:
                k = int(rng.integers(2, nk))
                P3[c][k:] = np.nan
                tags[c] = "P-nan"
    P_arg = P3.copy() if P_arg_3d else P1.copy()
    return S, T, P3, P_arg, tags


def rect_edges(ni, nj, periodic=(False, False)):
    """Own construction of a rectilinear grid's edges (a = local, b = previous)."""
    a, b = [], []
    for i in range(ni):
        for j in range(nj):
            if i > 0 or periodic[0]:
                a.append(i * nj + j)
                b.append(((i - 1) % ni) * nj + j)
    for i in range(ni):
        for j in range(nj):
            if j > 0 or periodic[1]:
                a.append(i * nj + j)
                b.append(i * nj + (j - 1) % nj)
    return np.array(a, dtype=int), np.array(b, dtype=int)


def random_tree(rng, n):
    a, b = [], []
    perm = rng.permutation(n)
    for k in range(1, n):
        u, v = perm[k], perm[rng.integers(max(0, k - 3), k)]
        if rng.random() < 0.5:
            u, v = v, u
        a.append(u)
        b.append(v)
    return np.array(a, dtype=int), np.array(b, dtype=int)


def layered(rng, n):
    """Casts in layers, with edges only between neighbouring layers, many to each cast; the first layer is one cast."""
    perm = rng.permutation(n)
    layers, k = [perm[:1]], 1
    while k < n:
        m = int(rng.integers(1, 6))
        layers.append(perm[k : k + m])
        k += m
    a, b = [], []
    for u, v in zip(layers[:-1], layers[1:]):
        for y in v:
            for x in rng.permutation(u)[: max(1, int(rng.integers(len(u) + 1)))] if rng.random() < 0.3 else u:
                f = rng.random() < 0.5
                a.append(x if f else y)
                b.append(y if f else x)
    return (np.array(a, dtype=int), np.array(b, dtype=int)), int(perm[0])


def random_graph(rng, n, extra):
    a, b = random_tree(rng, n)
    have = {frozenset((int(x), int(y))) for x, y in zip(a, b)}
    a, b = list(a), list(b)
    for _ in range(extra):
        u, v = int(rng.integers(n)), int(rng.integers(n))
        if u != v and frozenset((u, v)) not in have:
            have.add(frozenset((u, v)))
            a.append(u)
            b.append(v)
    return np.array(a, dtype=int), np.array(b, dtype=int)


def geometry(rng, E, uniform=False):
    if uniform:
        return 1.0, 1.0
    return rng.uniform(0.5, 2.0, E) * 10 ** rng.uniform(-1, 5), rng.uniform(0.5, 2.0, E) * 10 ** rng.uniform(-1, 5)
