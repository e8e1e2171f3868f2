import itertools
import math
import numpy as np
from neutralocean.lib import find_first_nan, take_fill, val_at
from neutralocean.ppinterp.lib import diff_1d_samesize, valid_range, valid_range_1, valid_range_1_two

ID = "C28"
RULE = (
    "every pattern of finite, missing and infinite values of each length to 7 (9 in depth; pairs of patterns to 4, 6), then "
    "random arrays of 1 to 4 dimensions, contiguous or not, double or single precision x axis x indices, negative ones "
    "among them. Distinct: function x shape x axis or kind of index, or pattern"
)
ASSUMPTIONS = ["brute-force definitions in Python"]
REQUIRED = {"patterns_enumerated": 2000, "pairs_enumerated": 4000, "elements_judged": 20000, "arrays": 800}
LENGTH = {"quick": 7, "thorough": 9}
PAIR = {"quick": 4, "thorough": 6}
VALUES = (1.0, math.nan, math.inf)


def groups(tier):
    n = 500 if tier == "quick" else 20000
    return [("patterns", LENGTH[tier] + 1), ("pairs", PAIR[tier] + 1), ("first", n), ("at", n), ("fill", n), ("range", n), ("diff", n // 2)]


def warm():
    x = np.ones(3)
    valid_range_1(x), valid_range_1_two(x, x), diff_1d_samesize(x), find_first_nan(x[None]), take_fill(x, np.array([0]))


def span(ok, nan):
    n = len(ok)
    k = next((q for q in range(n) if ok[q]), n)
    return k, next((q for q in range(k + 1, n) if nan[q]), n)


def fin(*X):
    return [all(math.isfinite(x) for x in v) for v in zip(*X)], [any(math.isnan(x) for x in v) for v in zip(*X)]


def case(ctx, group, i, rng):
    globals()["g_" + group](ctx, i, rng)


def g_patterns(ctx, n, rng):
    for pat in itertools.product(VALUES, repeat=n):
        v = np.array([(q + 1.0) * x for q, x in enumerate(pat)], dtype=float)
        ctx.event("patterns_enumerated")
        exp = span(*fin(v))
        got = ctx.call("valid_range_1", valid_range_1, v)
        ctx.check(tuple(int(x) for x in got) == exp, "wrong", f"valid_range_1 of {v.tolist()} gives {got}, not {exp}")
        if n:
            got = tuple(int(x) for x in ctx.call("valid_range", valid_range, v))
            ctx.check(got == exp, "wrong", f"valid_range of {v.tolist()} gives {got}, not {exp}")
            f = next((q for q in range(n) if math.isnan(v[q])), n)
            got = ctx.call("find_first_nan", find_first_nan, v)
            ctx.check(np.shape(got) == () and int(got) == f, "wrong", f"find_first_nan of {v.tolist()} gives {got}, not {f}")
        d = ctx.call("diff_1d_samesize", diff_1d_samesize, v)
        with np.errstate(all="ignore"):
            exp = np.append(np.diff(v), np.nan)[:n]
        ctx.close(d, exp, "wrong", f"diff_1d_samesize of {v.tolist()}", rtol=0)
        ctx.bucket(pat)


def g_pairs(ctx, n, rng):
    for p in itertools.product(VALUES, repeat=n):
        for q in itertools.product(VALUES, repeat=n):
            ctx.event("pairs_enumerated")
            exp = span(*fin(p, q))
            x, y = np.array(p, dtype=float), np.array(q, dtype=float)
            got = tuple(int(x) for x in ctx.call("valid_range_1_two", valid_range_1_two, x, y))
            ctx.check(got == exp, "wrong", f"valid_range_1_two of {p} and {q} gives {got}, not {exp}")
    ctx.bucket("pairs", n)


def array(rng, nd=None, single=True):
    nd = int(rng.integers(1, 5)) if nd is None else nd
    shape = tuple(int(x) for x in rng.integers(1, 8, nd))
    how = str(rng.choice(["C", "F", "strided", "reversed", "moved"]))
    if how == "strided":
        a = rng.normal(size=tuple(2 * x for x in shape))[tuple(slice(None, None, 2) for _ in shape)]
    elif how == "reversed":
        a = rng.normal(size=shape)[tuple(slice(None, None, -1) for _ in shape)]
    elif how == "moved":
        a = np.moveaxis(rng.normal(size=shape[-1:] + shape[:-1]), 0, -1)
    else:
        a = np.require(rng.normal(size=shape), requirements=how)
    if single and rng.random() < 0.3:
        a = a.astype(np.float32)
    m = int(rng.integers(4))
    if m == 1:
        a[rng.random(shape) < rng.choice([0.1, 0.5, 0.9])] = np.nan
    elif m == 2:  # as in the ocean: a number of good bottles per cast
        a[np.arange(shape[-1]) >= rng.integers(0, shape[-1] + 1, shape[:-1] + (1,))] = np.nan
    elif m == 3:
        a[np.arange(shape[-1]) < rng.integers(0, shape[-1] + 1, shape[:-1] + (1,))] = np.nan
    return a, how


def kept(ctx, what, before, after):
    ctx.check(np.array_equal(before, after, equal_nan=True), "input-changed", f"{what} changed its input")


def g_first(ctx, i, rng):
    a, how = array(rng)
    axis = int(rng.integers(-a.ndim, a.ndim))
    b = a.copy()
    k = ctx.call("find_first_nan", find_first_nan, a, axis) if i % 3 else ctx.call("find_first_nan", find_first_nan, a)
    if not i % 3:
        axis = -1
    what = f"find_first_nan of {how} array {a.shape} {a.dtype}, axis {axis}"
    m = np.moveaxis(b, axis, -1)
    ctx.check(np.shape(k) == m.shape[:-1], "wrong-shape", f"{what} has shape {np.shape(k)}")
    for c in np.ndindex(m.shape[:-1]):
        e = next((q for q in range(m.shape[-1]) if math.isnan(m[c][q])), m.shape[-1])
        ctx.event("elements_judged")
        ctx.check(int(k[c]) == e, "wrong", f"{what}: {int(k[c])} at {c}, not {e}", cast=m[c])
    ctx.event("arrays")
    kept(ctx, what, b, a)
    ctx.bucket("first", a.ndim, axis, how)


def g_at(ctx, i, rng):
    T, how = array(rng)
    n = T.shape[-1]
    kind = str(rng.choice(["int", "field", "profile"]))
    neg = rng.random() < 0.5
    if kind == "int":
        k = int(rng.integers(-n if neg else 0, n))
        k = np.int64(k) if i % 2 else k
    elif kind == "field":
        if T.ndim == 1:
            k = np.array(int(rng.integers(0, n)))
        else:
            k = rng.integers(-1 if neg else 0, n, T.shape[:-1])
    else:
        T = T.reshape(-1)[:n].copy()
        n = T.size
        k = rng.integers(-1 if neg else 0, n, tuple(int(x) for x in rng.integers(1, 6, int(rng.integers(1, 4)))))
    b, kb = T.copy(), np.array(k)
    got = np.asarray(ctx.call("val_at", val_at, T, k))
    what = f"val_at of {how} array {T.shape} {T.dtype} at {kind} {np.shape(k)}"
    kk = np.broadcast_to(kb, b.shape[:-1]) if b.ndim > 1 or kb.ndim == 0 else kb
    ctx.check(got.shape == kk.shape, "wrong-shape", f"{what} has shape {got.shape}, not {kk.shape}")
    for c in np.ndindex(kk.shape):
        q = int(kk[c])
        e = math.nan if q < 0 else float((b if b.ndim == 1 else b[c])[q])
        ctx.event("elements_judged")
        ctx.event("negative_indices", q < 0)
        g = float(got[c])
        ctx.check(g == e or (g != g and e != e), "wrong", f"{what}: {g} at {c} (index {q}), not {e}")
    kept(ctx, what, b, T)
    kept(ctx, what, kb, np.array(k))
    ctx.event("arrays")
    # the value at the bottom
    if T.ndim > 1:
        g = find_first_nan(T)
        got = val_at(T, g - 1)
        for c in np.ndindex(T.shape[:-1]):
            e = math.nan if g[c] == 0 else float(b[c][g[c] - 1])
            ctx.check(float(got[c]) == e or (got[c] != got[c] and e != e), "wrong", f"{what}: bottom value {got[c]} at {c}, not {e}")
            ctx.event("bottoms_judged")
    ctx.bucket("at", T.ndim, kind, bool(neg), how)


def g_fill(ctx, i, rng):
    a, _ = array(rng, single=False)
    a = np.ascontiguousarray(a)
    if i % 4 == 0:
        a = rng.integers(-50, 50, a.shape)
    lo = int(rng.choice([0, -1, -5]))
    idx = rng.integers(lo, a.size, int(rng.integers(0, 30)))
    b, ib = a.copy(), idx.copy()
    if a.dtype == float and i % 3:
        fill, got = math.nan, ctx.call("take_fill", take_fill, a, idx)
    else:
        fill = float(rng.integers(-9, 9)) if a.dtype == float else int(rng.integers(-9, 9))
        got = ctx.call("take_fill", take_fill, a, idx, fill)
    what = f"take_fill of {a.shape} {a.dtype} at {idx.size} indices"
    ctx.check(got.shape == idx.shape, "wrong-shape", f"{what} has shape {got.shape}")
    flat = b.reshape(-1)
    for q, k in enumerate(ib):
        e = flat[k] if k >= 0 else fill
        ctx.event("elements_judged")
        ctx.event("filled", k < 0)
        ctx.check(got[q] == e or (got[q] != got[q] and e != e), "wrong", f"{what}: {got[q]} at {q} (index {k}), not {e}")
    kept(ctx, what, b, a)
    kept(ctx, what, ib, idx)
    ctx.event("arrays")
    ctx.bucket("fill", a.ndim, str(a.dtype), lo)


def g_range(ctx, i, rng):
    a, how = array(rng)
    if rng.random() < 0.3:
        a[rng.random(a.shape) < 0.1] = rng.choice([math.inf, -math.inf])
    b = a.copy()
    k, K = ctx.call("valid_range", valid_range, a)
    what = f"valid_range of {how} array {a.shape} {a.dtype}"
    ctx.check(np.shape(k) == np.shape(K) == a.shape[:-1], "wrong-shape", f"{what} has shapes {np.shape(k)}, {np.shape(K)}")
    for c in np.ndindex(a.shape[:-1]):
        e = span(*fin(b[c]))
        got = int(np.asarray(k)[c]), int(np.asarray(K)[c])
        ctx.event("elements_judged")
        ctx.check(got == e, "wrong", f"{what}: {got} at {c}, not {e}", cast=b[c])
        o = b[tuple(int(rng.integers(s)) for s in a.shape[:-1])]
        got = tuple(int(x) for x in valid_range_1_two(b[c], o))
        e = span(*fin(b[c], o))
        ctx.check(got == e, "wrong", f"valid_range_1_two: {got}, not {e}", cast=[b[c], o])
    kept(ctx, what, b, a)
    ctx.event("arrays")
    ctx.bucket("range", a.ndim, how, str(a.dtype))


def g_diff(ctx, i, rng):
    a, how = array(rng, 1)
    b = a.copy()
    d = ctx.call("diff_1d_samesize", diff_1d_samesize, a)
    ctx.check(d.shape == b.shape and d.dtype == b.dtype, "wrong-shape", f"diff_1d_samesize of {b.shape} {b.dtype} gives {d.shape} {d.dtype}")
    ctx.close(d, np.append(np.diff(b), b.dtype.type(np.nan)), "wrong", f"diff_1d_samesize of {b.tolist()}", rtol=0)
    kept(ctx, "diff_1d_samesize", b, a)
    ctx.event("elements_judged", d.size)
    ctx.event("arrays")
    ctx.bucket("diff", d.size, how)
