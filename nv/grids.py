"""Judging grids as multisets of undirected edges with their geometry."""

from collections import Counter
import numpy as np


def multiset(a, b, dist, perp, loops=True):
    c = Counter()
    for x, y, d, p in zip(a, b, dist, perp):
        x, y = int(x), int(y)
        if x == y and not loops:
            continue
        c[(min(x, y), max(x, y), float(d), float(p))] += 1
    return c


def judge_grid(ctx, grid, exp, N, what, loops=True):
    """grid has exactly the edges `exp` (a multiset), and well formed arrays."""
    for k in ("edges", "dist", "distperp"):
        ctx.check(k in grid, "keys", f"{what}: grid lacks {k}")
    a, b = grid["edges"]
    a, b = np.asarray(a), np.asarray(b)
    d, p = np.asarray(grid["dist"]), np.asarray(grid["distperp"])
    ctx.check(a.ndim == b.ndim == d.ndim == p.ndim == 1 and len(a) == len(b) == len(d) == len(p), "shape",
              f"{what}: edges {a.shape}, {b.shape}, dist {d.shape}, distperp {p.shape}")
    ctx.check(np.issubdtype(a.dtype, np.integer) and np.issubdtype(b.dtype, np.integer), "dtype",
              f"{what}: edges of type {a.dtype}, {b.dtype}")
    if len(a):
        ctx.check(min(a.min(), b.min()) >= 0 and max(a.max(), b.max()) < N, "range",
                  f"{what}: edges refer to nodes {min(a.min(), b.min())} .. {max(a.max(), b.max())} of {N}")
    got = multiset(a, b, d, p, loops)
    if got != exp:
        more, less = got - exp, exp - got
        ctx.fail("edges", f"{what}: edges (node, node, dist, distperp) not expected: {list(more)[:3]} "
                 f"({sum(more.values())}); missing: {list(less)[:3]} ({sum(less.values())})")
    ctx.event("judgements")
    ctx.event("edges_judged", sum(exp.values()))
    return a, b, d, p
