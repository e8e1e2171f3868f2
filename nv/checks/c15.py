import numpy as np
import numba as nb
import scipy.sparse as sp
from .. import grids
from neutralocean.grid.graph import build_grid, edges_to_graph, edges_to_csr, graph_binary_fcn
from neutralocean.bfs import bfs_conncomp1

ID = "C15"
RULE = (
    "all graphs of up to 4 nodes (enumerated) and random graphs (sparse, dense, trees, unconnected, empty, with hubs of up to 80000 neighbours) x "
    "representation (dense, csr, csc, coo, arrays; symmetric, upper, lower, mixed one-sided; explicit zeros) x "
    "weights x sets of good nodes x roots. Distinct: representation x sidedness x class of graph"
)
ASSUMPTIONS = ["graphs are simple (no self-loops); a one-sided matrix has each edge on one side only, as documented"]
REQUIRED = {"edges_judged": 20000, "csr_rows_judged": 3000, "searches_judged": 1000, "binary_judged": 4000, "hubs_judged": 2}

FN = {
    "diff": (nb.njit(lambda x, y: x - y), lambda x, y: x - y),
    "first": (nb.njit(lambda x, y: x), lambda x, y: x),
    "mix": (nb.njit(lambda x, y: 2.0 * x + y), lambda x, y: 2.0 * x + y),
}
REP = {
    "dense": lambda x: x,
    "csr": sp.csr_matrix,
    "csc": sp.csc_matrix,
    "coo": sp.coo_matrix,
    "csr_array": sp.csr_array,
    "fortran": np.asfortranarray,
}


def groups(tier):
    return [("small", 1 + 2 + 8 + 64), ("random", 700 if tier == "quick" else 30000),
            ("large", 8 if tier == "quick" else 80)]


def warm():
    e = (np.array([0]), np.array([1]))
    edges_to_csr(e, 2)
    for f, _ in FN.values():
        graph_binary_fcn(e, np.zeros(2), f)
        graph_binary_fcn(e, np.zeros((1, 2)), f)
    bfs_conncomp1(np.array([0, 1, 2]), np.array([1, 0]), 0, np.array([True, True]))


def graph(group, i, rng):
    if group == "small":
        n = 1
        while i >= 2 ** (n * (n - 1) // 2):
            i -= 2 ** (n * (n - 1) // 2)
            n += 1
        pairs = [(x, y) for x in range(n) for y in range(x + 1, n)]
        return n, [q for k, q in enumerate(pairs) if i >> k & 1], "small"
    n = int(rng.integers(2, 40))
    kind = str(rng.choice(["sparse", "dense", "tree", "islands", "empty", "star"]))
    pairs = [(x, y) for x in range(n) for y in range(x + 1, n)]
    if kind == "tree":
        E = [(int(rng.integers(0, k)), k) for k in range(1, n)]
    elif kind == "star":
        c = int(rng.integers(n))
        E = [(min(c, k), max(c, k)) for k in range(n) if k != c]
    else:
        f = {"sparse": 2 / n, "dense": 0.6, "islands": 0.7 / n, "empty": 0.0}[kind]
        E = [q for q in pairs if rng.random() < f]
    q = rng.permutation(n)
    return n, [(int(min(q[a], q[b])), int(max(q[a], q[b]))) for a, b in E], kind


def matrix(rng, n, E, side, w, integer):
    M = np.zeros((n, n), dtype=int if integer else float)
    for (a, b), x, s in zip(E, w, side):
        if s in (0, 2):
            M[a, b] = x
        if s in (1, 2):
            M[b, a] = x
    return M


def rep(rng, M, how, zeros):
    if zeros and how in ("csr", "coo", "csc", "csr_array"):
        a, b = np.nonzero(M)
        n = len(M)
        za = rng.integers(0, n, 3)
        zb = rng.integers(0, n, 3)
        C = sp.coo_matrix(
            (np.r_[M[a, b], np.zeros(3, M.dtype)], (np.r_[a, za], np.r_[b, zb])), shape=M.shape
        )
        return REP[how](C)
    return REP[how](M.copy())


def large(ctx, i, rng):
    """A graph of more nodes than 16 bits can number."""
    n = int(rng.choice([40000, 66000, 80000]))
    m = int(n * rng.uniform(0.6, 2))
    a, b = rng.integers(0, n, (2, m))
    hub = 0
    if rng.random() < 0.7:  # one node with more neighbours than 7, 8, 15 or 16 bits can count
        hub = int(rng.choice([200, 300, 33000, n - 1]))
        a = np.concatenate((a, np.full(hub, int(rng.integers(n)))))
        b = np.concatenate((b, rng.permutation(n)[:hub]))
        ctx.event("hubs_judged")
    k = np.unique(np.where(a < b, a * n + b, b * n + a)[a != b])
    order = rng.permutation(len(k))
    x, y = (k // n)[order], (k % n)[order]
    f = rng.random(len(k)) < 0.5
    a, b = np.where(f, x, y), np.where(f, y, x)
    w = rng.uniform(1, 2, len(k))
    what = f"graph of {n} nodes and {len(k)} edges"
    A = ctx.call("edges_to_graph", edges_to_graph, (a, b), n, w)
    R = sp.csr_matrix((np.concatenate((w, w)), (np.concatenate((a, b)), np.concatenate((b, a)))), shape=(n, n))
    ctx.check(A.shape == R.shape and abs(A - R).nnz == 0, "edges_to_graph", f"{what}: matrix differs")
    indptr, indices = ctx.call("edges_to_csr", edges_to_csr, (a, b), n)
    src = np.concatenate((a, b))
    dst = np.concatenate((b, a))
    at = np.concatenate((np.arange(len(a)), np.arange(len(a))))
    o = np.lexsort((at, src))
    ctx.check(np.array_equal(indptr, np.concatenate(([0], np.cumsum(np.bincount(src, minlength=n))))), "csr-shape",
              f"{what}: indptr differs")
    ctx.check(np.array_equal(indices, dst[o]), "csr-row", f"{what}: neighbours differ")
    g = ctx.call("graph.build_grid", build_grid, {"dist": R.copy(), "distperp": 2 * R})
    got = sorted(zip(np.minimum(*g["edges"]).tolist(), np.maximum(*g["edges"]).tolist(), g["dist"].tolist(), g["distperp"].tolist()))
    exp = sorted(zip(x.tolist(), y.tolist(), w.tolist(), (2 * w).tolist()))
    ctx.check(got == exp, "edges", f"{what}: grid of {len(got)} edges differs")
    good = rng.random(n) < 0.9
    root = int(rng.integers(n))
    good[root] = True
    q = good[a] & good[b]
    _, lab = sp.csgraph.connected_components(sp.coo_matrix((np.ones(q.sum()), (a[q], b[q])), shape=(n, n)), False)
    qu = ctx.call("bfs_conncomp1", bfs_conncomp1, np.asarray(indptr), np.asarray(indices), root, good.copy())
    ctx.check(np.array_equal(np.sort(qu), np.flatnonzero(good & (lab == lab[root]))), "search-set",
              f"{what}: search from {root} found {len(qu)} nodes")
    ctx.event("large_graphs")
    ctx.bucket("large", n, hub, len(qu) > n // 2)


def case(ctx, group, i, rng):
    if group == "large":
        return large(ctx, i, rng)
    n, E, kind = graph(group, i, rng)
    how = str(rng.choice(list(REP)))
    sided = str(rng.choice(["both", "upper", "lower", "mixed"]))
    side = {"both": [2] * len(E), "upper": [0] * len(E), "lower": [1] * len(E),
            "mixed": list(rng.integers(0, 2, len(E)))}[sided]
    integer = rng.random() < 0.3
    f = 10 ** rng.uniform(-1, 6)
    dist = rng.integers(1, 99, len(E)) if integer else rng.uniform(0.5, 2, len(E)) * f
    perp = rng.integers(1, 99, len(E)) if integer else rng.uniform(0.5, 2, len(E)) * f
    if rng.random() < 0.3:
        perp = dist.copy()
    zeros = rng.random() < 0.3
    what = f"{kind} graph of {n} nodes and {len(E)} edges as {how}, {sided}"
    # adjacency matrix -> grid
    M = matrix(rng, n, E, side, dist, integer)
    if rng.random() < 0.3:  # structure only matters: both sides may hold different numbers
        M = M * rng.integers(1, 5, M.shape)
    if rng.random() < 0.15:
        M = M != 0
    exp = grids.Counter({(a, b, 1.0, 1.0): 1 for a, b in E})
    g = ctx.call("graph.build_grid", build_grid, rep(rng, M, how, zeros))
    grids.judge_grid(ctx, g, exp, n, what)
    # dict of matrices -> grid
    G = {
        "dist": rep(rng, matrix(rng, n, E, side, dist, integer), how, zeros),
        "distperp": rep(rng, matrix(rng, n, E, side, perp, integer), how, zeros),
    }
    exp = grids.Counter({(a, b, float(d), float(p)): 1 for (a, b), d, p in zip(E, dist, perp)})
    g = ctx.call("graph.build_grid", build_grid, G)
    grids.judge_grid(ctx, g, exp, n, "dict of " + what)
    ctx.bucket(how, sided, kind, integer)
    ctx.sample(graph=kind, n=n, E=len(E), rep=how, side=sided)
    # edges -> symmetric matrix, neighbour list
    flip = rng.random(len(E)) < 0.5
    order = rng.permutation(len(E))
    L = [E[k][::-1] if flip[k] else E[k] for k in order]
    w = np.asarray(dist)[order]
    if rng.random() < 0.4:  # of either sign, or zero
        w = w * rng.choice([-1, -1, 0, 1], len(w))
        ctx.event("signed_weights")
    dt = rng.choice([np.int64, np.int32])
    a = np.array([x for x, _ in L], dtype=dt)
    b = np.array([y for _, y in L], dtype=dt)
    known = n if (not L or rng.random() < 0.6) else -1
    size = n if known == n else max(max(x) for x in L) + 1
    size_kw = {} if known == -1 and rng.random() < 0.7 else {"N": known}
    for weights in (None, w):
        A = ctx.call("edges_to_graph", edges_to_graph, (a, b), **size_kw, **({} if weights is None else {"weights": weights}))
        exp = np.zeros((size, size))
        for k, (x, y) in enumerate(L):
            exp[x, y] = exp[y, x] = 1 if weights is None else w[k]
        ctx.close(A.toarray(), exp, "edges_to_graph", what, rtol=0)
    indptr, indices = ctx.call("edges_to_csr", edges_to_csr, (a, b), **size_kw)
    nbr = [[] for _ in range(size)]
    for x, y in L:
        nbr[x].append(y)
        nbr[y].append(x)
    ctx.check(len(indptr) == size + 1 and indptr[0] == 0 and indptr[-1] == len(indices) == 2 * len(L),
              "csr-shape", f"{what}: indptr {list(indptr)[:9]}, {len(indices)} indices")
    for m in range(size):
        got = [int(x) for x in indices[indptr[m] : indptr[m + 1]]]
        ctx.check(got == nbr[m], "csr-row", f"{what}: neighbours of {m} are {got}, given {nbr[m]}")
        ctx.event("csr_rows_judged")
    # search
    for _ in range(3):
        good = rng.random(size) < rng.choice([0.3, 0.7, 1.0])
        root = int(rng.integers(size))
        if rng.random() < 0.7:
            good[root] = True
        parent = list(range(size))

        def top(x):
            while parent[x] != x:
                x = parent[x]
            return x

        for x, y in L:
            if good[x] and good[y]:
                parent[top(x)] = top(y)
        reach = {x for x in range(size) if good[x] and top(x) == top(root)} if good[root] else set()
        qu = ctx.call("bfs_conncomp1", bfs_conncomp1, np.asarray(indptr), np.asarray(indices), root, good.copy())
        got = [int(x) for x in qu]
        ctx.check(len(got) == len(set(got)), "search-repeat", f"{what}: {got} visits a node twice")
        ctx.check(set(got) == reach, "search-set",
                  f"{what}: from {root} visited {sorted(got)[:20]}, joined are {sorted(reach)[:20]}")
        if got:
            ctx.check(got[0] == root, "search-root", f"{what}: search from {root} starts at {got[0]}")
            depth = {root: 0}
            fr = [root]
            while fr:
                nx = []
                for x in fr:
                    for y in nbr[x]:
                        if good[y] and y not in depth:
                            depth[y] = depth[x] + 1
                            nx.append(y)
                fr = nx
            dd = [depth[x] for x in got]
            ctx.check(dd == sorted(dd), "search-order", f"{what}: not breadth first: depths {dd[:20]}")
        ctx.event("searches_judged")
    # binary function
    if L:
        v = rng.normal(size=size)
        v[rng.random(size) < 0.2] = np.nan
        if size % 2 == 0 and rng.random() < 0.4:
            v = v.reshape(2, -1)
        name = str(rng.choice(list(FN)))
        f, r = FN[name]
        ev = ctx.call("graph_binary_fcn", graph_binary_fcn, (a, b), v, f)
        u = v.reshape(-1)
        ctx.close(ev, [r(u[x], u[y]) for x, y in L], "binary-value", f"{what}: {name} on edges", rtol=1e-15)
        ctx.event("binary_judged", len(L))
