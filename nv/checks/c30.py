import numpy as np
from .. import gen, ref, om
from ..harness import Skip
from .c08 import links, random_ml
from neutralocean.bfs import bfs_conncomp1_wet
from neutralocean.grid.graph import edges_to_csr, edges_to_graph
from neutralocean.eos import make_eos
from neutralocean.ppinterp import make_pp

ID = "C30"
RULE = (
    "random oceans and grids (rectilinear, periodic, layered, trees, general graphs) with a surface given at some "
    "casts, with and without a mixed layer, from wet and dry roots, neighbours in order of edges or of a sparse "
    "matrix. Distinct: configuration x grid x root x new casts x mixed layer x order of neighbours"
)
ASSUMPTIONS = [
    "the public neutral-link function is right (C04 judges it)",
    "links within 4 tolerances of the mixed layer base are not judged",
]
REQUIRED = {"searches_judged": 100, "wetted_judged": 200, "refused_judged": 100, "dry_roots": 8,
            "mixed_layer_rejections": 10, "untouched_wet": 30, "later_link_judged": 5}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmdfwg06-linear-bsq", "nonlin-linear", "vol-pchip"]


def groups(tier):
    return [(g, 60 if tier == "quick" else 2000) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    o = om.setup(rng, conf, kind=str(rng.choice(["rect", "rect-periodic", "layers", "tree", "graph"])),
                 hgrad=float(rng.choice([0.3, 1.0, 3.0])), rough=float(rng.choice([0, 0, 0.05])),
                 land=float(rng.choice([0.1, 0.4])))
    p0 = om.init_surface(rng, o, smooth=0.05)
    p0[rng.random(o.hshape) < float(rng.choice([0.3, 0.7, 0.95]))] = np.nan
    p0[o.pin_cast] = o.pin_p
    root = o.pin
    if rng.random() < 0.15:
        root = int(rng.integers(o.N))
    pml = random_ml(rng, o).reshape(-1) if rng.random() < 0.5 else np.full(o.N, -np.inf)
    s0, t0, p0 = om.start_state(o, p0)
    how = "csr"
    if rng.random() < 0.3:
        how = "graph"
        G = edges_to_graph(tuple(np.asarray(x) for x in o.edges), o.N)
        indptr, indices = G.indptr, G.indices
    else:
        indptr, indices = edges_to_csr(tuple(np.asarray(x) for x in o.edges), o.N)
    ppc = make_pp(conf.interp, kind="1", out="coeffs", nans=False)
    flat = lambda x: np.ascontiguousarray(x).reshape(o.N, -1)
    s, t, p = s0.copy(), t0.copy(), p0.copy()
    qu, new = ctx.call("bfs_conncomp1_wet", bfs_conncomp1_wet, s, t, p, indptr, indices, root, flat(o.S), flat(o.T),
                       flat(o.P3), o.tol, make_eos(conf.eos_fn, conf.grav, conf.rho_c), ppc, pml)
    qu = [int(x) for x in qu]
    what = f"{o.kind} grid of {o.N} casts, root {root}"
    was, wet = np.isfinite(p0), np.isfinite(p)
    ctx.event("searches_judged")
    ctx.check(np.array_equal(np.isnan(p), np.isnan(s)) and np.array_equal(np.isnan(p), np.isnan(t)), "nan-together",
              f"{what}: s, t, p are not NaN together")
    for x, y in ((s, s0), (t, t0), (p, p0)):
        ctx.check(np.array_equal(x[was], y[was]), "moved", f"{what}: a cast that was wet was changed")
    fresh = [int(k) for k in np.flatnonzero(wet & ~was)]
    ctx.check(new == len(fresh), "count", f"{what}: {len(fresh)} casts became wet, {new} reported")
    if not was[root]:
        ctx.check(not qu and not fresh, "dry-root", f"{what}: dry root, yet {qu} found, {fresh} wetted")
        ctx.event("dry_roots")
        return
    ctx.check(qu[0] == root and len(set(qu)) == len(qu), "queue", f"{what}: queue {qu}")
    comp = ref.component(o.edges, wet, root)
    ctx.check(set(qu) == set(int(k) for k in np.flatnonzero(comp)), "queue-set",
              f"{what}: the queue {sorted(qu)} is not the root's wet component {np.flatnonzero(comp)}")
    ctx.event("untouched_wet", int((was & ~comp).sum()))
    pos = {m: k for k, m in enumerate(qu)}
    adj = ref.adjacency(o.edges, o.N)
    todo = sorted(set(n for m in qu for n in adj[m] if not was[n]))
    for n in todo:
        src = sorted({m for m in adj[n] if m in pos}, key=pos.get)
        if not o.casts[n].ok:
            ctx.check(not wet[n], "wet-land", f"{what}: cast {n} has < 2 valid bottles but p = {p[n]}")
            continue
        if wet[n]:  # only the casts before it in the queue count
            src = [m for m in src if pos[m] < pos[n]]
        lk = links(ctx, o, s, t, p, n, src, o.tol)
        if any(np.isfinite(x) and abs(x - pml[n]) < 4 * o.tol for x in lk):
            raise Skip("link at the mixed layer base")
        ok = [x for x in lk if np.isfinite(x) and x > pml[n]]
        if len(ok) < sum(np.isfinite(x) for x in lk):
            ctx.event("mixed_layer_rejections")
        if wet[n]:
            ctx.check(len(ok) > 0, "wet-without-link", f"{what}: cast {n} is wet at {p[n]}; links {lk} from {src}, "
                      f"mixed layer {pml[n]}")
            d = 2 * o.tol + 1e-13 * abs(p[n])
            ctx.check(abs(p[n] - ok[0]) <= d, "not-the-first-link",
                      f"{what}: cast {n} is wet at {p[n]}; links {lk} from {src} in the order of the search, "
                      f"mixed layer {pml[n]}")
            es, et = o.casts[n].st(p[n])
            ctx.close(s[n], es, "salinity", what, rtol=1e-9)
            ctx.close(t[n], et, "temperature", what, rtol=1e-9, atol=1e-9)
            ctx.event("wetted_judged")
            if ok[0] != lk[0]:
                ctx.event("later_link_judged")
        else:
            ctx.check(not ok, "not-wet", f"{what}: cast {n} is dry; links {lk} from {src}, mixed layer {pml[n]}")
            ctx.event("refused_judged")
    ctx.bucket(group, o.kind, how, min(len(fresh), 4), bool(np.isfinite(pml).any()))
    ctx.sample(config=group, grid=o.kind, N=o.N, found=len(qu), wetted=len(fresh))
