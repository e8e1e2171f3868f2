import numpy as np
from .. import gen, ref, om
from ..harness import Skip
from neutralocean.traj import ntp_bottle_to_cast

ID = "C08"
RULE = (
    "random oceans; a surface grown from one point (rectilinear, layered graphs, trees, general graphs) or from a "
    "given surface, connected or not (trees), with and without a mixed layer, replayed pass by pass with the "
    "public neutral-link function. Distinct: configuration x grid x start x verdict x number of "
    "wet neighbours and successful links"
)
ASSUMPTIONS = [
    "the public neutral-link function is right (C04 judges it)",
    "links within 4 tolerances of the mixed layer base are not judged",
]
REQUIRED = {"wet_casts_judged": 400, "refused_casts_judged": 60, "land_casts_judged": 20,
            "multi_link_casts_judged": 40, "three_link_casts_judged": 40, "mixed_layer_rejections": 30, "array_starts_judged": 30, "rewetted_parts_judged": 4,
            "general_casts_judged": 60, "long_passes": 1500}
QUICK = ["gsw-linear", "gsw-pchip", "jmd95-linear", "jmdfwg06-linear-bsq", "nonlin-linear", "vol-pchip",
         "lin-linear", "jmd95-pchip-bsq"]


def groups(tier):
    return [(g, 42 if tier == "quick" else 2000) for g in (QUICK if tier == "quick" else gen.CONFIGS)]


def random_ml(rng, o):
    pm = o.pin_p + rng.normal(size=o.hshape) * 0.3 * o.pin_p - 0.15 * o.pin_p
    pm[rng.random(o.hshape) < 0.2] = -np.inf
    pm[o.pin_cast] = 0.5 * o.pin_p
    return pm


def links(ctx, o, s, t, p, m, srcs, tol):
    """Pressures of the neutral links from wet casts `srcs` to cast m."""
    c = np.unravel_index(m, o.hshape)
    return [float(ctx.call("ntp_bottle_to_cast", ntp_bottle_to_cast, s[n], t[n], p[n], o.S[c], o.T[c], o.P3[c],
                           tol_p=tol, **o.conf.kw(single=True))[2]) for n in srcs]


def decide(ctx, o, lk, pml, tol):
    ok = [x for x in lk if np.isfinite(x) and x > pml]
    if any(np.isfinite(x) and x <= pml for x in lk):
        ctx.event("mixed_layer_rejections")
    if any(np.isfinite(x) and abs(x - pml) < 4 * tol for x in lk):
        raise Skip("link at the mixed layer base")
    return ok


def passes(o, adj, wet0, is_wet):
    """Yield (cast, wet neighbours at that time) in passes; is_wet(m) tells the outcome."""
    wet = set(wet0)
    seen = set(wet0)
    front = []
    for m in sorted(wet0):
        for n in adj[m]:
            if n not in seen:
                seen.add(n)
                front.append(n)
    while front:
        new = []
        for m in front:
            yield m, [n for n in adj[m] if n in wet]
            if is_wet(m):
                new.append(m)
        wet.update(new)
        front = []
        for m in new:
            for n in adj[m]:
                if n not in seen:
                    seen.add(n)
                    front.append(n)


def judge_cast(ctx, o, m, srcs, s, t, p, pml, tol, what):
    cast = o.casts[m]
    got = p[m]
    if not cast.ok:
        ctx.check(np.isnan(got), "wet-land", f"{what}: cast {m} has < 2 valid bottles but p = {got}")
        ctx.event("land_casts_judged")
        return
    lk = links(ctx, o, s, t, p, m, srcs, tol)
    ok = decide(ctx, o, lk, pml[m], tol)
    if not ok:
        ctx.check(np.isnan(got), "wet-without-link",
                  f"{what}: no neutral link from wet neighbours {srcs} to cast {m} below its mixed layer "
                  f"({pml[m]}): {lk}, yet p = {got}")
        ctx.event("refused_casts_judged")
    else:
        ctx.check(np.isfinite(got), "not-wet", f"{what}: neutral links {ok} lead to cast {m}, yet it is dry",
                  links=lk, p_ml=pml[m])
        d = 2 * tol + 1e-13 * abs(got)
        ctx.check(abs(got - np.mean(ok)) <= d, "not-average",
                  f"{what}: cast {m} is wet at {got}, the average of its links {ok} is {np.mean(ok)}")
        ctx.event("wet_casts_judged")
        if len(ok) > 2:
            ctx.event("three_link_casts_judged")
        if len(ok) > 1:
            ctx.event("multi_link_casts_judged")
    ctx.bucket(o.conf.name, o.kind, what, bool(ok), min(len(srcs), 3), min(len(ok), 3), cast.n == 2)


def long(ctx, group, conf, rng):
    """A surface that takes hundreds of passes to grow from one end of a chain to the other."""
    n = int(rng.integers(260, 1200))
    o = om.setup(rng, conf, kind="chain", n=n, hgrad=0.0, holes=False, land=0.0)
    q = rng.permutation(n)
    o.edges = tuple(q[e] for e in o.edges)
    o.grid["edges"] = o.edges
    adj = ref.adjacency(o.edges, o.N)
    s, t, p, _ = om.run(ctx, o, o.pin_p, ITER_MAX=0, diags=False)
    s, t, p = (np.asarray(x).reshape(-1) for x in (s, t, p))
    pml = np.full(o.N, -np.inf)
    dist = {o.pin: 0}
    for m, srcs in passes(o, adj, [o.pin], lambda m: np.isfinite(p[m])):
        dist[m] = 1 + min(dist[k] for k in srcs)
        judge_cast(ctx, o, m, srcs, s, t, p, pml, o.tol, f"{dist[m]} casts from the point given")
    ctx.event("long_passes", max(dist.values()))
    ctx.bucket(group, "long", max(dist.values()) // 100)


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    if i % 42 == 41:
        return long(ctx, group, conf, rng)
    mode = ["scalar", "scalar", "scalar", "general", "array", "scalar"][i % 6]
    kind = {"scalar": str(rng.choice(["rect", "layers", "layers", "tree"])), "general": "graph", "array": "tree"}[mode]
    o = om.setup(rng, conf, kind=kind, hgrad=float(rng.choice([0.3, 1.0, 2.0])), rough=float(rng.choice([0, 0, 0.05])),
                 land=float(rng.choice([0.1, 0.4])))
    adj = ref.adjacency(o.edges, o.N)
    pml = np.full(o.N, -np.inf)
    kw = {}
    if rng.random() < 0.5:
        kw["p_ml"] = random_ml(rng, o)
        pml = kw["p_ml"].reshape(-1)
    if mode != "array":
        s, t, p, _ = om.run(ctx, o, o.pin_p, ITER_MAX=0, diags=False, **kw)
        s, t, p = (np.asarray(x).reshape(-1) for x in (s, t, p))
        ctx.sample(config=group, grid=o.kind, N=o.N, wet=int(np.isfinite(p).sum()), p_ml="p_ml" in kw)
        if mode == "scalar":
            seen = {o.pin}
            for m, srcs in passes(o, adj, [o.pin], lambda m: np.isfinite(p[m])):
                seen.add(m)
                judge_cast(ctx, o, m, srcs, s, t, p, pml, o.tol, "from one point")
            rest = np.array([k not in seen for k in range(o.N)], dtype=bool)
            ctx.check(not np.isfinite(p[rest]).any(), "wet-unreached", "a cast not next to any wet cast is wet", p=p)
        else:
            # order within a pass may matter: judge against links from all wet neighbours
            for m in range(o.N):
                if m == o.pin or not o.casts[m].ok:
                    continue
                srcs = [n for n in adj[m] if np.isfinite(p[n])]
                if np.isfinite(p[m]):
                    lk = links(ctx, o, s, t, p, m, srcs, o.tol)
                    ok = decide(ctx, o, lk, pml[m], o.tol)
                    d = 2 * o.tol + 1e-13 * abs(p[m])
                    ctx.check(len(ok) > 0 and min(ok) - d <= p[m] <= max(ok) + d, "not-average",
                              f"cast {m} is wet at {p[m]}, outside its neutral links {lk}, mixed layer {pml[m]}")
                    ctx.event("general_casts_judged")
                    ctx.bucket(group, "graph", "wet", min(len(ok), 3))
                elif o.pin in adj[m]:
                    lk = links(ctx, o, s, t, p, m, [o.pin], o.tol)
                    ctx.check(not decide(ctx, o, lk, pml[m], o.tol), "not-wet",
                              f"cast {m}, next to the pinning cast, has neutral link {lk} from it but is dry")
                    ctx.event("general_casts_judged")
                    ctx.bucket(group, "graph", "dry-next-to-pin")
        return
    # a given surface, dry beyond the pinning cast's component, one iteration
    o.tol = 1e-9
    p0 = om.init_surface(rng, o, smooth=0.01)
    p0[rng.random(o.hshape) < 0.5] = np.nan
    p0[o.pin_cast] = o.pin_p
    s, t, p = om.start_state(o, p0)
    comp = ref.component(o.edges, np.isfinite(p), o.pin)
    far = np.isfinite(p) & ~comp
    split = bool(far.any()) and rng.random() < 0.8
    if split:  # parts of the surface not connected to the pinning cast are given too: they are discarded
        start = p.reshape(o.hshape).copy()
    p[~comp], s[~comp], t[~comp] = np.nan, np.nan, np.nan
    n0 = int(comp.sum())
    if not split:
        start = p.reshape(o.hshape).copy()
    pred = {}

    def is_wet(m):
        return pred[m]

    for m, srcs in passes(o, adj, list(np.flatnonzero(comp)), is_wet):
        pred[m] = False
        if o.casts[m].ok:
            ok = decide(ctx, o, links(ctx, o, s, t, p, m, srcs, o.tol), pml[m], o.tol)
            if ok:
                p[m] = np.mean(ok)
                s[m], t[m] = o.casts[m].st(p[m])
                pred[m] = True
    if "p_ml" in kw:  # the first iteration does not cut the given surface; only wetting obeys it
        ctx.event("array_with_mixed_layer")
    r = om.run(ctx, o, start, ITER_MAX=1, diags=True, TOL_LRPD_MAV=0.0, **kw)
    nw = int(np.isfinite(p).sum()) - n0
    ctx.check(int(r[3]["n_newly_wet"][1]) == nw, "count-newly-wet",
              f"{nw} casts can be wetted from the given surface, {r[3]['n_newly_wet'][1]} reported")
    phi, comp = om.solve_phi(o, s, t, p)
    om.judge_update(ctx, o, (s, t, p), phi, comp, r[:3], "after wetting", 1e-6, tol_old=1e-6)
    ctx.event("array_starts_judged")
    if split and any(far[m] for m in pred):
        ctx.event("rewetted_parts_judged")
    ctx.bucket(group, "array", min(nw, 3), "p_ml" in kw)
