import numpy as np
import xarray as xr
from .. import ref, gen
from neutralocean.mixed_layer import mixed_layer

ID = "C21"
RULE = (
    "random oceans with land, bottoms, ice and gaps, each cast's bottles sorted by potential density at the reference "
    "pressure x thresholds 0 to 1 x near-surface bottle 0 to 3 x reference pressures x layouts (any vertical dimension, "
    "labelled or plain, pressure 1D or repeated) x all configurations. Distinct: configuration x outcome (surface, "
    "interior, never reached, no data) x bottle x layout"
)
ASSUMPTIONS = ["potential density increases down each cast by at least 2e-6 kg m-3 per pair", "reference EOS and interpolants as for C01"]
REQUIRED = {"inside_judged": 1500, "dry_judged": 300, "land_judged": 300}

CONF = list(gen.CONFIGS)


def groups(tier):
    return [(c, 80 if tier == "quick" else 600) for c in CONF]


def case(ctx, group, i, rng):
    conf = gen.Conf(group)
    h = tuple(int(x) for x in rng.integers(1, 6, 2))
    if rng.random() < 0.2:
        h = h[:1]
    nk = int(rng.choice([2, 3, 5, 12, 30]))
    S, T, P3, Parg, tags = gen.ocean(rng, h, nk, rough=float(rng.choice([0, 0.3])))
    thr = float(rng.choice([0.03, 0.03, 0.125, 0.003, 1.0, 0.0]))
    bi = int(rng.choice([0, 1, 1, 2, 3]))
    bi = min(bi, nk - 1)
    rp = float(rng.choice([100.0, 0.0, 1000.0]))
    dens = lambda s, t: conf.ref(s, t, rp) if conf.ref.density else 1.0 / conf.ref(s, t, rp)
    for c in np.ndindex(h):
        ok = np.flatnonzero(np.isfinite(S[c]))
        d = dens(S[c][ok], T[c][ok])
        q = np.argsort(d)
        S[c][ok], T[c][ok] = S[c][ok][q], T[c][ok][q]
    kw = dict(conf.kw(True), pot_dens_diff=thr, ref_p=rp, bottle_index=bi)
    if thr == 0.03 and rp == 100.0 and bi == 1 and rng.random() < 0.5:
        for k in ("pot_dens_diff", "ref_p", "bottle_index"):
            kw.pop(k)
    v = int(rng.integers(len(h) + 1))
    A = [np.moveaxis(x, -1, v) for x in (S, T)]
    PA = Parg if Parg.ndim == 1 else np.moveaxis(Parg, -1, v)
    lay = str(rng.choice(["plain", "contiguous", "xarray", "f4"]))
    vd = v if rng.random() < 0.5 else v - len(h) - 1
    if lay == "contiguous":
        A = [np.ascontiguousarray(x) for x in A]
    if lay == "f4":
        A = [x.astype("f4") for x in A]
        S, T = (np.moveaxis(x.astype(float), v, -1) for x in A)
    if lay == "xarray":
        dims = ["x", "y"][: len(h)]
        dims.insert(v, "z")
        A = [xr.DataArray(x, dims=dims) for x in A]
        PA = xr.DataArray(PA, dims=dims if PA.ndim > 1 else ["z"])
        vd = "z"
    got = np.asarray(ctx.call("mixed_layer", mixed_layer, *A, PA, vert_dim=vd, **kw))
    ctx.check(got.shape == h, "shape", f"mixed layer of shape {got.shape} for casts {h}, vertical {vd}")
    for c in np.ndindex(h):
        with np.errstate(all="ignore"):
            D = dens(S[c], T[c])
            DD = D - D[bi]
        f = ref.Interp1(DD, P3[c], conf.interp)
        where = f"{group}, cast {c} ({tags[c]}), bottle {bi}, threshold {thr}, reference {rp}, {lay}"
        if not f.ok:
            ctx.check(np.isnan(got[c]), "no-data", f"{where}: {got[c]}")
            ctx.event("land_judged")
            ctx.bucket(group, "land", tags[c], lay)
            continue
        if np.min(np.diff(f.X)) < 2e-6:
            ctx.event("nearly_neutral_skipped")
            continue
        if min(abs(f.X[0] - thr), abs(f.X[-1] - thr)) < 1e-9 and not (f.X[0] + 1e-9 < thr < f.X[-1] - 1e-9):
            ctx.event("at_end_skipped")
            continue
        e = float(f(thr))
        slope = np.max(np.abs(np.diff(f.Y) / np.diff(f.X)))
        ctx.close(got[c], e, "mixed-layer", where, rtol=1e-12, atol=1e-8 + 3e-11 * slope)
        ctx.event("dry_judged" if np.isnan(e) else "inside_judged")
        ctx.bucket(group, "dry" if np.isnan(e) else "wet", tags[c], bi, lay, thr)
    ctx.sample(conf=group, shape=h, nk=nk, threshold=thr, ml=got.reshape(-1)[:4])
