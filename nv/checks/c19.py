import numpy as np
import gsw as lib
from .. import ref
from neutralocean.eos import gsw, gswc, jmd95, jmdfwg06

ID = "C19"
RULE = (
    "points uniform over and on the edges of salinity 0 to 50, temperature -4 to 45, pressure 0 to 12000 (fresh, "
    "brackish, hot, abyssal, p = 0 and negative salinity for TEOS-10) x every public function of every equation of "
    "state module. Distinct: function x region (salinity, temperature, pressure octant, edges)"
)
ASSUMPTIONS = [
    "JMD95 and JMDFWG06 as transcribed in nv/ref.py, differentiated by the complex step",
    "TEOS-10 values, first and second derivatives from the official GSW C library; third derivatives by differentiating "
    "its second derivatives with Chebyshev interpolation",
]
REQUIRED = {"values_judged": 40000, "third_judged": 1000, "negative_salinity": 100}

ALL = "s t ss st tt sp tp sss sst stt ttt ssp stp ttp spp tpp".split()


def groups(tier):
    q = tier == "quick"
    return [("gsw", 900 if q else 60000), ("gswc", 1500 if q else 60000), ("jmd95", 3000 if q else 200000),
            ("jmdfwg06", 3000 if q else 200000)]


SHARD = {"quick": {"gsw": 300}, "thorough": {"gsw": 8000, "gswc": 30000, "jmd95": 40000, "jmdfwg06": 40000}}


def warm():
    gsw.specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp(35.0, 1.0, 1.0)
    for f in ("specvol", "specvol_s_t", "specvol_p", "specvol_first_derivs", "specvol_second_derivs",
              "specvol_third_derivs", "specvol_s_t_ss_st_tt_sp_tp"):
        getattr(gsw, f)(35.0, 1.0, 1.0)
    for m in (jmd95, jmdfwg06):
        m.rho(35.0, 1.0, 1.0), m.rho_s_t(35.0, 1.0, 1.0), m.rho_p(35.0, 1.0, 1.0)


def point(rng):
    s = rng.uniform(0, 50)
    t = rng.uniform(-4, 45)
    p = rng.uniform(0, 12000)
    k = rng.integers(8)
    if k == 0:
        s = 0.0
    elif k == 1:
        s = 10 ** rng.uniform(-6, 0)
    elif k == 2:
        t = 0.0
    elif k == 3:
        p = 0.0
    elif k == 4:
        s, t = rng.uniform(33, 37), rng.uniform(-2, 30)
    return float(s), float(t), float(p)


_N = 17
_u = np.cos(np.pi * (np.arange(_N) + 0.5) / _N)


def spectral(g, x, lo, half, order=1):
    """derivative at x of g(array), by Chebyshev interpolation on an interval of half-width `half` containing x."""
    a = max(lo, x - half)
    m = a + half
    c = np.polynomial.chebyshev.chebfit(_u, g(m + half * _u), _N - 1)
    return np.polynomial.chebyshev.chebval((x - m) / half, np.polynomial.chebyshev.chebder(c, order)) / half**order


def third(s, t, p):
    """third derivatives (and pp) of the GSW C library's specific volume, per dbar"""
    d1 = lib.specvol_first_derivatives
    d2 = lib.specvol_second_derivatives  # ss st tt sp tp
    S = lambda k: (lambda x: d2(x, t, p)[k])
    T = lambda k: (lambda x: d2(s, x, p)[k])
    P = lambda k: (lambda x: d2(s, t, x)[k])
    D = 1e4  # the library's pressure derivatives are per Pa
    o = {}
    hs, ht, hp = 6.0, 10.0, 3000.0
    o["sss"], o["sst"], o["stt"], o["ttt"] = (
        spectral(S(0), s, 0.0, hs), spectral(T(0), t, -1e9, ht), spectral(T(1), t, -1e9, ht), spectral(T(2), t, -1e9, ht))
    o["ssp"], o["stp"], o["ttp"] = (spectral(P(k), p, -1e9, hp) for k in (0, 1, 2))
    o["spp"], o["tpp"] = (spectral(P(k), p, -1e9, hp) * D for k in (3, 4))
    vp = lambda x: d1(s, t, x)[2] * D
    o["pp"] = spectral(vp, p, -1e9, hp)
    o["ppp"] = spectral(vp, p, -1e9, hp, 2)
    return o


# typical sizes, for derivatives that pass through zero
SIZE = dict(s=7e-7, t=2e-7, p=4e-9, ss=1e-9, st=2e-9, tt=1e-8, sp=3e-12, tp=3e-12, pp=1e-13, sss=2e-11, sst=5e-11,
            stt=4e-11, ttt=3e-10, ssp=2e-14, stp=1e-14, ttp=6e-14, spp=2e-17, tpp=6e-17, ppp=7e-18)


def judge_gsw(ctx, s, t, p, edge):
    se = max(s, 0.0)
    v = float(lib.specvol(se, t, p))
    vs, vt, vp = (float(x) for x in lib.specvol_first_derivatives(se, t, p))
    ss, st, tt, sp, tp = (float(x) for x in lib.specvol_second_derivatives(se, t, p))
    E = dict(s=vs, t=vt, p=vp * 1e4, ss=ss, st=st, tt=tt, sp=sp * 1e4, tp=tp * 1e4, **{k: float(x) for k, x in third(se, t, p).items()})
    at = f"at ({s!r}, {t!r}, {p!r})"
    ctx.close(ctx.call("gsw.specvol", gsw.specvol, s, t, p), v, "gsw.specvol", at, rtol=2e-14)
    ctx.event("values_judged")
    for fn, names in (
        ("specvol_s_t", ["s", "t"]), ("specvol_p", ["p"]), ("specvol_first_derivs", ["s", "t", "p"]),
        ("specvol_second_derivs", ["ss", "st", "tt", "sp", "tp", "pp"]),
        ("specvol_third_derivs", ["sss", "sst", "stt", "ttt", "ssp", "stp", "ttp", "spp", "tpp", "ppp"]),
        ("specvol_s_t_ss_st_tt_sp_tp", ALL[:7]),
        ("specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp", ALL),
    ):
        r = ctx.call("gsw." + fn, getattr(gsw, fn), s, t, p)
        r = (r,) if fn == "specvol_p" else tuple(r)
        ctx.check(len(r) == len(names), "count", f"gsw.{fn} returned {len(r)} values, for {names}")
        for k, x in zip(names, r):
            far = len(k) == 3 or k == "pp"
            ctx.close(x, E[k], "gsw." + fn, f"derivative {k} {at}", rtol=1e-9 if far else 1e-12,
                      atol=SIZE[k] * (1e-9 if far else 1e-12))
            ctx.event("values_judged")
            if len(k) == 3:
                ctx.event("third_judged")


def case(ctx, group, i, rng):
    s, t, p = point(rng)
    edge = (s == 0, s < 1, t == 0, p == 0)
    if group == "gsw":
        if i % 7 == 0:
            s = -10 ** rng.uniform(-12, 0.5)
            ctx.event("negative_salinity")
        judge_gsw(ctx, s, t, p, edge)
    elif group == "gswc":
        se = max(s, 0.0)
        v = float(lib.specvol(se, t, p))
        d = [float(x) for x in lib.specvol_first_derivatives(se, t, p)]
        at = f"at ({s!r}, {t!r}, {p!r})"
        ctx.close(ctx.call("gswc.rho", gswc.rho, s, t, p), 1 / v, "gswc.rho", at, rtol=1e-13)
        rs, rt = ctx.call("gswc.rho_s_t", gswc.rho_s_t, s, t, p)
        rp = ctx.call("gswc.rho_p", gswc.rho_p, s, t, p)
        for k, got, x, a in (("s", rs, d[0], 1e-11), ("t", rt, d[1], 1e-11), ("p", rp, d[2] * 1e4, 1e-13)):
            ctx.close(got, -x / v**2, "gswc." + k, f"derivative {k} {at}", rtol=1e-11, atol=a)
        ctx.event("values_judged", 4)
    else:
        m = {"jmd95": jmd95, "jmdfwg06": jmdfwg06}[group]
        at = f"at ({s!r}, {t!r}, {p!r})"
        ctx.close(ctx.call(group + ".rho", m.rho, s, t, p), ref.EOS[group](s, t, p), group + ".rho", at, rtol=1e-13)
        d = ref.EOS_D[group](s, t, p)
        rs, rt = ctx.call(group + ".rho_s_t", m.rho_s_t, s, t, p)
        rp = ctx.call(group + ".rho_p", m.rho_p, s, t, p)
        for k, got, x, a in (("s", rs, d[0], 1e-12), ("t", rt, d[1], 1e-12), ("p", rp, d[2], 1e-14)):
            ctx.close(got, float(x), f"{group}.rho_{k}", f"derivative {k} {at}", rtol=1e-11, atol=a)
        ctx.event("values_judged", 4)
    ctx.bucket(group, s < 0, edge, int(s // 15), int(t // 12), int(p // 4000))
    if i < 2:
        ctx.sample(eos=group, point=(s, t, p))
