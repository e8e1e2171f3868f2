import math
import numpy as np
import numba as nb
from neutralocean.fzero import brent, guess_to_bounds, brent_guess

ID = "C18"
STALL = 90
RULE = (
    "functions with chosen sign changes (0 to 5, each a step, root, line, cubic, seventh power or wild magnitudes; at ends, coincident "
    "with the guess, or a few floating point numbers apart; zero on an interval), on scales 1e-170 to 1e30 x ranges "
    "(wide, tiny, one point, reversed, NaN) x guesses (inside, ends, outside, infinite, NaN) x tolerances 0 to the "
    "whole range. Distinct: function x crossings x class of range x guess x tolerance"
)
ASSUMPTIONS = [
    "an execution that evaluates the function more often than Brent's bound (log2 of range over tolerance, squared) counts as non-terminating",
    "for functions without a sign change, products of two function values do not underflow",
]
REQUIRED = {"roots_judged": 4000, "brackets_judged": 3000, "none_judged": 1500, "evaluations": 50000, "tiny_judged": 400, "underflow_judged": 300, "near_judged": 500}


@nb.njit
def fun(x, sgn, roots, powers, scale, width, log):
    """sgn * scale * prod((x - root)^power), power 0 a step; logs every evaluation"""
    log[0] += 1.0
    if log[0] > log[1]:
        raise RuntimeError("evaluation limit")
    if not (x >= log[2]):
        log[2] = x
    if not (x <= log[3]):
        log[3] = x
    y = sgn * scale
    for i in range(len(roots)):
        u = (x - roots[i]) / width
        p = powers[i]
        if p == 0.0:
            if u < 0.0:
                y = -y
        elif p == -2.0:  # magnitudes vary wildly, and not monotonically
            v = 10.0 ** (20.0 * math.sin(57.0 * u + 3.0 * i))
            y = y * (v if u > 0.0 else -v)
            if u == 0.0:
                y = 0.0
        elif p < 0.0:  # zero within 1/20 of the width of the root
            if abs(u) < 0.05:
                y = 0.0
            elif u < 0.0:
                y = -y * (-u)
            else:
                y = y * u
        else:
            v = abs(u) ** p
            if v < 1e-60 and u != 0.0:
                v = 1e-60
            y = y * (v if u > 0.0 else -v)
    return y


def groups(tier):
    q = tier == "quick"
    return [("brent", 8000 if q else 150000), ("bounds", 8000 if q else 150000), ("both", 8000 if q else 150000),
            ("tiny", 3000 if q else 40000), ("bad", 1500 if q else 20000)]


SHARD = {"quick": {}, "thorough": {"brent": 40000, "bounds": 40000, "both": 40000}}


def args(rng, A, B, nroot, tiny=False):
    w = max(B - A, abs(A) * 1e-16, 1e-290)
    if tiny:
        roots = np.array([A] * nroot)
        for i in range(nroot):
            for _ in range(int(rng.integers(0, 6))):
                roots[i] = np.nextafter(roots[i], np.inf)
    else:
        roots = rng.uniform(A, B, nroot)
        for i in range(nroot):
            k = rng.random()
            if k < 0.08:
                roots[i] = A
            elif k < 0.16:
                roots[i] = B
            elif k < 0.22:
                roots[i] = 0.5 * (A + B)
    pw = rng.choice([0.0, 1.0, 1.0, 1.0, 0.3, 3.0, 7.0, -1.0, -2.0, -2.0], nroot).astype(float)
    scale = 10 ** rng.uniform(-30, 30)
    return [float(rng.choice([-1, 1])), np.sort(roots), pw, scale, w]


def call(ctx, what, fn, a, limit, *rest):
    """Calls fn with an instrumented function; returns (result, evaluations, lowest, highest argument)."""
    log = np.array([0.0, float(limit), np.nan, np.nan])
    log[2], log[3] = np.inf, -np.inf
    res = ctx.call(what, fn, fun, *rest, (*a, log))
    ctx.event("evaluations", log[0])
    return res, int(log[0]), log[2], log[3]


def val(a, x):
    return fun(x, *a, np.array([0.0, np.inf, 0.0, 0.0]))


def limit_for(A, B, t):
    m = max(min(abs(A), abs(B)), 1e-300) if A * B > 0 else 1e-300
    tol = 2 * np.finfo(float).eps * m + t
    L = max(0.0, math.log2(max(B - A, 1e-300)) - math.log2(tol)) if tol > 0 else 1100
    return int((L + 6) ** 2)


def judge_root(ctx, a, r, A, B, t, what):
    ctx.check(A <= r <= B, "outside", f"{what}: root {r!r} outside [{A!r}, {B!r}]")
    tol = 2.0 * (2 * np.finfo(float).eps * max(abs(r), 1e-300) + t) * 1.01
    d = [abs(r - x) for x in a[1]]
    for x, p in zip(a[1], a[2]):
        if p == -1:
            d.append(max(0.0, abs(r - x) - 0.0501 * a[4]))
    ctx.check(min(d) <= tol, "not-a-root", f"{what}: returned {r!r}; sign changes at {a[1]}, powers {a[2]}; "
              f"f there {val(a, r)!r}, tolerance {tol!r}")
    ctx.event("roots_judged")


def interval(rng):
    s = 10 ** rng.uniform(-8, 8)
    k = rng.integers(5)
    if k == 0:
        A, B = 0.0, s
    elif k == 1:
        A, B = -s * rng.random(), s
    elif k == 2:
        A = s * rng.uniform(0.5, 2)
        B = A + s * 10 ** rng.uniform(-6, 2)
    elif k == 3:
        B = -s * rng.uniform(0.5, 2)
        A = B - s * 10 ** rng.uniform(-6, 2)
    else:
        A, B = 5.0, 5.0 + 5995 * rng.random()
    return float(A), float(B)


def tolerance(rng, A, B):
    k = rng.integers(5)
    return [0.0, 1e-4, (B - A) * 1e-6, (B - A) * 0.1, (B - A) * 1e-13][k], ["0", "1e-4", "fine", "coarse", "finest"][k]


def guess(rng, A, B, roots):
    k = str(rng.choice(["inside", "mid", "A", "B", "below", "above", "near A", "near B", "root", "inf", "-inf"]))
    if k == "root" and not len(roots):
        k = "mid"
    w = B - A
    x = {"inside": rng.uniform(A, B), "mid": 0.5 * (A + B), "A": A, "B": B, "below": A - w, "above": B + w,
         "near A": np.nextafter(A, np.inf), "near B": np.nextafter(B, -np.inf),
         "root": float(roots[0]) if len(roots) else 0.0, "inf": np.inf, "-inf": -np.inf}[k]
    return float(x), k


def warm():
    a = [1.0, np.array([0.5]), np.array([1.0]), 1.0, 1.0, np.array([0.0, 1e9, np.inf, -np.inf])]
    brent(fun, 0.0, 1.0, 1e-3, tuple(a)), guess_to_bounds(fun, 0.2, 0.0, 1.0, tuple(a))
    brent_guess(fun, 0.2, 0.0, 1.0, 1e-3, tuple(a))


def case(ctx, group, i, rng):
    if group == "bad":
        return bad(ctx, rng)
    if group == "tiny":
        A = float(rng.choice([1.0, -1.0, 3000.3, 1e-5, 0.1])) * (1 + rng.random())
        if rng.random() < 0.3:  # the smallest numbers there are
            A = float(rng.integers(-8, 9)) * 5e-324
            ctx.event("denormal_judged")
        B = A
        n = int(rng.integers(0, 6))
        for _ in range(n):
            B = np.nextafter(B, np.inf)
        B = float(B)
        t, tc = float(rng.choice([0.0, 1e-4])), "tiny"
        a = args(rng, A, B, int(rng.integers(0, 3)), True)
        a[1] = np.minimum(a[1], B)
        x = float(rng.choice([A, B, np.nextafter(A, np.inf), A - 1, B + 1]))
        gk = "tiny"
        ctx.event("tiny_judged")
    else:
        A, B = interval(rng)
        if not A < B:
            ctx.event("degenerate_interval")
            return
        a = args(rng, A, B, int(rng.integers(0, 6)))
        t, tc = tolerance(rng, A, B)
        x, gk = guess(rng, A, B, a[1])
    if group in ("brent", "both") and len(a[1]) <= 2 and rng.random() < 0.15 and val(a, A) * val(a, B) < 0:
        a[3] = 10 ** rng.uniform(-170, -150)  # products of values underflow
        ctx.event("underflow_judged")
    fA, fB = np.sign(val(a, A)), np.sign(val(a, B))
    kinds = tuple(sorted(set(a[2])))
    what = f"[{A!r}, {B!r}], t={t!r}, sign {a[0]}, roots {a[1]}, powers {a[2]}"
    if group in ("brent", "tiny"):
        r, n, lo, hi = call(ctx, f"brent on {what}", brent, a, limit_for(A, B, t), A, B, t)
        ctx.check(A <= lo and hi <= B, "evaluates-outside", f"brent on {what}: evaluated at {lo!r} .. {hi!r}")
        if fA * fB > 0:
            ctx.check(math.isnan(r), "root-without-sign-change", f"brent on {what}: {r!r} though f is {fA}, {fB} at the ends")
            ctx.event("none_judged")
        else:
            judge_root(ctx, a, r, A, B, t, "brent on " + what)
        ctx.bucket("brent", len(a[1]), kinds[:2], tc)
    if group in ("bounds", "tiny", "both"):
        w = f"guess_to_bounds({x!r}) on {what}"
        (p, q), n, lo, hi = call(ctx, w, guess_to_bounds, a, 200, x, A, B)
        ctx.check(A <= lo and hi <= B, "evaluates-outside", f"{w}: evaluated at {lo!r} .. {hi!r}")
        judge_bounds(ctx, a, p, q, A, B, fA, fB, w)
        if group != "tiny":
            judge_near(ctx, a, x, p, q, A, B, w)
        ctx.bucket("bounds", len(a[1]), gk, math.isnan(p))
        ctx.sample(range=(A, B), guess=x, bounds=(p, q), evaluations=n)
    if group in ("both", "tiny"):
        w = f"brent_guess({x!r}) on {what}"
        r, n, lo, hi = call(ctx, w, brent_guess, a, 200 + limit_for(A, B, t), x, A, B, t)
        ctx.check(A <= lo and hi <= B, "evaluates-outside", f"{w}: evaluated at {lo!r} .. {hi!r}")
        if fA * fB <= 0:
            ctx.check(not math.isnan(r), "root-missed", f"{w}: NaN though f is {fA}, {fB} at the ends")
        if not len(a[1]):
            ctx.check(math.isnan(r), "root-without-sign-change", f"{w}: {r!r} but f has no zero")
            ctx.event("none_judged")
        if not math.isnan(r):
            judge_root(ctx, a, r, A, B, t, w)
        ctx.bucket("both", len(a[1]), gk, tc)


def judge_bounds(ctx, a, p, q, A, B, fA, fB, w):
    ctx.check(math.isnan(p) == math.isnan(q), "half-nan", f"{w}: {p!r}, {q!r}")
    if fA * fB <= 0:
        ctx.check(not math.isnan(p), "sign-change-missed", f"{w}: NaN though f is {fA}, {fB} at the ends")
    if math.isnan(p):
        ctx.event("none_judged")
        return
    ctx.check(A <= p <= q <= B, "leaves-range", f"{w}: ({p!r}, {q!r}) outside [{A!r}, {B!r}]")
    ctx.check(np.sign(val(a, p)) * np.sign(val(a, q)) <= 0, "no-sign-change", f"{w}: f is {val(a, p)}, {val(a, q)} at ({p!r}, {q!r})")
    ctx.event("brackets_judged")


def judge_near(ctx, a, x, p, q, A, B, w):
    """The sub-range reaches outwards from the guess little further than the nearest sign change, which it contains.

    Distances are fractions of the distance from the guess to that end of the range."""
    if math.isnan(p) or not len(a[1]) or (a[2] == -1).any() or val(a, A) == 0 or val(a, B) == 0 or not B - A > 1e-9 * max(abs(A), abs(B)):
        return
    x = min(max(x, A), B)
    if min(abs(x - A) or 1.0, abs(B - x) or 1.0) < 1e-9 * (B - A) or np.isin(a[1], [A, x, B]).any():
        return
    u = sorted((r - x) / (B - x) if r > x else (x - r) / (x - A) if r < x else 0.0 for r in a[1])
    near = max(u[0], 0.02)
    if len(u) > 1 and u[1] < 4 * near:
        return
    far = 2.5 * near
    ctx.check(q - x <= far * (B - x) + 1e-9 * (B - A) and x - p <= far * (x - A) + 1e-9 * (B - A), "not-near-the-guess",
              f"{w}: ({p!r}, {q!r}) reaches further than the sign change nearest to the guess needs")
    ctx.event("near_judged")


def bad(ctx, rng):
    A, B = interval(rng)
    a = args(rng, min(A, B), max(A, B), int(rng.integers(1, 4)))
    t = 1e-4
    k = str(rng.choice(["reversed", "nan A", "nan B", "nan guess", "point", "point at zero"]))
    x = 0.5 * (A + B)
    if k == "reversed":
        if not A < B:
            return
        A, B = B, A
        x = float(rng.choice([A, B, 0.5 * (A + B)]))
    elif k == "nan A":
        A = np.nan
    elif k == "nan B":
        B = np.nan
    elif k == "nan guess":
        x = np.nan
    elif k == "point":
        B = A
        a[1] = a[1] + (1 + abs(A))
    else:
        A = B = x = float(a[1][0])
    what = f"{k}: [{A!r}, {B!r}]"
    (p, q), *_ = call(ctx, f"guess_to_bounds({x!r}) {what}", guess_to_bounds, a, 200, x, A, B)
    r, *_ = call(ctx, f"brent_guess({x!r}) {what}", brent_guess, a, 10**6, x, A, B, t)
    if k.startswith("nan"):
        ctx.check(math.isnan(p) and math.isnan(q), "bad-range", f"guess_to_bounds({x!r}) {what} returned {p!r}, {q!r}")
        ctx.check(math.isnan(r), "bad-range", f"brent_guess({x!r}) {what} returned {r!r}")
    if k != "nan guess":
        r, *_ = call(ctx, f"brent {what}", brent, a, 10**6, A, B, t)
        ok = math.isnan(r) if k != "point at zero" else (r == A or val(a, A) != 0)
        if k == "point":
            ok = math.isnan(r) or val(a, A) == 0
        ctx.check(ok, "bad-range", f"brent {what} returned {r!r}")
    ctx.event("none_judged")
    ctx.bucket("bad", k)
