"""C12: transfer-path predicates against the arc actually flown."""
import itertools

import numpy as np

from mc import domains as dom
from mc import ref

BOUNDS = (
    "full product of eccentricities {0.01..30} x every ordered pair (departure anomaly, arrival anomaly) of a 26-point circle lattice (all reachable pairs for open orbits), "
    "50 / 200 further eccentricities with fine steps of the arc; half-turn transfers and apoapsis endpoints included x orientations (prograde, retrograde, polar, equatorial, general) x unit systems; thresholds on both sides of the "
    "periapsis; times of flight on both sides of every whole number of periods up to 12; float32 and float64"
)
ASSUMPTIONS = [
    "ties are not enumerated: an endpoint at periapsis, a half-turn arc for the short-way test, a threshold or a time of flight within rounding of the boundary",
    "float32: only units in which the triple products of the inputs are representable",
]
LD = np.longdouble
EQ = [0.003, 0.01, 0.1, 0.3, 0.65, 0.8, 0.97, 0.999, 1.0, 1.05, 1.3, 2.0, 6.0, 30.0]
ET = [0.003, 0.01, 0.05, 0.1, 0.3, 0.5, 0.65, 0.8, 0.9, 0.97, 0.99, 0.999, 1.0, 1.001, 1.05, 1.3, 2.0, 6.0, 15.0, 30.0]


def jobs(tier):
    es = EQ if tier == "quick" else ET
    n = 4 if tier == "quick" else 8
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        out += [(f"arcs-{s}-{g}", x, dict(kind="arcs", ecc=es[g::n])) for g in range(n)]
        fine = list(np.linspace(0.013, 0.987, 30 if tier == "quick" else 120)) + list(1 + np.linspace(0.01, 5, 20 if tier == "quick" else 80))
        out += [(f"fine-{s}", x, dict(kind="arcs", ecc=fine, fine=True))]
        out += [(f"periapsis-{s}", x, dict(kind="periapsis")), (f"revs-{s}", x, dict(kind="revs")), (f"eager-{s}", x, dict(kind="eager"))]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def circle(tier):
    a = [3, 20, 45, 70, 90, 110, 135, 160, 177, 180] if tier == "quick" else [0.5, 3, 10, 20, 33, 45, 60, 70, 80, 90, 100, 110, 125, 135, 148, 160, 170, 177, 179.5, 180]
    return sorted(set(a) | {-x for x in a if x != 180})


def arcs(e, tier):
    """(f1, sweep) in degrees; sweep in (0, 360) is the arc flown."""
    fs = circle(tier)
    out = []
    if e < 1:
        for a, b in itertools.product(fs, fs):
            s = (b - a) % 360
            if s:
                out.append((a, s))
        out += [(a, 180) for a in fs if a != 180]
    else:
        lim = 0.93 * float(np.degrees(np.arccos(-1 / max(e, 1.0))))
        lim = min(lim, 160)
        fs = [f for f in fs if abs(f) < lim] + [lim, -lim]
        out += [(a, b - a) for a, b in itertools.product(fs, fs) if b > a]
    return np.array(sorted(set(out)), LD)


def fine_arcs(e):
    """Few departure points, the arc in fine steps (and around half a turn)."""
    lim = 179.9 if e < 1 else min(160, 0.93 * float(np.degrees(np.arccos(-1 / max(e, 1.0)))))
    out = []
    for a in (-0.83, -0.31, 0.12, 0.57, 0.94):
        a *= lim
        if e < 1:
            s = np.concatenate([np.arange(0.7, 359.5, 2.9), [179.5, 179.9, 180.1, 180.5]])
        else:
            s = np.linspace(0.004, 0.997, 60) * (lim - a)
        out += [(a, x) for x in s]
    return np.array(out, LD)


def units(ctx):
    return dom.UNITS if ctx.x64 else [u for u in dom.UNITS if u[0] != "helio m"]


def run_arcs(ctx, p):
    import jax
    import astrodynx as adx

    short = jax.jit(jax.vmap(adx.twobody.is_short_way))
    peri = jax.jit(jax.vmap(adx.twobody.pass_perigee))
    peri1 = jax.jit(jax.vmap(lambda a, b, c: adx.twobody.pass_perigee(a, b, c)))
    D = dom.D2R
    for e in p["ecc"]:
        A = arcs(e, ctx.tier) if not p.get("fine") else fine_arcs(e)
        f1, sw = A[:, 0] * D, A[:, 1] * D
        n = len(A)
        z = np.zeros(n, LD)
        E = np.full(n, e, LD)
        r1, v1 = ref.coe2rv(1 + E, E, z, z, z, f1, z + 1)
        r2, _ = ref.coe2rv(1 + E, E, z, z, z, f1 + sw, z + 1)
        want_short = A[:, 1] < 180
        # periapsis inside the open arc: a multiple of 360 deg strictly between f1 and f1 + sweep
        end = A[:, 0] + A[:, 1]
        want_peri = (A[:, 0] < 0) & (end > 0) | (end > 360)
        half = np.abs(A[:, 1] - 180) < (0.04 if ctx.x64 else 0.3)
        far = np.minimum(np.abs(A[:, 0]), 360) * 0 + 1
        for k in (A[:, 0], end):
            far = far * (np.abs((k + 180) % 360 - 180) * np.pi / 180 > 300 * ctx.eps / min(e, 1)).astype(int)
        far = far.astype(bool)
        for oi, R in enumerate(dom.rotations(4 if p.get("fine") else None if ctx.tier != "quick" else 7)):
            for lab, L, mu in units(ctx)[: 1 if p.get("fine") else None]:
                V = np.sqrt(LD(mu) / LD(L))
                a, b, c = [(x @ R.T * s).astype(ctx.dtype) for x, s in ((r1, LD(L)), (v1, V), (r2, LD(L)))]
                s = np.asarray(short(a, b, c))
                m = np.full(n, mu, ctx.dtype)
                q = np.asarray(peri(a, b, c, m))
                ctx.check(s.dtype == bool and q.dtype == bool and s.shape == q.shape == (n,), "predicates return one boolean", dtype=str(s.dtype))
                one(ctx, "short way iff the arc is below half a turn", s[~half], want_short[~half], A[~half], e, oi, lab)
                one(ctx, "passes perigee iff the arc contains the periapsis", q[far], want_peri[far], A[far], e, oi, lab)
                if mu == 1:
                    one(ctx, "perigee test with the default gravitational parameter", np.asarray(peri1(a, b, c))[far], want_peri[far], A[far], e, oi, lab)
                # lengths of the arrival vector and speed scale do not matter for the short way
                ctx.count(states=n, traces=n)
        ctx.sample(e=e, arcs=n, f1=float(A[0, 0]), sweep=float(A[0, 1]))


def one(ctx, what, got, want, A, e, oi, lab):
    ctx.count(transitions=len(got))
    for i in np.flatnonzero(got != want):
        ctx.fail(what, e=e, f1_deg=float(A[i, 0]), sweep_deg=float(A[i, 1]), orientation=oi, units=lab, got_value=bool(got[i]), expected=bool(want[i]))


def run_periapsis(ctx, p):
    import jax
    import astrodynx as adx

    low = jax.jit(jax.vmap(adx.twobody.rp_islower_rmin))
    low1 = jax.jit(jax.vmap(lambda m, r, v: adx.twobody.rp_islower_rmin(m, r, v)))
    fr = [0.0, 0.2, 0.5, 0.9, 0.99, 1 - 1e-3, 1 - 1e-4, 1 + 1e-4, 1 + 1e-3, 1.01, 1.1, 2.0, 50.0]
    if ctx.x64:
        fr += [1 - 1e-7, 1 + 1e-7, 1 - 1e-10, 1 + 1e-10]
    fr = np.array(fr, LD)
    for e in [0.0, 1e-4] + (EQ if ctx.tier == "quick" else ET):
        fs = np.array([-175, -120, -90, -30, 0, 10, 60, 90, 140, 180], LD)
        if e >= 1:
            lim = 0.93 * np.degrees(np.arccos(-1 / max(e, 1.0)))
            fs = fs[np.abs(fs) < lim]
        f = fs * dom.D2R
        z = np.zeros(len(f), LD)
        E = z + LD(e)
        r, v = ref.coe2rv(1 + E, E, z, z, z, f, z + 1)
        nr, nv = ref.norm(r), ref.norm(v)
        slack = 40 * ctx.eps * (1 + nr * nv / np.sqrt(1 + E) + (nv**2 * nr + 1) / (1 + E))
        for oi, R in enumerate(dom.rotations(None if ctx.tier != "quick" else 6)):
            for lab, L, mu in units(ctx):
                if not ctx.x64 and lab == "earth m" and e > 20:
                    continue
                V = np.sqrt(LD(mu) / LD(L))
                a, b = (r @ R.T * LD(L)).astype(ctx.dtype), (v @ R.T * V).astype(ctx.dtype)
                for x in fr:
                    k = np.abs(x - 1) > slack
                    th = np.full(len(f), x * LD(L), ctx.dtype)
                    got = np.asarray(low(th, a, b, np.full(len(f), mu, ctx.dtype)))
                    want = np.full(len(f), bool(x > 1))
                    got1 = np.asarray(low1(th, a, b)) if mu == 1 else got
                    ctx.count(transitions=int(k.sum()), states=len(f), traces=len(f))
                    for i in np.flatnonzero(((got != want) | (got1 != want)) & k):
                        ctx.fail("periapsis below the threshold", e=e, f_deg=float(fs[i]), threshold_over_rp=float(x), orientation=oi, units=lab, got_value=bool(got[i]))


def run_revs(ctx, p):
    import jax
    import astrodynx as adx

    g = jax.jit(jax.vmap(adx.twobody.nmax_by_periapsis))
    ks = range(0, 13) if ctx.tier == "quick" else range(0, 61)
    d = [1e-3, 0.25, 0.5, 0.75, 0.999] + ([1e-8, 1 - 1e-8] if ctx.x64 else [])
    K = np.array([k + x for k in ks for x in d], LD)
    N = np.floor(K)
    rat = [0.2, 0.5, 0.9, 1.0, 1.1, 3.0, 20.0]
    for (lab, L, mu), q, rp in itertools.product(dom.UNITS, rat, (0.05, 0.3, 0.8, 1.0)):
        r1, r2 = LD(L) * 1.3, LD(L) * 1.3 * LD(q)
        rpm = rp * min(r1, r2)
        c = lambda x: ctx.dtype(x)
        a = (max(c(r1), c(r2)).astype(LD) + LD(c(rpm))) / 2
        P = 2 * ref.PI * np.sqrt(a**3 / LD(c(mu)))
        tof = (K * P).astype(ctx.dtype)
        n = len(K)
        o = np.ones(n, ctx.dtype)
        with np.errstate(all="ignore"):
            if not np.isfinite(c(a**3)) or c(c(mu) / c(a**3)) < np.finfo(ctx.dtype).tiny:
                continue
        for x, y in ((r1, r2), (r2, r1)):
            got = np.asarray(g(o * c(rpm), o * c(x), o * c(y), tof, o * c(mu)))
            # away from ties: K within rounding of an integer is excluded
            tie = np.abs(K - np.round(K)) < 60 * ctx.eps * (1 + K)
            ctx.count(states=n, transitions=n, traces=n)
            for i in np.flatnonzero((got != N) & ~tie):
                ctx.fail("largest number of whole periods of the smallest orbit", units=lab, r1=float(x), r2=float(y), rp_min=float(rpm), tof=float(tof[i]), periods=float(K[i]), got_value=float(got[i]))
    f = adx.twobody.nmax_by_periapsis
    # defaults, one argument at a time (rp_min=.97, r1=r2=1, tof=pi, mu=1)
    base = dict(rp_min=0.97, r1=1.0, r2=1.0, tof=np.pi, mu=1)
    alt = dict(rp_min=0.05, r1=0.2, r2=3.0, tof=40.0, mu=30.0)
    for keys in itertools.chain.from_iterable(itertools.combinations(alt, k) for k in range(6)):
        kw = {k: alt[k] for k in keys}
        v = {**base, **kw}
        a = (max(v["r1"], v["r2"]) + v["rp_min"]) / 2
        w = v["tof"] / (2 * np.pi * np.sqrt(a**3 / v["mu"]))
        if abs(w - round(w)) < 1e-4:
            continue
        ctx.check(float(f(**kw)) == np.floor(w), "revolution bound with default arguments", given=str(kw), got_value=float(f(**kw)), exact=float(w))
        ctx.count(states=1, traces=1)


def run_eager(ctx, p):
    """Plain (not compiled) calls on lists, numpy and jax arrays."""
    import jax.numpy as jnp
    import astrodynx as adx

    tb = adx.twobody
    D = dom.D2R
    mk = [lambda x: [float(t) for t in x], lambda x: np.asarray(x, ctx.dtype), lambda x: jnp.asarray(np.asarray(x, ctx.dtype))]
    for e, mu in ((0.4, 1.0), (0.4, 3.5), (1.5, 0.2)):
        pairs = [(-60, 200), (-60, 50), (40, 30), (40, 290), (-150, 340), (100, 170), (-20, 180)] if e < 1 else [(-60, 50), (-60, 100), (-5, 90), (10, 60), (-110, 220)]
        R = dom.rotations()[4]
        for (f, s), m in itertools.product(pairs, mk):
            r1, v1 = ref.coe2rv(LD(1 + e), LD(e), LD(0), LD(0), LD(0), f * D, LD(mu))
            r2, _ = ref.coe2rv(LD(1 + e), LD(e), LD(0), LD(0), LD(0), (f + s) * D, LD(mu))
            a, b, c = [m(R @ x) for x in (r1, v1, r2)]
            jl = (lambda x: jnp.asarray(x)) if isinstance(a, list) else (lambda x: x)
            a, b, c = map(jl, (a, b, c))
            if s != 180:
                ctx.check(bool(tb.is_short_way(a, b, c)) == (s < 180), "plain short-way call", e=e, f=f, sweep=s)
            ctx.check(bool(tb.pass_perigee(a, b, c, mu)) == (f < 0 < f + s or f + s > 360), "plain perigee call", e=e, f=f, sweep=s, mu=mu)
            for th in (0.9, 1.1):
                ctx.check(bool(tb.rp_islower_rmin(th, a, b, mu)) == (th > 1), "plain periapsis call", e=e, f=f, mu=mu, threshold=th)
            ctx.count(states=1, traces=1)
