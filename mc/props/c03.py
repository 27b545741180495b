"""C03: classical elements <-> Cartesian state over the full lattice of quadrants and conics."""
import itertools

import numpy as np

from mc import domains as dom
from mc import ref

BOUNDS = (
    "full product of eccentricities {0..30}, semiparameters, inclinations including 0, 90 and 180 deg, nodes, arguments of periapsis and "
    "anomalies in every quadrant including the quadrant boundaries, gravitational parameters over 24 orders of magnitude, float32/float64; "
    "each element in turn in steps of 1 degree or 0.005 (quick; the eccentricity also in geometric steps towards 0, towards 1 from both sides and up to 300), with every pattern of half turns of the others; angles outside the principal range (coe2rv); each tuple is taken through coe2rv (vs reference), rv2coe (vs the tuple), coe2rv(rv2coe), rv2coe(coe2rv), scalar and batched"
)
ASSUMPTIONS = [
    "angles are compared on the circle, with a bound proportional to eps/sin(i), eps/e where the element degenerates",
    "node undefined for equatorial orbits, periapsis undefined for circular ones: only the defined elements are compared there",
    "reference: componentwise textbook formulas in 80-bit arithmetic",
]
EQ = [0.0, 0.02, 0.3, 0.75, 0.98, 1.0, 1.02, 1.7, 12.0]
ET = [0.0, 1e-3, 0.02, 0.1, 0.3, 0.5, 0.75, 0.9, 0.98, 0.999, 1.0, 1.001, 1.02, 1.2, 1.7, 3.0, 12.0, 30.0]
PMU = [(1.0, 1.0), (7.3e3, 398600.4418), (1.1e7, 3.986004418e14), (1.4, 2.9591220828e-4), (2.1e11, 1.32712440018e20), (0.004, 17.0)]


def jobs(tier):
    es = EQ if tier == "quick" else ET
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        for g in range(3 if tier == "quick" else 9):
            out.append((f"lattice-{s}-{g}", x, dict(kind="lattice", ecc=es[g :: (3 if tier == "quick" else 9)])))
        out.append((f"fine-{s}", x, dict(kind="fine")))
        out.append((f"degenerate-{s}", x, dict(kind="degenerate")))
        out.append((f"api-{s}", x, dict(kind="api")))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def grid(tier):
    if tier == "quick":
        inc = [0.0, 3, 35, 90, 118, 176, 180]
        node = [0, 20, 90, 135, 180, 215, 270, 340]
        argp = [0, 50, 90, 160, 180, 200, 270, 355]
    else:
        inc = [0.0, 0.5, 3, 20, 35, 63.4349488, 89.9, 90, 90.1, 118, 150, 176, 179.5, 180]
        node = [0, 20, 45, 89, 90, 91, 135, 179, 180, 181, 215, 269, 270, 271, 300, 340, 359]
        argp = [0, 1, 50, 89, 90, 91, 130, 160, 179, 180, 181, 200, 269, 270, 271, 310, 355, 359.5]
    return inc, node, argp


def anom(e, tier):
    step = 45 if tier == "quick" else 15
    a = [k for k in range(0, 360, step)] + [2, 178, 182, 358]
    if e >= 0.98:
        lim = 0.96 * float(np.degrees(np.arccos(-1 / max(e, 1.0)))) if e >= 1 else 178.5
        lim = min(lim, 170.0)
        a = [x for x in a if min(x, 360 - x) < lim] + [lim, 360 - lim]
    return sorted(set(a))


def run_lattice(ctx, p):
    import jax
    import astrodynx as adx

    c2r = jax.jit(adx.coe2rv)
    r2c = jax.jit(adx.rv2coe)
    inc, node, argp = grid(ctx.tier)
    D = dom.D2R
    for e in p["ecc"]:
        an = anom(e, ctx.tier)
        I, O, W, F = [a.ravel() for a in np.meshgrid(inc, node, argp, an, indexing="ij")]
        I, O, W, F = [a.astype(np.longdouble) * D for a in (I, O, W, F)]
        # the tuple is what the working precision represents
        I, O, W, F = [a.astype(ctx.dtype) for a in (I, O, W, F)]
        I = np.minimum(I, ctx.dtype(ref.PI) if ctx.dtype(ref.PI) <= ref.PI else np.nextafter(ctx.dtype(ref.PI), ctx.dtype(0)))
        n = len(I)
        for pp, mu in PMU:
            el = tuples(ctx, adx, c2r, r2c, pp, mu, np.full(n, e, ctx.dtype), I, O, W, F)
        ctx.sample(e=e, tuples=n, first=[float(x[n // 2]) for x in (I, O, W, F)], elements=[float(x[n // 2]) for x in el])


def tuples(ctx, adx, c2r, r2c, pp, mu, E, I, O, W, F):
    """One set of element tuples through both conversions and back."""
    n = len(I)
    P, M = [np.full(n, x, ctx.dtype) for x in (pp, mu)]
    r, v = [np.asarray(x) for x in c2r(P, E, I, O, W, F, M)]
    R, V = ref.coe2rv(P, E, I, O, W, F, M)
    q = 1 + E.astype(np.longdouble) * np.cos(F.astype(np.longdouble))
    rm, vs = ref.norm(R), np.sqrt(M.astype(np.longdouble) / P)
    case = dict(p=pp, e=E, incl=I, raan=O, argp=W, f=F, mu=mu)
    tr = 40 * ctx.eps * rm * (1 + E / q)
    tv = 40 * ctx.eps * vs * (1 + E)
    ctx.close("coe2rv position", r, R, tr[:, None], **case)
    ctx.close("coe2rv velocity", v, V, tv[:, None], **case)
    el = [np.asarray(x) for x in r2c(r, v, ctx.dtype(mu))]
    _elements(ctx, adx, el, P, E, I, O, W, F, R, V, M, q, case)
    # second leg: state -> elements -> state
    e_ok = (E > 0.01) & (np.sin(I.astype(np.longdouble)) > 0.01)
    r2, v2 = [np.asarray(x) for x in c2r(*el, M)]
    g = _gain(E, I, q)
    k = np.where(e_ok)[0]
    cs = {a: (b[k] if isinstance(b, np.ndarray) else b) for a, b in case.items()}
    ctx.close("state -> elements -> state (position)", r2[k], r[k].astype(np.longdouble), (400 * ctx.eps * g * rm * (1 + E / q))[k][:, None], **cs)
    ctx.close("state -> elements -> state (velocity)", v2[k], v[k].astype(np.longdouble), (400 * ctx.eps * g * vs * (1 + E))[k][:, None], **cs)
    ctx.count(states=n, traces=n)
    return el


def run_fine(ctx, p):
    """Each element in turn in fine steps, the others at generic values."""
    import jax
    import astrodynx as adx

    c2r = jax.jit(adx.coe2rv)
    r2c = jax.jit(adx.rv2coe)
    m = 1 if ctx.tier == "quick" else 5
    pi = np.pi
    full = (np.arange(360 * m) + 0.5) * pi / (180 * m)
    half = (np.arange(180 * m) + 0.5) * pi / (180 * m)
    T = []

    def add(*cols):
        T.append(np.stack([np.asarray(x, float).ravel() for x in np.broadcast_arrays(*cols)], -1))

    for e, f in ((0.34, 1.9), (0.34, 5.1), (1.6, 0.9), (1.6, 5.8)):
        for w in (0.8, 2.5, 3.7, 5.9):
            add(e, half, 2.2, w, f)
            add(e, 0.9, full, w, f)
        for i in (0.9, 2.4):
            add(e, i, 4.4, full, f)
            lim = pi if e < 1 else 0.93 * np.arccos(-1 / e)
            add(e, i, 4.4, 2.5 + f / 3, np.mod((full - pi) / pi * lim, 2 * pi))
    el = 0.02 + 0.96 * (np.arange(200 * m) + 0.5) / (200 * m)
    hy = 1.02 + (np.arange(150 * m) + 0.5) / (15 * m)
    for i in (0.9, 2.4):
        for f in (1.4, 4.9):
            add(np.concatenate([el, hy]), i, 4.4, 3.7, f)
            # towards the circle, towards the parabola from both sides, and far beyond it
            near = np.geomspace(1e-6, 0.02, 60 * m)
            add(np.concatenate([near, 1 - near, [1.0], 1 + near, np.geomspace(12, 300, 60 * m)]), i, 4.4, 3.7, f)
    E, I, O, W, F = [x.astype(ctx.dtype) for x in np.concatenate(T).T]
    for pp, mu in PMU[:2] if ctx.tier == "quick" else PMU:
        tuples(ctx, adx, c2r, r2c, pp, mu, E, I, O, W, F)
    # angles outside the principal range are angles too
    for k in range(4):
        for s in (-1, 1):
            c = [I.copy(), O.copy(), W.copy(), F.copy()]
            c[k] = (s * c[k].astype(np.longdouble) + (s - 1) // 2 * 0 + 2 * ref.PI * (3 if s > 0 else 0)).astype(ctx.dtype)
            if k == 0:
                c[k] = (s * I).astype(ctx.dtype) if s < 0 else (2 * ref.PI - I).astype(ctx.dtype)
            P, M = np.full(len(E), 1.4, ctx.dtype), np.full(len(E), 0.7, ctx.dtype)
            r, v = [np.asarray(x) for x in c2r(P, E, *c, M)]
            R, V = ref.coe2rv(P, E, *c, M)
            q = 1 + E.astype(np.longdouble) * np.cos(c[3].astype(np.longdouble))
            ok = q > 0.02
            case = dict(e=E[ok], incl=c[0][ok], raan=c[1][ok], argp=c[2][ok], f=c[3][ok])
            ctx.close("coe2rv position, angle outside the principal range", r[ok], R[ok], (40 * ctx.eps * ref.norm(R) * (1 + E / q))[ok][:, None], **case)
            ctx.close("coe2rv velocity, angle outside the principal range", v[ok], V[ok], (40 * ctx.eps * np.sqrt(M / P) * (1 + E))[ok][:, None], **case)
            ctx.count(states=ok.sum(), traces=ok.sum())


def _gain(E, I, q):
    """Conditioning of the angles: node ~ 1/sin i, periapsis ~ 1/e, both amplified by the state's own rounding."""
    s = np.maximum(np.sin(I.astype(np.longdouble)), 1e-6)
    w = np.maximum(E.astype(np.longdouble), 1e-6)
    return 1 + 1 / s + (1 + E + 1 / q) / w


def _elements(ctx, adx, el, P, E, I, O, W, F, R, V, M, q, case):
    p, e, i, O1, W1, F1 = el
    eps = ctx.eps
    LD = np.longdouble
    rm, vm = ref.norm(R), ref.norm(V)
    hc = rm * vm / ref.norm(ref.cross(R, V))  # cancellation in r x v
    tp = 60 * eps * P.astype(LD) * hc
    scale_e = rm * vm**2 / M.astype(LD) + 1
    te = 40 * eps * scale_e * hc
    ctx.close("rv2coe semiparameter", p, P.astype(LD), tp, **case)
    ctx.close("rv2coe eccentricity", e, E.astype(LD), te, **case)
    s, c = np.sin(I.astype(LD)), np.cos(I.astype(LD))
    ti = 60 * eps * hc / np.maximum(s, np.sqrt(60 * eps * hc))
    ctx.close("rv2coe inclination", i, I.astype(LD), ti, **case)
    two = ctx.dtype(2 * np.pi)
    for nm, a in (("raan", O1), ("argp", W1), ("anomaly", F1)):
        ok = (a >= 0) & (a <= two)
        ctx.close(f"rv2coe {nm} within [0, 2 pi]", ok.astype(float), np.ones(len(a)), 0, **case)
    ctx.close("rv2coe inclination within [0, pi]", ((i >= 0) & (i <= ctx.dtype(np.pi))).astype(float), np.ones(len(i)), 0, **case)
    sel = s > 0.01
    tO = 60 * eps * hc / np.maximum(s, 1e-3)
    _ang(ctx, "rv2coe raan", O1, O, tO, sel, case)
    ecc = E[0] > 0.01
    if ecc:
        tf = te / E.astype(LD) + 40 * eps
        # atan2(|e x r|, e.r) is well conditioned; the sign decision needs r.v resolved from zero
        _ang(ctx, "rv2coe true anomaly", F1, F, 4 * tf + 40 * eps, np.ones(len(s), bool), case)
        sel2 = sel
        tw = 4 * tf + 2 * tO + 40 * eps
        _ang(ctx, "rv2coe argument of periapsis", W1, W, tw / np.minimum(1, np.maximum(s, 0.01)), sel2, case)


def _ang(ctx, what, got, want, tol, sel, case):
    k = np.where(sel)[0]
    if not len(k):
        return
    cs = {a: (b[k] if isinstance(b, np.ndarray) else b) for a, b in case.items()}
    d = ref.angles_close(got[k], want[k].astype(np.longdouble))
    ctx.close(what, d, np.zeros(len(k)), tol[k], got_angle=got[k], want_angle=want[k], **cs)


def run_degenerate(ctx, p):
    """Circular and/or equatorial orbits: the elements that remain defined."""
    import jax
    import astrodynx as adx

    r2c = jax.jit(adx.rv2coe)
    LD = np.longdouble
    for e, inc in itertools.product([0.0, 1e-9, 0.2, 1.4], [0.0, 180.0, 1e-9, 55.0, 90.0, 125.0]):
        if e > 0.01 and 0.1 < inc < 179.9:
            continue
        th = np.arange(0, 360, 15 if ctx.tier == "quick" else 5)
        lim = 100 if e > 1 else 400
        if e > 1:
            th = th[(th < lim) | (th > 360 - lim)]
        O, F = [a.ravel().astype(LD) * dom.D2R for a in np.meshgrid(np.arange(0, 360, 40), th, indexing="ij")]
        n = len(O)
        for pp, mu in PMU:
            z = np.zeros(n, LD)
            R, V = ref.coe2rv(z + pp, z + e, z + inc * dom.D2R, O, z + 0.3, F, z + mu)
            r, v = R.astype(ctx.dtype), V.astype(ctx.dtype)
            el = [np.asarray(x) for x in r2c(r, v, ctx.dtype(mu))]
            case = dict(p=pp, e=e, incl=inc, raan=O, f=F, mu=mu)
            ctx.close("p of a degenerate orbit", el[0], z + LD(pp), 60 * ctx.eps * pp * 4, **case)
            ctx.close("e of a degenerate orbit", el[1], z + LD(e), 60 * ctx.eps * (2 + e) * 4, **case)
            s = np.sin(inc * dom.D2R)
            ti = 60 * ctx.eps / max(s, np.sqrt(60 * ctx.eps))
            ctx.close("i of a degenerate orbit", el[2], z + LD(inc) * dom.D2R, ti, **case)
            if s > 0.01:
                _ang(ctx, "node of a circular orbit", el[3], O, z + 200 * ctx.eps / s, np.ones(n, bool), case)
            if e > 0.01:
                _ang(ctx, "anomaly of an equatorial orbit", el[5], F, z + 400 * ctx.eps * (1 + e) / e, np.ones(n, bool), case)
            fin = np.all([np.isfinite(x) for x in el], axis=0)
            ctx.close("finite elements", fin.astype(float), np.ones(n), 0, **case)
            for a in el[3:]:
                ctx.close("degenerate angle within [0, 2 pi]", ((a >= 0) & (a <= ctx.dtype(2 * np.pi))).astype(float), np.ones(n), 0, **case)
            ctx.count(states=n, traces=n)


def run_api(ctx, p):
    """The single-element functions, default mu, eager scalar calls."""
    import jax.numpy as jnp
    import astrodynx as adx

    LD = np.longdouble
    D = dom.D2R
    inc, node, argp = grid(ctx.tier)
    for e in ([0.3, 1.7] if ctx.tier == "quick" else [0.02, 0.3, 0.98, 1.7]):
        an = [x for x in (0, 45, 95, 180, 225, 315) if e < 1 or min(x, 360 - x) < 110]
        I, O, W, F = [a.ravel().astype(LD) * D for a in np.meshgrid(inc, node, argp, an, indexing="ij")]
        R, V = ref.coe2rv(1.3 + 0 * I, e + 0 * I, I, O, W, F, 1 + 0 * I)
        h = ref.cross(R, V)
        ev = ref.cross(V, h) - R / ref.norm(R)[:, None]
        N = np.stack([-h[:, 1], h[:, 0], 0 * h[:, 0]], -1)
        c = lambda x: x.astype(ctx.dtype)
        case = dict(e=e, incl=I, raan=O, argp=W, f=F)
        i = np.asarray(adx.inclination(c(h)))
        s = np.sin(I)
        ctx.close("inclination()", i[:, 0], I, 40 * ctx.eps / np.maximum(s, np.sqrt(40 * ctx.eps)), **case)
        sel = s > 0.01
        _ang(ctx, "right_ascension()", np.asarray(adx.right_ascension(c(N)))[:, 0], O, 40 * ctx.eps / np.maximum(s, 1e-3), sel, case)
        _ang(ctx, "argument_of_periapsis()", np.asarray(adx.argument_of_periapsis(c(N), c(ev)))[:, 0], W, 80 * ctx.eps * (1 + 1 / np.maximum(s, 1e-3)) + 0 * s, sel, case)
        f = np.asarray(adx.true_anomaly(c(R), c(ev)))[:, 0]
        fold = np.minimum(F, 2 * ref.PI - F)
        ctx.close("true_anomaly() is the angle between periapsis and position", np.minimum(ref.angles_close(f, F), ref.angles_close(f, -F)), 0 * fold, 80 * ctx.eps * (1 + 1 / e), **case)
        # eager scalar calls with default mu, every quadrant once
        for k in range(0, len(I), max(1, len(I) // (40 if ctx.tier == "quick" else 200))):
            r, v = adx.coe2rv(1.3, e, float(I[k]), float(O[k]), float(W[k]), float(F[k]))
            ctx.close("scalar coe2rv position", r, R[k], 80 * ctx.eps * (1 + e) * ref.norm(R[k]), **{a: (b[k] if isinstance(b, np.ndarray) else b) for a, b in case.items()})
            ctx.close("scalar coe2rv velocity", v, V[k], 80 * ctx.eps * (1 + e) * 2, **{a: (b[k] if isinstance(b, np.ndarray) else b) for a, b in case.items()})
            el = adx.rv2coe(jnp.asarray(c(R[k])), jnp.asarray(c(V[k])))
            ctx.check(all(np.shape(x) == () for x in el), "scalar state gives scalar elements", shapes=[np.shape(x) for x in el])
            ctx.close("scalar rv2coe p", el[0], LD(1.3), 200 * ctx.eps)
            ctx.close("scalar rv2coe e", el[1], LD(e), 200 * ctx.eps * (1 + e))
            ctx.count(states=1, traces=1)
        ctx.count(states=len(I), traces=len(I))
