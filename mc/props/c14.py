"""C14: walks over the graph of orbit conversions, every value compared with the exact orbit."""
import itertools

import numpy as np

from mc import domains as dom
from mc import ref

BOUNDS = (
    "search over all chains of conversions up to depth 4 (quick) / 5 (thorough) from 5 starting sets of known quantities, every applicable conversion at every step, each new value "
    "replacing the old one and compared with the exact orbit and its a-priori rounding bound; lattice of 31 eccentricities {1e-6..100} x epoch anomalies x orientations x unit systems; "
    "every conversion along fine families (steps of 0.002 in e, 0.004 in the anomaly, 1500 sizes and gravitational parameters over 11 and 12 decades; thorough an eighth of the step); orbit integrals from state vectors, orbit equation at apsides and elsewhere, default gravitational parameter; float32 and float64"
)
ASSUMPTIONS = [
    "the rounding bound of a chain is propagated edge by edge with the exact sensitivities (first order), times 4; a chain is followed per orbit until the bound reaches a tenth of the value",
    "float32: only units in which 40 a^3 is representable",
]
LD = np.longdouble
ET = [1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999, 0.99999, 1.00001, 1.001, 1.01, 1.05, 1.1, 1.25, 1.5, 2.0, 3.0, 5.0, 10.0, 30.0, 100.0]


def jobs(tier):
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        out += [(f"chains-{s}-{u[0]}", x, dict(kind="chains", unit=i)) for i, u in enumerate(dom.UNITS)]
        out += [(f"state-{s}", x, dict(kind="state")), (f"defaults-{s}", x, dict(kind="defaults")), (f"fine-{s}", x, dict(kind="fine"))]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def truth(e, f, L, mu):
    return truth2(e, f, LD(L), LD(mu))


def truth2(e, f, L, mu):
    e, f, L, mu = [np.asarray(z, LD) for z in (e, f, L, mu)]
    p = L * (1 + e)
    a = L / (1 - e)
    with np.errstate(all="ignore"):
        P = np.where(e < 1, 2 * ref.PI * np.sqrt(np.abs(a) ** 3 / mu), np.nan)
        n = 2 * ref.PI / P
    r = p / (1 + e * np.cos(f))
    v = np.sqrt(mu * (2 / r - 1 / a))
    return dict(e=e, f=f, a=a, p=p, P=P, n=n, rp=L + 0 * e, ra=p / (1 - e), h=np.sqrt(mu * p), r=r, v=v, mu=mu)


def edges(adx):
    """name -> (inputs, output, call, relative error of the output from the relative errors of the inputs, in units of eps)"""
    q = lambda T: T["e"] ** 2 / np.abs(1 - T["e"] ** 2)
    return {
        "orb_period": (("a",), "P", lambda K, mu: adx.orb_period(K["a"], mu), lambda T, E: 1.5 * E["a"] + 4),
        "a_from_period": (("P",), "a", lambda K, mu: adx.a_from_period(K["P"], mu), lambda T, E: E["P"] * 2 / 3 + 4),
        "mean_motion(P)": (("P",), "n", lambda K, mu: adx.mean_motion(K["P"]), lambda T, E: E["P"] + 2),
        "mean_motion(n)": (("n",), "P", lambda K, mu: adx.mean_motion(K["n"]), lambda T, E: E["n"] + 2),
        "semiparameter": (("h",), "p", lambda K, mu: adx.semiparameter(K["h"], mu), lambda T, E: 2 * E["h"] + 2),
        "semipara_from_ae": (("a", "e"), "p", lambda K, mu: adx.semipara_from_ae(K["a"], K["e"]), lambda T, E: E["a"] + q(T) * (2 * E["e"] + 2) + 2),
        "a_from_pe": (("p", "e"), "a", lambda K, mu: adx.a_from_pe(K["p"], K["e"]), lambda T, E: E["p"] + q(T) * (2 * E["e"] + 2) + 2),
        "radius_periapsis": (("p", "e"), "rp", lambda K, mu: adx.radius_periapsis(K["p"], K["e"]), lambda T, E: E["p"] + T["e"] / (1 + T["e"]) * E["e"] + 2),
        "radius_apoapsis": (("p", "e"), "ra", lambda K, mu: adx.radius_apoapsis(K["p"], K["e"]), lambda T, E: E["p"] + T["e"] / np.abs(1 - T["e"]) * (E["e"] + 1) + 2),
        "orbit equation": (("p", "e", "f"), "r", lambda K, mu: adx.equ_of_orbit(K["p"], K["e"], K["f"]), lambda T, E: E["p"] + T["r"] / T["p"] * T["e"] * (E["e"] + np.abs(T["f"]) * np.abs(np.sin(T["f"])) * E["f"] + 2) + 2),
        "orbit equation, f=0": (("p", "e"), "rp", lambda K, mu: adx.equ_of_orbit(K["p"], K["e"], K["e"] * 0), lambda T, E: E["p"] + E["e"] + 3),
        "orbit equation, f=pi": (("p", "e"), "ra", lambda K, mu: adx.equ_of_orbit(K["p"], K["e"], K["e"] * 0 + np.pi), lambda T, E: E["p"] + T["e"] / np.abs(1 - T["e"]) * (E["e"] + 2) + 2),
        "semimajor_axis(r, v)": (("r", "v"), "a", lambda K, mu: adx.semimajor_axis(K["r"], K["v"], mu), lambda T, E: np.abs(T["a"]) * (2 / T["r"] * (E["r"] + 1) + T["v"] ** 2 / T["mu"] * (2 * E["v"] + 2)) + 1),
        # the apsides are points of the orbit: vis-viva there closes further chains
        "semimajor_axis at periapsis": (("rp", "h"), "a", lambda K, mu: adx.semimajor_axis(K["rp"], K["h"] / K["rp"], mu), lambda T, E: np.abs(T["a"]) * (2 / T["rp"] * (E["rp"] + 1) + (1 + T["e"]) / T["rp"] * (2 * E["h"] + 2 * E["rp"] + 4)) + 1),
    }


START = (("a", "e", "f"), ("p", "e", "f"), ("P", "e", "f"), ("h", "e", "f"), ("r", "v", "e", "h"))


def lattice(tier):
    e, f = [], []
    for x in ET:
        fs = np.array([-150, -90, -20, 0, 45, 100, 170, 180], LD) * dom.D2R
        if x > 1:
            fs = fs[np.abs(fs) < 0.9 * np.arccos(-1 / LD(x))]
        e += [x] * len(fs)
        f += list(fs)
    return np.array(e, LD), np.array(f, LD)


def run_chains(ctx, p):
    import astrodynx as adx

    lab, L, mu = dom.UNITS[p["unit"]]
    e, f = lattice(ctx.tier)
    e = e.astype(ctx.dtype).astype(LD)  # the orbit is the one the precision can express
    a = np.abs(LD(L) / (1 - e))
    if not ctx.x64:
        k = (40 * a**3 < 3e38) & (LD(mu) / a**3 > 1e-36)
        e, f = e[k], f[k]
    mu_ = ctx.dtype(mu)
    EDG = edges(adx)
    depth = 4 if ctx.tier == "quick" else 5
    for ell in (True, False):
        k = (e < 1) == ell
        if not k.any():
            continue
        T = truth(e[k], f[k], L, mu_)
        live = {n: x for n, x in EDG.items() if ell or not ({"P", "n"} & (set(x[0]) | {x[1]}))}
        for st in START:
            if not ell and "P" in st:
                continue
            K0 = {q: T[q].astype(ctx.dtype) for q in st}
            E0 = {q: np.ones(k.sum(), LD) for q in st}
            walk(ctx, live, T, K0, E0, (), depth, mu_, lab)
    ctx.sample(units=lab, orbits=len(e), depth=depth)


def run_fine(ctx, p):
    """Every conversion along fine one-parameter families of orbits: eccentricity, anomaly, size, gravitational parameter."""
    import astrodynx as adx

    k = 1 if ctx.tier == "quick" else 8
    es = np.concatenate([np.arange(0.001, 0.9985, 0.002 / k), np.arange(1.002, 6, 0.004 / k)])
    fams = [("e", es, [-2.0, 0.3, 1.4], [1.0], [1.0])]
    fams.append(("f", [0.0, 0.02, 0.35, 0.83], np.arange(-6.4, 6.4, 0.004 / k), [1.0], [1.0]))
    fams.append(("f hyperbolic", [1.04, 1.9, 7.0], np.arange(-1.65, 1.65, 0.004 / k), [1.0], [1.0]))
    fams.append(("size", [0.02, 0.35, 0.83, 1.9], [0.7], np.geomspace(1e-4, 1e7, 1500 * k), [1.0]))
    fams.append(("mu", [0.02, 0.35, 0.83, 1.9], [0.7], [1.0], np.geomspace(1e-6, 1e6, 1500 * k)))
    EDG = edges(adx)
    for lab, E_, F_, L_, M_ in fams:
        e, f, L, mu = [z.ravel() for z in np.meshgrid(*[np.asarray(z).astype(ctx.dtype) for z in (E_, F_, L_, M_)], indexing="ij")]
        ok = (e < 1) | (np.abs(f) < 0.9 * np.arccos(np.clip(-1 / np.maximum(e, 1), -1, 1)))
        for ell in (True, False):
            s = ok & ((e < 1) == ell)
            if not s.any():
                continue
            m = mu[s]
            T = truth2(e[s], f[s], L[s], m)
            live = {n: x for n, x in EDG.items() if ell or not ({"P", "n"} & (set(x[0]) | {x[1]}))}
            K = {q: T[q].astype(ctx.dtype) for q in T if q != "mu" and (ell or q not in "Pn")}
            walk(ctx, live, T, K, {q: np.ones(s.sum(), LD) for q in K}, (), 1, m, "family: " + lab)
    ctx.sample(families=[z[0] for z in fams], eccentricities=len(es))


def walk(ctx, live, T, K, E, chain, left, mu, lab):
    for nm, (ins, out, call, err) in live.items():
        if chain and chain[-1] == nm:
            continue
        if any(q not in K for q in ins):
            continue
        got = np.asarray(call(K, mu))
        rel = 4 * np.asarray(err(T, E), LD)
        ch = chain + (nm,)
        # a chain whose rounding bound has grown to the size of the value itself says nothing any more
        ok = rel * ctx.eps < 0.1
        ctx.close("conversion chain", got[ok], T[out][ok], (rel * ctx.eps * np.abs(T[out]))[ok], e=T["e"][ok], f=T["f"][ok], units=lab, chain=" -> ".join(ch), quantity=out)
        ctx.count(states=ok.sum(), traces=ok.sum())
        if not got.dtype == ctx.dtype:
            ctx.fail("precision of a conversion", chain=" -> ".join(ch), dtype=str(got.dtype))
        if left > 1:
            # follow only the chains that use the new value next or later: values are replaced in place
            walk(ctx, live, T, {**K, out: got}, {**E, out: rel / 4}, ch, left - 1, mu, lab)


def run_state(ctx, p):
    import jax
    import astrodynx as adx

    e, f = lattice(ctx.tier)
    extra = np.array([0.0, 1.0])
    e = np.concatenate([e, np.repeat(extra, 5)]).astype(LD)
    f = np.concatenate([f, np.tile(np.array([-2.0, -0.4, 0.0, 0.9, 2.2], LD), 2)])
    n = len(e)
    z = np.zeros(n, LD)
    r0, v0 = ref.coe2rv(1 + e, e, z, z, z, f, z + 1)
    nr, nv = ref.norm(r0), ref.norm(v0)
    hh = np.sqrt(1 + e)
    for oi, R in enumerate(dom.rotations()):
        for lab, L, mu in dom.UNITS:
            if not ctx.x64 and lab == "helio m":
                continue
            L_, m = LD(L), LD(mu)
            V = np.sqrt(m / L_)
            r, v = (r0 @ R.T * L_).astype(ctx.dtype), (v0 @ R.T * V).astype(ctx.dtype)
            rl, vl = r.astype(LD), v.astype(LD)
            M = np.full((n, 1), mu, ctx.dtype)
            Ml = M.astype(LD)
            case = dict(e=e, f=f, orientation=oi, units=lab)
            K = 16 * ctx.eps
            h = np.asarray(adx.angular_momentum(r, v))
            hl = ref.cross(rl, vl)
            ctx.close("angular momentum of the state", h, hl, K * (ref.norm(rl) * ref.norm(vl))[:, None], **case)
            ev = np.asarray(adx.eccentricity_vector(r, v, M))
            el = ref.cross(vl, hl) / Ml - rl / ref.norm(rl)[:, None]
            ctx.close("eccentricity vector of the state", ev, el, K * (1 + ref.norm(vl) ** 2 * ref.norm(rl) / Ml[:, 0])[:, None], **case)
            ctx.close("eccentricity of the orbit", ref.norm(ev.astype(LD)), e, K * (2 + 2 * nv**2 * nr), **case)
            s = np.asarray(adx.twobody.sigma_fn(r, v, M))
            ctx.close("sigma of the state", s, (ref.dot(rl, vl) / np.sqrt(Ml[:, 0]))[:, None], K * (ref.norm(rl) * ref.norm(vl) / np.sqrt(Ml[:, 0]))[:, None], **case)
            # one orbit: p from h, a from vis-viva, e from the vector satisfy p = a (1 - e^2) and the orbit equation at f
            hm = ref.norm(h.astype(LD)).astype(ctx.dtype)
            pp = np.asarray(adx.semiparameter(hm, M[:, 0]))
            ctx.close("semiparameter of the state", pp, (1 + e) * L_, 2 * K * (1 + nr * nv / hh) * (1 + e) * L_, **case)
            rm, vm = ref.norm(rl).astype(ctx.dtype), ref.norm(vl).astype(ctx.dtype)
            a = np.asarray(adx.semimajor_axis(rm, vm, M[:, 0]))
            # reciprocal: also meaningful through the parabola
            with np.errstate(all="ignore"):
                ctx.close("reciprocal semimajor axis of the state", 1 / a.astype(LD), (1 - e) / L_, K * (2 / nr + nv**2) / L_, **case)
            em = ref.norm(ev.astype(LD)).astype(ctx.dtype)
            rr = np.asarray(adx.equ_of_orbit(pp, em, f.astype(ctx.dtype)))
            cnd = 1 + nr * nv / hh + nr / (1 + e) * (nv**2 * nr + e * (2 + np.abs(f)))
            ctx.close("orbit equation of the state's own elements", rr, nr * L_, 4 * K * cnd * nr * L_, **case)
            ctx.count(states=n, traces=n)
            if oi == 3:
                # scalar calls
                for i in range(0, n, 11):
                    ctx.close("plain angular momentum", np.asarray(adx.angular_momentum(r[i], v[i])), hl[i], K * ref.norm(rl)[i] * ref.norm(vl)[i])
                    ctx.close("plain eccentricity vector", np.asarray(adx.eccentricity_vector(r[i], v[i], mu)), el[i], K * (1 + ref.norm(vl)[i] ** 2 * ref.norm(rl)[i] / m), i=i, units=lab)
    ctx.sample(orbits=n)


def run_defaults(ctx, p):
    import astrodynx as adx

    one = np.array([0.3, 1.0, 2.5, 40.0]).astype(ctx.dtype)
    r = np.array([[1.0, 0.2, -0.4], [0.1, -2.0, 0.5], [3.0, 0.0, 1.0], [-1.0, 1.0, 1.0]]).astype(ctx.dtype)
    v = np.array([[0.1, 0.9, 0.2], [0.5, 0.1, -0.3], [-0.2, 0.4, 0.3], [0.6, 0.5, -0.1]]).astype(ctx.dtype)
    t = 4 * ctx.eps
    pairs = [
        ("orb_period", adx.orb_period(one), adx.orb_period(one, 1.0)),
        ("a_from_period", adx.a_from_period(one), adx.a_from_period(one, 1.0)),
        ("semimajor_axis", adx.semimajor_axis(one, one / 8), adx.semimajor_axis(one, one / 8, 1.0)),
        ("eccentricity_vector", adx.eccentricity_vector(r, v), adx.eccentricity_vector(r, v, 1.0)),
        ("semiparameter", adx.semiparameter(one), adx.semiparameter(one, 1.0)),
        ("sigma_fn", adx.twobody.sigma_fn(r, v), adx.twobody.sigma_fn(r, v, 1.0)),
        ("mean_anomaly_elps", adx.mean_anomaly_elps(one, one), adx.mean_anomaly_elps(one, one, 1.0)),
        ("mean_anomaly_hypb", adx.mean_anomaly_hypb(-one, one), adx.mean_anomaly_hypb(-one, one, 1.0)),
    ]
    for nm, a, b in pairs:
        b = np.asarray(b)
        ctx.close("default gravitational parameter is one: " + nm, np.asarray(a), b.astype(LD), t * (1 + np.abs(b)))
        ctx.count(states=1, traces=1)
    # one revolution of mean anomaly per period; mean motion is the rate
    for lab, L, mu in dom.UNITS:
        a = (LD(L) * np.array([0.5, 1.0, 3.0, 17.0], LD)).astype(ctx.dtype)
        m = ctx.dtype(mu)
        if not ctx.x64 and (40 * a.astype(LD) ** 3 > 3e38).any():
            continue
        P = np.asarray(adx.orb_period(a, m))
        for k in (1.0, -2.5, 0.125):
            M = np.asarray(adx.mean_anomaly_elps(a, (ctx.dtype(k) * P), m))
            ctx.close("mean anomaly advances one turn per period", M, np.full(4, 2 * ref.PI * LD(k)), 30 * ctx.eps * abs(k), a=a, units=lab)
            w = np.asarray(adx.mean_motion(P)).astype(LD) * (ctx.dtype(k) * P).astype(LD)
            ctx.close("mean motion is the rate of the mean anomaly", M, w, 40 * ctx.eps * abs(k), a=a, units=lab)
            N = np.asarray(adx.mean_anomaly_hypb(-a, (ctx.dtype(k) * P), m))
            ctx.close("hyperbolic mean anomaly has the rate of the mirrored ellipse", N, np.full(4, 2 * ref.PI * LD(k)), 30 * ctx.eps * abs(k), a=a, units=lab)
            ctx.count(states=4, traces=4)
