"""C02: hop sequences of the Kepler propagator: composition, inversion, conservation.

Explicit-state search.  A node of the model is (orbit, net time) on the lattice
spanned by the hop alphabet; its value in the model is the exact state at that
time.  Every transition calls the real propagator from the state that the
implementation itself reached through the preceding hops.
"""
import itertools

import numpy as np

from mc import domains as dom
from mc import ref

BOUNDS = (
    "all hop words of length <= 3 (quick) / 4 (thorough) over an alphabet of 6/8 incommensurable hops of both signs, from every orbit of the "
    "lattice (eccentricity x anomaly x orientation x unit system x precision); invariants evaluated in every reached state, path "
    "independence between all words with the same net time and with the single hop, closure of every closed word"
)
ASSUMPTIONS = [
    "error bound of a word: sum over its hops of the single-hop bound, transported by the exact transition matrices",
    "reference flow in 80-bit arithmetic",
]
ECQ = (0.0, 1e-6, 0.02, 0.25, 0.4, 0.8, 0.9, 0.97, 0.995, 0.9999, 1.0, 1.0001, 1.01, 1.3, 4.0, 20.0)
ECT = (0.0, 1e-6, 0.02, 0.1, 0.25, 0.4, 0.6, 0.8, 0.9, 0.97, 0.99, 0.999, 0.9999, 1.0, 1.0001, 1.001, 1.02, 1.1, 1.3, 2.0, 4.0, 10.0)
K = 60.0


def hops(tier):
    h = [1.0, -1.0, 0.37, -2.75, 13.5, -6.1]
    return h if tier == "quick" else h + [60.0, -31.7]


def jobs(tier):
    es = ECQ if tier == "quick" else ECT
    g = 4 if tier == "quick" else 11
    return [
        (f"words-{'f64' if x else 'f32'}-{i}", x, dict(ecc=es[i::g])) for x in (False, True) for i in range(g)
    ]


def run(ctx, p):
    import jax
    import astrodynx as adx

    f = jax.jit(jax.vmap(adx.prop.kepler, in_axes=(None, 0, 0, None)))
    ham = jax.jit(lambda r, v: adx.angular_momentum(r, v))
    eve = jax.jit(lambda r, v, m: adx.eccentricity_vector(r, v, m))
    sma = jax.jit(lambda r, v, m: adx.semimajor_axis(r, v, m))
    H = hops(ctx.tier)
    depth = 3 if ctx.tier == "quick" else 4
    R = dom.rotations(5)
    units = [dom.UNITS[0], dom.UNITS[1], dom.UNITS[3]]
    E, F = [], []
    for e in p["ecc"]:
        fs = dom.anomalies(e, "quick")
        fs = fs[:: max(1, len(fs) // 5)]
        E += [e] * len(fs)
        F += list(fs)
    E, F = np.array(E, np.longdouble), np.array(F, np.longdouble)
    n = len(E)
    nets = sorted({round(sum(w), 9) for k in range(1, depth + 1) for w in itertools.product(H, repeat=k)} | {0.0})
    # exact states and conditioning at every net time (model states)
    exact = {}
    for t in nets:
        exact[t] = dom.solve(E, F, np.full(n, t, np.longdouble))
    for ui, (lab, L, mu) in enumerate(units):
        for j in ([ui, 3] if ctx.tier == "quick" else range(5)):
            j = j % 5
            em = {t: dom.embed(d, R[j], L, mu) for t, d in exact.items()}
            Tu = em[0.0]["T"]
            x0 = (em[0.0]["r0"].astype(ctx.dtype), em[0.0]["v0"].astype(ctx.dtype))
            mu_ = ctx.dtype(mu)
            scal = _scales(em[0.0])
            base = _integrals(adx, ham, eve, sma, x0[0], x0[1], mu_)
            # time of a hop must be exactly the sum in working precision: round the unit
            vals = {h: ctx.dtype(h * Tu) for h in H}
            frontier = {(): x0}
            reached = {}
            for k in range(depth):
                nxt = {}
                for h in H:
                    # one compiled call for all words of this length
                    ws = list(frontier)
                    r = np.concatenate([frontier[w][0] for w in ws])
                    v = np.concatenate([frontier[w][1] for w in ws])
                    rr, vv = f(vals[h], r, v, mu_)
                    rr, vv = np.asarray(rr)[:, 0].reshape(len(ws), n, 3), np.asarray(vv)[:, 0].reshape(len(ws), n, 3)
                    for i, w in enumerate(ws):
                        nxt[w + (h,)] = (rr[i], vv[i])
                for w, (r, v) in nxt.items():
                    net = round(sum(w), 9)
                    o = em[net]
                    # bound: every intermediate single-hop error is carried to the end by the exact flow; the
                    # conditioning of the legs is bounded by that of the legs from epoch (there and back)
                    legs = np.zeros(n, np.longdouble)
                    legv = np.zeros(n, np.longdouble)
                    bad = np.zeros(n, bool)
                    part = [round(sum(w[:m]), 9) for m in range(len(w) + 1)]
                    S1 = exact[net]["stm"]
                    for m in range(1, len(w) + 1):
                        tr, tv, kr = _hop_tol(exact, part[m - 1], part[m], em, ctx.eps)
                        # transport to the end of the word
                        S = _rel(exact, part[m], net)
                        sc = em[part[m]]["L"], em[part[m]]["L"] / Tu
                        er = S[0] * tr / sc[0] + S[1] * tv / sc[1]
                        ev = S[2] * tr / sc[0] + S[3] * tv / sc[1]
                        legs += er * sc[0]
                        legv += ev * sc[1]
                    bad = (legs / ref.norm(o["r1"]) > 0.02) | (legv / ref.norm(o["v1"]) > 0.02)
                    ok = ~bad
                    c = dict(e=E[ok], f=F[ok], word=str(w), units=lab, orientation=j)
                    ctx.close("hop sequence ends on the trajectory (position)", r[ok], o["r1"][ok], legs[ok][:, None], **c)
                    ctx.close("hop sequence ends on the trajectory (velocity)", v[ok], o["v1"][ok], legv[ok][:, None], **c)
                    ctx.count(states=ok.sum(), traces=1)
                    # conserved integrals, from the library's own functions on the implementation's states
                    got = _integrals(adx, ham, eve, sma, r, v, mu_)
                    dr, dv = legs, legv
                    hr, hv = ref.norm(o["r1"]), ref.norm(o["v1"])
                    th = dr * hv + dv * hr + 16 * ctx.eps * hr * hv + _tol0(base_scale=scal["h"], eps=ctx.eps)
                    te = 4 * (dv * hv * hr + dr * hv**2) / mu + 2 * dr / hr + 32 * ctx.eps * (hr * hv**2 / mu + 1) + _tol0(scal["e"], ctx.eps)
                    ta = 2 * dr / hr**2 + 2 * hv * dv / mu + 16 * ctx.eps * (2 / hr + hv**2 / mu) + _tol0(scal["a"], ctx.eps)
                    ctx.close("angular momentum constant along the word", got[0][ok], base[0][ok], th[ok][:, None], **c)
                    ctx.close("eccentricity vector constant along the word", got[1][ok], base[1][ok], te[ok][:, None], **c)
                    ctx.close("energy constant along the word", got[2][ok], base[2][ok], ta[ok][:, None], **c)
                    reached.setdefault(net, []).append((w, r, v, legs, legv, ok))
                frontier = nxt
            # path independence, including closed words against the start
            reached.setdefault(0.0, []).append(((), x0[0], x0[1], np.zeros(n), np.zeros(n), np.ones(n, bool)))
            for net, lst in reached.items():
                lst.sort(key=lambda q: len(q[0]))
                a = lst[0]
                for b in lst[1:]:
                    ok = a[5] & b[5]
                    c = dict(e=E[ok], f=F[ok], words=f"{a[0]} vs {b[0]}", units=lab, orientation=j)
                    ctx.close("words with equal net time agree (position)", b[1][ok], a[1][ok].astype(np.longdouble), (a[3] + b[3])[ok][:, None], **c)
                    ctx.close("words with equal net time agree (velocity)", b[2][ok], a[2][ok].astype(np.longdouble), (a[4] + b[4])[ok][:, None], **c)
            if ui == 0:
                ctx.sample(word=str(w), net=net, orbits=n, end_r=r[0])


def _tol0(base_scale, eps):
    return 32 * eps * base_scale


def _scales(o):
    r, v, mu = ref.norm(o["r0"]), ref.norm(o["v0"]), o["mu"]
    return dict(h=r * v, e=r * v**2 / mu + 1, a=2 / r + v**2 / mu)


def _integrals(adx, ham, eve, sma, r, v, mu):
    a = np.asarray(sma(np.linalg.norm(r, axis=-1).astype(r.dtype), np.linalg.norm(v, axis=-1).astype(r.dtype), mu), np.longdouble)
    with np.errstate(all="ignore"):
        inv = np.where(np.isinf(a), 0, 1 / a)
    return np.asarray(ham(r, v)), np.asarray(eve(r, v, mu)), inv[:, None]


def _inv(S):
    J = np.zeros((6, 6), np.longdouble)
    J[:3, 3:] = np.eye(3)
    J[3:, :3] = -np.eye(3)
    return -J @ np.swapaxes(S, -1, -2) @ J


_cache = {}


def _rel(exact, a, b):
    """Norms of the blocks of the exact transition matrix from net time a to b (canonical)."""
    k = (id(exact), a, b)
    if k not in _cache:
        S = exact[b]["stm"] @ _inv(exact[a]["stm"])
        q = lambda A: np.sqrt((A * A).sum((-1, -2)))
        _cache[k] = (q(S[:, :3, :3]), q(S[:, :3, 3:]), q(S[:, 3:, :3]), q(S[:, 3:, 3:]))
    return _cache[k]


def _hop_tol(exact, a, b, em, eps):
    """Single-hop error bound from the exact state at a to the one at b."""
    S = _rel(exact, a, b)
    A, B = em[a], em[b]
    L, T = A["L"], A["T"]
    ra, va = ref.norm(A["r1"]) / L, ref.norm(A["v1"]) / (L / T)
    rb, vb = ref.norm(B["r1"]) / L, ref.norm(B["v1"]) / (L / T)
    dt = abs(b - a)
    # Lagrange coefficients of the leg, bounded by the state magnitudes and the matrix
    cr = 2 * (S[0] * ra + S[1] * va) + vb * dt + rb
    cv = 2 * (S[2] * ra + S[3] * va) + dt / rb**2 + vb
    dts = 2e-6 * np.minimum(1, (ra * L) ** 1.5) / np.sqrt(A["mu"])
    tr = K * eps * cr * L + vb * (L / T) * dts
    tv = K * eps * cv * (L / T) + A["mu"] / (rb * L) ** 2 * dts
    return tr, tv, None
