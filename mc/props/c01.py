"""C01: the Kepler propagator against the exact two-body flow, for every conic."""
import numpy as np

from mc import domains as dom
from mc import ref

BOUNDS = (
    "full product of: eccentricity lattice (0..30 quick, 0..100 thorough, logarithmic approach to 1 from both sides) x "
    "epoch anomalies on both legs x time offsets of both signs (1e-6 of a period to 40/150 revolutions; hyperbolic arcs to "
    "3e3/2e4 periapsis times) x orientations x unit systems x {float32,float64}; time-vector layouts enumerated separately: "
    "fine one-parameter families (eccentricity, epoch anomaly, time offset, inclination, node, argument of periapsis; 3000 quick / 13000 thorough points per unit system); all words of length <= 3 (quick) / 4 over 4 offsets, plus scalar, empty-free 1-element and long vectors, eager and compiled"
)
ASSUMPTIONS = [
    "reference: universal-variable solution in 80-bit arithmetic with safeguarded Newton, self-checked by inversion",
    "error bound: K*eps*(conditioning from the exact transition matrix) plus the solver's default residual tolerance of 1e-6",
    "rectilinear orbits and collisions are outside the domain",
]
K32, K64 = 60.0, 60.0


def jobs(tier):
    es = dom.ecc(tier)
    n = 4 if tier == "quick" else 16
    out = []
    for x64 in (False, True):
        for g in range(n):
            out.append((f"flow-{'f64' if x64 else 'f32'}-{g}", x64, dict(kind="flow", ecc=tuple(es[g::n]))))
        out.append((f"sweep-{'f64' if x64 else 'f32'}", x64, dict(kind="sweep")))
        out.append((f"layout-{'f64' if x64 else 'f32'}", x64, dict(kind="layout")))
        out.append((f"eager-{'f64' if x64 else 'f32'}", x64, dict(kind="eager")))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def _K(ctx):
    return K64 if ctx.x64 else K32


def usable(o, ctx):
    """Problems whose solution is representable and conditioned well enough to mean anything."""
    cond = np.maximum(o["cr"] / ref.norm(o["r1"] / o["L"]), o["cv"] / ref.norm(o["v1"] / (o["L"] / o["T"])))
    ok = cond * ctx.eps < 1e-3
    return ok


def run_flow(ctx, p):
    import jax
    import astrodynx as adx

    f = jax.jit(jax.vmap(lambda t, r, v, mu: adx.prop.kepler(t, r, v, mu), in_axes=(0, 0, 0, None)))
    d = dom.table(p["ecc"], ctx.tier)
    R = dom.rotations(5 if ctx.tier == "quick" else None)
    dt_ = ctx.dtype
    skipped = 0
    for k, (lab, L, mu) in enumerate(dom.UNITS if ctx.tier != "quick" else dom.UNITS[:6]):
        for j, Rj in enumerate(R):
            if ctx.tier == "quick" and k and j not in (k % 5, (k + 2) % 5):
                continue  # quick: every orientation in canonical units, two per other unit system
            o = dom.embed(d, Rj, L, mu)
            rr, vv = f(o["dt"].astype(dt_), o["r0"].astype(dt_), o["v0"].astype(dt_), dt_(mu))
            rr, vv = np.asarray(rr)[:, 0], np.asarray(vv)[:, 0]
            tr, tv = dom.flow_tol(o, ctx.eps, _K(ctx))
            ok = usable(o, ctx)
            skipped += int((~ok).sum())
            case = dict(e=d["e"][ok], f=d["f"][ok], dt=o["dt"][ok], orientation=j, units=lab, r0=o["r0"][ok], v0=o["v0"][ok], mu=mu)
            ctx.close("position", rr[ok], o["r1"][ok], tr[ok], **case)
            ctx.close("velocity", vv[ok], o["v1"][ok], tv[ok], **case)
            ctx.count(states=ok.sum(), traces=ok.sum())
            if j == 0 and k == 0:
                ctx.sample(e=float(d["e"][3]), f=float(d["f"][3]), dt=float(o["dt"][3]), got_r=rr[3], want_r=o["r1"][3])
    ctx.extra["ill_conditioned_points_left_out"] = skipped


def run_sweep(ctx, p):
    """Fine one-parameter families: no window of an orbit parameter is stepped over."""
    import jax
    import astrodynx as adx

    f = jax.jit(jax.vmap(lambda t, r, v, mu: adx.prop.kepler(t, r, v, mu), in_axes=(0, 0, 0, None)))
    d, R, fam = dom.sweeps(ctx.tier)
    for lab, L, mu in (dom.UNITS[0], dom.UNITS[3]) if ctx.tier == "quick" else dom.UNITS:
        o = dom.embed(d, R, L, mu)
        rr, vv = f(o["dt"].astype(ctx.dtype), o["r0"].astype(ctx.dtype), o["v0"].astype(ctx.dtype), ctx.dtype(mu))
        tr, tv = dom.flow_tol(o, ctx.eps, _K(ctx))
        ok = usable(o, ctx)
        case = dict(family=fam[ok], e=d["e"][ok], f=d["f"][ok], dt=o["dt"][ok], units=lab, r0=o["r0"][ok], v0=o["v0"][ok], mu=mu)
        ctx.close("position along a family", np.asarray(rr)[:, 0][ok], o["r1"][ok], tr[ok], **case)
        ctx.close("velocity along a family", np.asarray(vv)[:, 0][ok], o["v1"][ok], tv[ok], **case)
        ctx.count(states=ok.sum(), traces=ok.sum())
    ctx.extra["points of the fine families"] = len(fam)


LAY = [(0.0, 0.3), (0.3, 1.0), (0.7, -2.0), (1.0, 0.5), (1.4, 0.8)]


def _layout_orbits():
    E = np.array([a for a, _ in LAY], np.longdouble)
    F = np.array([b for _, b in LAY], np.longdouble)
    return E, F


def run_layout(ctx, p):
    """Every arrangement of the requested times: order, repetition, length."""
    import itertools
    import jax
    import astrodynx as adx

    offs = [0.0, 0.75, -2.5, 9.25]  # exactly representable
    words = [w for n in range(1, 4 if ctx.tier == "quick" else 5) for w in itertools.product(range(4), repeat=n)]
    words += [tuple([k] * 7) for k in range(4)] + [tuple((7 * i + i // 5) % 4 for i in range(n)) for n in (16, 33, 64, 100, 128, 257, 1000)]
    E, F = _layout_orbits()
    for oi in range(len(E)):
        exact = {}
        for k, t in enumerate(offs):
            d = dom.solve(E[oi : oi + 1], F[oi : oi + 1], np.array([t], np.longdouble))
            exact[k] = d
        o0 = dom.embed(exact[0], dom.rotations()[3], 1.0, 1.0)
        r0, v0 = o0["r0"][0].astype(ctx.dtype), o0["v0"][0].astype(ctx.dtype)
        em = {k: dom.embed(d, dom.rotations()[3], 1.0, 1.0) for k, d in exact.items()}
        tl = {k: dom.flow_tol(em[k], ctx.eps, _K(ctx)) for k in em}
        f = jax.jit(adx.prop.kepler)
        for w in words:
            ts = np.array([offs[k] for k in w], ctx.dtype)
            r, v = f(ts, r0, v0, ctx.dtype(1))
            want = np.concatenate([em[k]["r1"] for k in w])
            wantv = np.concatenate([em[k]["v1"] for k in w])
            lab = str(w) if len(w) < 10 else f"len {len(w)}"
            ctx.close("row i belongs to time i (position)", r, want, np.concatenate([tl[k][0] for k in w]), times=ts, e=float(E[oi]), word=lab)
            ctx.close("row i belongs to time i (velocity)", v, wantv, np.concatenate([tl[k][1] for k in w]), times=ts, e=float(E[oi]), word=lab)
            ctx.count(states=len(w), traces=1)
    ctx.sample(words=len(words), example=[offs[k] for k in words[40]])


def run_eager(ctx, p):
    """Plain (uncompiled) calls: Python scalars, lists, numpy and jax arrays, default mu."""
    import jax.numpy as jnp
    import astrodynx as adx

    E, F = _layout_orbits()
    n = len(E)
    tq = [0.0, 1.5, -7.25] if ctx.tier == "quick" else [0.0, 1.5, -7.25, 3.0, -2.0, 40.0, -0.125, 0.001]
    for oi in range(n):
        plan = [(ui, t) for ui in ([oi % 4] if ctx.tier == "quick" else range(6)) for t in tq]
        plan += [(0, 3.0), (0, -2.0)] if oi % 2 or ctx.tier != "quick" else []
        for ui, t in plan:
            for lab, L, mu in [dom.UNITS[ui]]:
                d = dom.solve(E[oi : oi + 1], F[oi : oi + 1], np.array([t], np.longdouble))
                o = dom.embed(d, dom.rotations()[4], L, mu)
                tr, tv = dom.flow_tol(o, ctx.eps, _K(ctx))
                r0, v0 = o["r0"][0].astype(ctx.dtype), o["v0"][0].astype(ctx.dtype)
                tt = float(o["dt"][0].astype(ctx.dtype))
                forms = {"python float": tt, "0-d array": jnp.asarray(tt), "1 element": jnp.asarray([tt])}
                if t in (3.0, -2.0) and lab == "canonical":
                    forms = {"python int": int(tt)} if t > 0 else {"integer array": jnp.asarray([int(tt)])}
                for fl, ta in forms.items():
                    if fl == "1 element" and t != 1.5 and ctx.tier == "quick":
                        continue
                    if mu == 1.0 and fl == "1 element":
                        r, v = adx.prop.kepler(ta, r0, v0)  # default mu
                    elif fl == "0-d array":
                        r, v = adx.prop.kepler(ta, jnp.asarray(r0), jnp.asarray(v0), mu)
                    else:
                        r, v = adx.prop.kepler(ta, r0, v0, mu)
                    ctx.check(np.shape(r) == (1, 3) and np.shape(v) == (1, 3), "a single time gives one row", form=fl, shape=np.shape(r))
                    if np.shape(r) == (1, 3):
                        ctx.close("eager position", r, o["r1"], tr, e=float(E[oi]), units=lab, t=tt, form=fl)
                        ctx.close("eager velocity", v, o["v1"], tv, e=float(E[oi]), units=lab, t=tt, form=fl)
                    ctx.check(str(r.dtype) == ctx.dtype.__name__, "dtype kept", got=str(r.dtype))
                    ctx.count(states=1, traces=1)
