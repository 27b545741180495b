"""C06: agreement of all formulations of the two-body problem on every orbit of the lattice."""
import numpy as np

from mc import domains as dom
from mc import ref

BOUNDS = (
    "full product of eccentricity lattice x epoch anomalies x time offsets (as C01) x unit systems x {float32, float64}; on every problem "
    "fine one-parameter families as in C01; every pair of formulations that applies is compared: universal solver, sigma formula, elliptic/hyperbolic route, orbit equation, "
    "universal radius, Lagrange coefficients; residual of the universal equation evaluated on 7 anomalies around the root"
)
ASSUMPTIONS = [
    "the inputs (alpha, r0, sigma0, ...) are the exact values rounded to working precision; bounds account for that rounding through exact partial derivatives",
    "time-vector layouts and orientation do not enter these scalar functions",
]
LD = np.longdouble


def jobs(tier):
    es = dom.ecc(tier)
    n = 3 if tier == "quick" else 8
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        out += [(f"agree-{s}-{g}", x, dict(kind="agree", ecc=tuple(es[g::n]))) for g in range(n)]
        out += [(f"sweep-{s}", x, dict(kind="agree", sweep=True))]
        out += [(f"defaults-{s}", x, dict(kind="defaults"))]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def run_agree(ctx, p):
    import jax
    import astrodynx as adx

    tb = adx.twobody
    V = lambda f: jax.jit(jax.vmap(f))
    uni = V(lambda t, a, r, s, m: adx.solve_kepler_uni(t, a, r, s, m))
    unitol = V(lambda t, a, r, s, m: adx.solve_kepler_uni(t, a, r, s, m, tol=1e-10, max_iter=60))
    equ = V(adx.kepler_equ_uni)
    gen = V(adx.generalized_anomaly)
    mel, mhy = V(adx.mean_anomaly_elps), V(adx.mean_anomaly_hypb)
    sel, shy = V(lambda M, e: adx.solve_kepler_elps(M, e)), V(lambda M, e: adx.solve_kepler_hypb(M, e))
    uf = [V(g) for g in (tb.ufunc0, tb.ufunc1, tb.ufunc2, tb.ufunc3)]
    uvi, oeq = V(adx.equ_of_orb_uvi), V(adx.equ_of_orbit)
    lF, lG, lFt, lGt = V(tb.lagrange_F), V(tb.lagrange_G), V(tb.lagrange_Ft), V(tb.lagrange_Gt)
    sig = jax.jit(tb.sigma_fn)
    d = dom.sweeps(ctx.tier)[0] if p.get("sweep") else dom.table(p["ecc"], ctx.tier)
    c = lambda x: np.asarray(x).astype(ctx.dtype)
    e, eps = d["e"], ctx.eps
    n = len(e)
    R0, R1 = ref.norm(d["r0"]), ref.norm(d["r1"])
    s1 = ref.dot(d["r1"], d["v1"])
    U = ref.ufuncs(d["chi"], d["alpha"])
    f1 = np.arctan2(d["r1"][:, 1], d["r1"][:, 0])
    al, chi, s0, dt = d["alpha"], d["chi"], d["sigma0"], d["dt"]
    # residual sensitivity to each rounded input (canonical)
    dal = np.abs(R0 * (U[3] - chi * U[2]) + s0 * (2 * U[4] - chi * U[3]) + 3 * U[5] - chi * U[4]) / 2 * np.abs(al)
    y = np.sqrt(np.abs(al)) * np.abs(chi)
    resid = np.abs(R0 * U[1]) + np.abs(s0 * U[2]) + np.abs(U[3]) + np.abs(dt) + dal + y * R1 * np.abs(chi)
    good = (resid / R1 / np.maximum(1, np.abs(chi)) * eps < 1e-4) & (np.abs(chi) < 1e6)
    # closed forms cancel where 1 <= |alpha chi^2|: their own floor
    with np.errstate(all="ignore"):
        a_ = np.maximum(np.abs(al), 1e-30)
        g = np.where(al < 0, np.cosh(np.minimum(y, 300)), 1)
        floor = np.where(y > 0.7, R0 * 0 + np.abs(s0) * g / a_ + (np.abs(chi) + g / np.sqrt(a_)) / a_, 0) * (1 + y)
    resid = resid + floor
    for lab, L, mu in dom.UNITS if ctx.tier != "quick" else dom.UNITS[: 2 if p.get("sweep") else 7]:
        L, mu = LD(L), LD(mu)
        T = np.sqrt(L**3 / mu)
        sq = np.sqrt(L)
        ones = np.ones(n, ctx.dtype)
        A, r0, S0, t, m = c(al / L), c(R0 * L), c(s0 * sq), c(dt * T), ones * ctx.dtype(mu)
        k = good.copy()
        case = dict(e=e[k], f=d["f"][k], dt=(dt * T)[k], units=lab)
        cl = lambda w, got, want, tol, sel=None: _close(ctx, w, got, want, tol, k if sel is None else k & sel, dict(e=e, f=d["f"], dt=dt * T, units=lab))
        # --- the anomaly
        stol = 2e-6 * np.minimum(1, (R0 * L) ** 1.5)
        tchi = (stol + 40 * eps * resid * L**1.5) / (R1 * L) + 8 * eps * np.abs(chi) * sq
        x = np.asarray(uni(t, A, r0, S0, m))
        cl("universal solver gives the exact anomaly", x, chi * sq, tchi)
        if ctx.x64:
            x10 = np.asarray(unitol(t, A, r0, S0, m))
            cl("universal solver, tight tolerance", x10, chi * sq, tchi - stol / (R1 * L) + 2e-10 * np.minimum(1, (R0 * L) ** 1.5) / (R1 * L))
        S1 = c(s1 * sq)
        gx = np.asarray(gen(A, S1, S0, t, m))
        tg = 16 * eps * (np.abs(al * dt) + np.abs(s1) + np.abs(s0) + R0 * ref.norm(d["v0"]) * 0.1) * sq
        cl("generalized anomaly from sigma", gx, chi * sq, tg)
        cl("generalized anomaly agrees with the universal solver", gx, x.astype(LD), tg + tchi)
        # --- the universal equation, at and around its root
        for w in (0.0, 0.5, 0.99, 1.0, 1.01, 1.5, -0.7):
            X = (chi * sq * LD(w)).astype(ctx.dtype)
            Uw = ref.ufuncs(X.astype(LD) / sq, al)
            want = (R0 * Uw[1] + s0 * Uw[2] + Uw[3] - dt) * L**1.5
            sc = (np.abs(R0 * Uw[1]) + np.abs(s0 * Uw[2]) + np.abs(Uw[3]) + np.abs(dt)) + dal * max(1, abs(w)) ** 3 * 4 + resid
            rng = y * abs(w) < 60
            cl(f"universal equation at {w} chi", np.asarray(equ(X, A, r0, S0, t, m)), want, 60 * eps * sc * L**1.5, rng)
        # --- classical routes
        # the mean motion needs the cube of the semimajor axis
        rep = np.abs(al / L) > (LD(1e-12) if not ctx.x64 else LD(1e-90))
        el, hy = (al > 1e-4) & rep, (al < -1e-4) & rep
        if el.any():
            a = np.where(el, 1 / np.where(el, al, 1), 1)
            ee = np.where(el, np.minimum(e, 0.99995), 0.5)
            E0 = np.arctan2(s0 / np.sqrt(a), 1 - R0 / a)
            small = (e < 1e-3)
            E0 = np.where(small, 2 * np.arctan(np.sqrt((1 - ee) / (1 + ee)) * np.tan(d["f"] / 2)), E0)
            M0 = E0 - ee * np.sin(E0)
            dM = np.asarray(mel(c(np.where(el, a * L, L)), t, m))
            cl("mean anomaly (ellipse)", dM, dt / a**1.5, 24 * eps * np.abs(dt) / a**1.5, el)
            M1 = (M0 + dM).astype(ctx.dtype)
            E1 = np.asarray(sel(M1, c(ee))).astype(LD)
            q = (1 - ee * np.cos(E0 + chi / np.sqrt(a)))
            sl = np.maximum(q, 1e-3)
            te = (8e-6 + (150 * eps * (np.abs(dt) / a**1.5 + np.abs(M0) + 1)) / sl) * np.sqrt(a)
            cl("elliptic route agrees with the universal one", (E1 - E0) * np.sqrt(a) * sq, chi * sq, te * sq, el & (q > 0.004))
        if hy.any():
            a = np.where(hy, -1 / np.where(hy, al, -1), 1)
            ee = np.where(hy, e, 2.0)
            H0 = 2 * np.arctanh(np.clip(np.sqrt((ee - 1) / (ee + 1)) * np.tan(np.where(hy, d["f"], 0) / 2), -1 + LD(1e-15), 1 - LD(1e-15)))
            N0 = ee * np.sinh(H0) - H0
            dN = np.asarray(mhy(c(np.where(hy, -a * L, -L)), t, m))
            cl("mean anomaly (hyperbola)", dN, dt / a**1.5, 24 * eps * np.abs(dt) / a**1.5, hy)
            N1 = (N0 + dN).astype(ctx.dtype)
            H1 = np.asarray(shy(N1, c(ee))).astype(LD)
            Hx = H0 + chi / np.sqrt(a)
            sl = ee * np.cosh(Hx) - 1
            te = (4e-6 + 200 * eps * (np.abs(dt) / a**1.5 + np.abs(N0) + np.abs(Hx) + ee * np.abs(np.sinh(Hx)) * (1 + np.abs(Hx)))) / sl + 16 * eps * (np.abs(Hx) + np.abs(H0))
            cl("hyperbolic route agrees with the universal one", (H1 - H0) * np.sqrt(a) * sq, chi * sq, te * np.sqrt(a) * sq, hy & (sl > 1e-4))
        # --- radius
        X = c(chi * sq)
        u = [np.asarray(g(X, A)) for g in uf]
        # error of r through chi and alpha rounding
        cr = R0 * np.abs(U[0]) + np.abs(s0 * U[1]) + np.abs(U[2]) + np.abs(s1) * np.abs(chi) + (np.abs(R0 * chi * U[1]) + np.abs(s0) * np.abs(U[3] - chi * U[2]) + np.abs(2 * U[4] - chi * U[3])) * np.abs(al)
        cr = cr * (1 + y) + np.where(y > 0.7, g / a_ * (1 + y), 0)
        cl("universal radius", np.asarray(uvi(u[0], u[1], u[2], r0, S0)), R1 * L, 40 * eps * cr * L)
        q = 1 + e * np.cos(f1)
        cl("orbit equation radius", np.asarray(oeq(c((1 + e) * L), c(e), c(f1))), R1 * L, 16 * eps * R1 * L * (1 + e * (1 + np.abs(f1)) / q), e < 1e9)
        # --- Lagrange coefficients from the same anomaly
        ef = (np.abs(U[2]) * (1 + y) + np.abs(U[1] * chi) + np.abs(2 * U[4] - chi * U[3]) * np.abs(al) + np.where(y > 0.7, g / a_ * (1 + y), 0)) * 40 * eps
        r1 = c(R1 * L)
        F = np.asarray(lF(u[2], r0)).astype(LD)
        G = np.asarray(lG(u[1], u[2], S0, r0, m)).astype(LD)
        Ft = np.asarray(lFt(u[1], r1, r0, m)).astype(LD)
        Gt = np.asarray(lGt(u[2], r1)).astype(LD)
        e1 = (np.abs(U[1]) * (1 + y) + np.abs(U[0] * chi) + np.abs(U[3] - chi * U[2]) * np.abs(al)) * 40 * eps
        tF = ef / R0 + 8 * eps
        tG = R0 * e1 + np.abs(s0) * ef + 8 * eps * np.abs(d["G"])
        tFt = (e1 + 8 * eps * np.abs(U[1])) / (R0 * R1)
        tGt = ef / R1 + 8 * eps * (1 + np.abs(U[2]) / R1)
        cl("Lagrange F", F, d["F"], tF)
        cl("Lagrange G", G, d["G"] * T, tG * T)
        cl("Lagrange Ft", Ft, d["Ft"] / T, tFt / T)
        cl("Lagrange Gt", Gt, d["Gt"], tGt)
        cl("F Gt - Ft G = 1", F * Gt - Ft * G, np.ones(n), np.abs(F) * tGt + np.abs(Gt) * tF + np.abs(Ft) * T * tG + np.abs(G) / T * tFt + tF * tGt + tG * tFt)
        rr = F[:, None] * d["r0"] * L + G[:, None] * d["v0"] * L / T
        cl("F r0 + G v0 is the propagated position", rr, d["r1"] * L, (tF * R0 + tG * ref.norm(d["v0"]))[:, None] * L)
        vv = Ft[:, None] * d["r0"] * L + Gt[:, None] * d["v0"] * L / T
        cl("Ft r0 + Gt v0 is the propagated velocity", vv, d["v1"] * L / T, (tFt * R0 + tGt * ref.norm(d["v0"]))[:, None] * L / T)
        sv = np.asarray(sig(c(d["r1"] * L), c(d["v1"] * L / T), ctx.dtype(mu)))
        cl("sigma of the propagated state", sv[:, 0], s1 * sq, 24 * eps * R1 * ref.norm(d["v1"]) * sq)
        ctx.count(states=k.sum(), traces=k.sum())
    ctx.sample(e=float(e[5]), f=float(d["f"][5]), dt=float(dt[5]), chi=float(chi[5]))
    ctx.extra["ill_conditioned_points_left_out"] = int((~good).sum())


def _close(ctx, what, got, want, tol, k, case):
    got = np.asarray(got)
    w = np.broadcast_to(np.asarray(want), got.shape)
    t = np.broadcast_to(np.asarray(tol), got.shape)
    if k.any():
        ctx.close(what, got[k], w[k], t[k], **{a: (b[k] if isinstance(b, np.ndarray) and b.ndim else b) for a, b in case.items()})


def run_defaults(ctx, p):
    """Documented default arguments, keyword use and array arguments of the same functions."""
    import jax.numpy as jnp
    import astrodynx as adx

    tb = adx.twobody
    eps = ctx.eps
    X = np.array([-3.0, -0.5, 0.0, 0.25, 1.0, 2.5], ctx.dtype)
    XL = X.astype(LD)

    def eq(chi, alpha=1.0, r0=1.0, s0=0.0, dt=0.0, mu=1.0):
        U = ref.ufuncs(chi, np.full(np.shape(chi), ctx.dtype(alpha)))
        return LD(ctx.dtype(r0)) * U[1] + LD(ctx.dtype(s0)) * U[2] + U[3] - np.sqrt(LD(ctx.dtype(mu))) * LD(ctx.dtype(dt))

    kws = [
        {},
        dict(alpha=0.5),
        dict(alpha=-0.3, r0=2.0),
        dict(r0=0.5, sigma0=0.25),
        dict(deltat=1.5),
        dict(deltat=-2.0, mu=4.0),
        dict(alpha=0.0, r0=1.5, sigma0=-0.5, deltat=0.75, mu=0.5),
        dict(alpha=1e-8, sigma0=0.1),
    ]
    for kw in kws:
        want = eq(X, kw.get("alpha", 1.0), kw.get("r0", 1.0), kw.get("sigma0", 0.0), kw.get("deltat", 0.0), kw.get("mu", 1.0))
        got = adx.kepler_equ_uni(jnp.asarray(X), **kw)
        ctx.close("kepler_equ_uni with defaults", got, want, 200 * eps * (1 + np.abs(XL) ** 3) * np.where(True, 3, 1), chi=X, kw=str(kw))
        for i in (0, 3):
            ctx.close("kepler_equ_uni scalar", adx.kepler_equ_uni(float(X[i]), **kw), want[i], 600 * eps * (1 + abs(XL[i]) ** 3), chi=float(X[i]), kw=str(kw))
        ctx.count(states=len(X), traces=1)
    for a, s, s0, kw in [(1.0, 0.3, 0.1, {}), (0.5, -0.3, 0.2, dict(deltat=2.0)), (-0.4, 1.3, 0.2, dict(deltat=2.0, mu=9.0)), (0.0, 2.0, -1.0, dict(deltat=5.0))]:
        want = LD(ctx.dtype(a)) * np.sqrt(LD(kw.get("mu", 1.0))) * LD(kw.get("deltat", 0.0)) + LD(ctx.dtype(s)) - LD(ctx.dtype(s0))
        ctx.close("generalized_anomaly with defaults", adx.generalized_anomaly(a, s, s0, **kw), want, 16 * eps * 8, kw=str(kw))
        ctx.count(states=1, traces=1)
    for a in (1.0, 2.5, 42164.0):
        for dt in (-3.0, 0.0, 7.5):
            ctx.close("mean_anomaly_elps default mu", adx.mean_anomaly_elps(a, dt), LD(dt) / LD(a) ** LD(1.5), 8 * eps * abs(dt), a=a)
            ctx.close("mean_anomaly_hypb default mu", adx.mean_anomaly_hypb(-a, dt), LD(dt) / LD(a) ** LD(1.5), 8 * eps * abs(dt), a=a)
            ctx.close("mean_anomaly_elps mu", adx.mean_anomaly_elps(a, dt, 4.0), 2 * LD(dt) / LD(a) ** LD(1.5), 16 * eps * abs(dt), a=a)
            ctx.close("mean_anomaly_hypb mu", adx.mean_anomaly_hypb(-a, dt, 4.0), 2 * LD(dt) / LD(a) ** LD(1.5), 16 * eps * abs(dt), a=a)
            ctx.count(states=1, traces=4)
    u1, u2 = 0.75, 0.375
    for got, want, nm in [
        (tb.lagrange_F(u2), 1 - 0.375, "F r0=1"),
        (tb.lagrange_F(u2, 3.0), 1 - 0.125, "F r0=3"),
        (tb.lagrange_G(u1, u2), 0.75, "G defaults"),
        (tb.lagrange_G(u1, u2, 2.0), 1.5, "G sigma0"),
        (tb.lagrange_G(u1, u2, 2.0, 4.0), 3.75, "G sigma0 r0"),
        (tb.lagrange_G(u1, u2, 2.0, 4.0, 9.0), 1.25, "G sigma0 r0 mu"),
        (tb.lagrange_Ft(u1, 2.0), -0.375, "Ft r"),
        (tb.lagrange_Ft(u1, 2.0, 4.0), -0.09375, "Ft r r0"),
        (tb.lagrange_Ft(u1, 2.0, 4.0, 16.0), -0.375, "Ft r r0 mu"),
        (tb.lagrange_Gt(u2, 3.0), 0.875, "Gt"),
        (adx.equ_of_orb_uvi(0.5, u1, u2, 3.0, 2.0), 3.375, "uvi"),
        (adx.equ_of_orbit(3.0, 0.5, 0.0), 2.0, "orbit equation"),
    ]:
        ctx.close("documented formula: " + nm, got, LD(want), 16 * eps)
        ctx.count(states=1, traces=1)
    for r, v, mu in [([1.0, 2.0, 3.0], [0.5, -1.0, 0.25], 1.0), ([0.5, 0.0, -1.0], [2.0, 1.0, 1.0], 4.0)]:
        got = tb.sigma_fn(jnp.array(r), jnp.array(v)) if mu == 1.0 else tb.sigma_fn(jnp.array(r), jnp.array(v), mu)
        ctx.check(np.shape(got) == (1,), "sigma keeps the last axis", shape=np.shape(got))
        ctx.close("sigma_fn", got, LD(np.dot(r, v)) / np.sqrt(LD(mu)), 16 * eps)
        ctx.count(states=1, traces=1)
    # the universal solver called plainly
    for e, f, dt in [(0.2, 0.4, 3.0), (0.9, -2.0, 11.0), (1.0, 0.5, -4.0), (1.6, 1.0, 30.0), (0.0, 0.0, 0.0)]:
        d = dom.solve(np.array([e], LD), np.array([f], LD), np.array([dt], LD))
        a, r0, s0 = [float(x[0]) for x in (d["alpha"], ref.norm(d["r0"]), d["sigma0"])]
        for form in range(3):
            got = [lambda: adx.solve_kepler_uni(dt, a, r0, s0), lambda: adx.solve_kepler_uni(jnp.asarray(dt), jnp.asarray(a), r0, jnp.asarray(s0), 1.0), lambda: adx.solve_kepler_uni(dt, a, r0, s0, 1.0, 1e-9, 80)][form]()
            ctx.check(np.shape(got) == (), "universal solver returns a scalar", shape=np.shape(got))
            ctx.close("eager universal solver", got, d["chi"][0], 4e-6 + 400 * eps * (1 + abs(d["chi"][0])), e=e, form=form)
            ctx.count(states=1, traces=1)
