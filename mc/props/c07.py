"""C07: the state transition matrix against the exact Jacobian of the flow."""
import numpy as np

from mc import domains as dom
from mc import ref

BOUNDS = (
    "full product of eccentricity lattice x epoch anomalies x time offsets (both signs, zero, several revolutions) x orientations x unit systems x "
    "{float32, float64}: matrix and four blocks entry by entry; symplecticity on every matrix; composition and inversion over all ordered pairs of "
    "offsets of a sub-lattice; fine one-parameter families as in C01; automatic differentiation of the Kepler propagator (forward) and of the numerical propagator (reverse) on a sub-lattice"
)
ASSUMPTIONS = [
    "oracle: complex-step Jacobian of the exact flow in 80-bit arithmetic, independent of the closed form used by the code",
    "error bound: first-order sensitivity of the closed form to rounding of each input and intermediate quantity, evaluated at every point",
]
LD = np.longdouble
SPAN = 12.0  # revolutions beyond this are left to C01


def jobs(tier):
    es = dom.ecc(tier)
    n = 3 if tier == "quick" else 8
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        out += [(f"matrix-{s}-{g}", x, dict(kind="matrix", ecc=tuple(es[g::n]))) for g in range(n)]
        out += [(f"sweep-{s}", x, dict(kind="matrix", sweep=True))]
        out += [(f"compose-{s}", x, dict(kind="compose")), (f"autodiff-{s}", x, dict(kind="autodiff")), (f"plain-{s}", x, dict(kind="plain"))]
    out += [("numeric-f64", True, dict(kind="numeric"))]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def ufuncs7(chi, al):
    U = ref.ufuncs(chi, al)
    z = al * chi * chi
    small = np.abs(z) <= 2
    zs = np.where(small, z, 0)
    a = np.where(small, 1, al)
    for n in (6, 7):
        U.append(np.where(small, ref._series(n, chi, zs), (chi ** (n - 2) / ref._FACT[n - 2] - U[n - 2]) / a))
    return U


def outer(a, b):
    return a[..., :, None] * b[..., None, :]


def scales(d):
    """Entrywise size of every rounding error of the closed form, in units of eps (canonical units)."""
    r, v, r0, v0, dt, chi, al = d["r1"], d["v1"], d["r0"], d["v0"], d["dt"], d["chi"], d["alpha"]
    R, R0, V, V0 = ref.norm(r), ref.norm(r0), ref.norm(v), ref.norm(v0)
    U = ufuncs7(chi, al)
    y = np.sqrt(np.abs(al)) * np.abs(chi)
    with np.errstate(all="ignore"):
        a_ = np.maximum(np.abs(al), LD(1e-30))
        g = np.where(al < 0, np.cosh(np.minimum(y, 300)), 1)
        flo = [np.where(y > 0.6, g / a_ ** (LD(n) / 2) * (1 + y) + (np.abs(chi) ** max(n - 2, 0) / a_ ** (1 if n >= 2 else 0) if n >= 2 else 0) + (np.abs(chi) ** (n - 4) / a_**2 if n >= 4 else 0), 0) for n in range(6)]
    dchi = np.abs(al * dt) + R * V + R0 * V0 + np.abs(chi) + V0**2 * np.abs(dt)
    dal = 2 / R0 + V0**2
    sig0 = np.abs(d["sigma0"])
    eU = []
    for n in range(6):
        der = np.abs(U[n - 1]) if n else np.abs(al * U[1])
        dUa = np.abs(n * U[n + 2] - chi * U[n + 1]) / 2
        eU.append(np.abs(U[n]) * (1 + y) + flo[n] + der * dchi + dUa * dal)
    eC = 3 * eU[5] + np.abs(chi) * eU[4] + np.abs(U[4]) * dchi + np.abs(dt) * eU[2] + np.abs(3 * U[5]) + np.abs(chi * U[4]) + np.abs(dt * U[2])
    # errors in chi enter C through one combination only, but allow each separately
    C = np.abs(3 * U[5] - chi * U[4] - dt * U[2]) 
    eF = eU[2] / R0 + 1 + np.abs(U[2]) / R0
    eG = R0 * (eU[1] + np.abs(U[1])) + sig0 * (eU[2] + np.abs(U[2])) + R0 * V0 * np.abs(U[2])
    eFt = (eU[1] + np.abs(U[1])) / (R * R0)
    eGt = eU[2] / R + 1 + np.abs(U[2]) / R
    ab = np.abs
    dv, dr = ab(v - v0), ab(r - r0)
    edv, edr = ab(v) + ab(v0), ab(r) + ab(r0)
    # vectors may be rounded relative to their length, not only entrywise
    av, av0, ar, ar0 = ab(v) + V[:, None], ab(v0) + V0[:, None], ab(r) + R[:, None], ab(r0) + R0[:, None]
    edv, edr = av + av0, ar + ar0
    q = lambda x: x[:, None, None]
    I = np.eye(3)
    oF = ab(1 - d["F"])
    rr0 = outer(ar, ar0)
    B = {}
    B[0, 0] = q(R) * (outer(dv, edv) + outer(edv, dv)) + q((eF + oF) / R0**2) * rr0 + q((eC + C) / R0**3) * outer(av, ar0) + q(eF + ab(d["F"])) * I
    k = outer(dr, av0) + outer(dv, ar0)
    B[0, 1] = q(R0 * eF) * k + q(R0 * oF) * (outer(edr, av0) + outer(edv, ar0)) + q(eC + C) * outer(av, av0) + q(eG + ab(d["G"])) * I
    M = (outer(ar, av) + outer(av, ar)) @ outer(ar, edv) / q(R)
    B[1, 0] = outer(edv, ar0) / q(R0**2) + outer(ar, edv) / q(R**2) + q(eFt + ab(d["Ft"])) * (I + rr_(ar) / q(R**2) + M) + q((eC + C) / (R**3 * R0**3)) * rr0
    B[1, 1] = q(R0) * (outer(dv, edv) + outer(edv, dv)) + q((eF + oF) * R0 / R**3) * rr0 + q((eC + C) / R**3) * outer(ar, av0) + q(eGt + ab(d["Gt"])) * I
    S = np.concatenate([np.concatenate([B[0, 0], B[0, 1]], -1), np.concatenate([B[1, 0], B[1, 1]], -1)], -2)
    # underflow-level floor: exact zeros of the Jacobian may come out as denormals
    T = np.abs(d["dt"]) + R0
    S[:, :3, 3:] += q(T) * LD(1e-12)
    return S + LD(1e-12)


def rr_(a):
    return outer(a, a)


def setup(d, Rj, L, mu):
    o = dom.embed(d, Rj, L, mu)
    T = o["T"]
    D = np.zeros(Rj.shape[:-2] + (6, 6), LD)
    D[..., :3, :3] = D[..., 3:, 3:] = Rj
    can = dict(d)
    for k in ("r0", "r1", "v0", "v1"):
        can[k] = (Rj @ d[k][..., None])[..., 0]
    S = D @ d["stm"] @ np.swapaxes(D, -1, -2)
    sc = np.ones((6, 6), LD)
    sc[:3, 3:] = T
    sc[3:, :3] = 1 / T
    return o, S * sc, scales(can) * sc


def subset(d, ctx, lim):
    # skip spans of very many revolutions: their matrices are checked through the flow (C01)
    rev = np.where(d["alpha"] > 1e-6, np.abs(d["dt"]) * np.abs(d["alpha"]) ** 1.5 / (2 * np.pi), 0)
    return rev <= SPAN


def _take(d, k):
    return {a: (b[k] if isinstance(b, np.ndarray) and b.ndim and len(b) == len(k) else b) for a, b in d.items()}


K = 12.0


def run_matrix(ctx, p):
    import jax
    import astrodynx as adx

    tb = adx.twobody
    f = jax.jit(jax.vmap(tb.dxdx0, in_axes=(0, 0, 0, 0, 0, None)))
    bl = {
        "prpr0": (jax.jit(jax.vmap(tb.prpr0, in_axes=(0,) * 6 + (None,))), ("F", "C"), (0, 0)),
        "prpv0": (jax.jit(jax.vmap(tb.prpv0, in_axes=(0,) * 7 + (None,))), ("F", "G", "C"), (0, 1)),
        "pvpr0": (jax.jit(jax.vmap(tb.pvpr0, in_axes=(0,) * 6 + (None,))), ("Ft", "C"), (1, 0)),
        "pvpv0": (jax.jit(jax.vmap(tb.pvpv0, in_axes=(0,) * 7 + (None,))), ("F", "Gt", "C"), (1, 1)),
    }
    Cf = jax.jit(jax.vmap(tb.C_func, in_axes=(0,) * 5 + (None,)))
    if p.get("sweep"):
        d, rots, _ = dom.sweeps(ctx.tier)
        keep = subset(d, ctx, SPAN)
        d, rots = _take(d, keep), [rots[keep]]
    else:
        d = dom.table(p["ecc"], ctx.tier)
        d = _take(d, subset(d, ctx, SPAN))
        rots = dom.rotations(5 if ctx.tier == "quick" else None)
    c = lambda x: np.asarray(x).astype(ctx.dtype)
    J = np.zeros((6, 6), LD)
    J[:3, 3:], J[3:, :3] = np.eye(3), -np.eye(3)
    skipped = 0
    units = dom.UNITS[:4] + dom.UNITS[5:]
    U = ref.ufuncs(d["chi"], d["alpha"])
    Ccan = 3 * U[5] - d["chi"] * U[4] - d["dt"] * U[2]
    for k, (lab, L, mu) in enumerate(units):
        for j, Rj in enumerate(rots):
            if ctx.tier == "quick" and k and (j != k % 5 or p.get("sweep")):
                continue
            o, want, sc = setup(d, Rj, L, mu)
            tol = K * ctx.eps * sc
            un = np.ones((6, 6), LD)
            un[:3, 3:], un[3:, :3] = o["T"], 1 / o["T"]
            size = np.sqrt(((want / un) ** 2).sum((-1, -2)))
            ok = np.sqrt(((tol / un) ** 2).sum((-1, -2))) < 0.02 * size
            skipped += int((~ok).sum())
            m = ctx.dtype(mu)
            args = [c(o["r1"]), c(o["v1"]), c(o["r0"]), c(o["v0"])]
            got = np.asarray(f(*args, c(o["dt"]), m))
            case = dict(e=d["e"][ok], f=d["f"][ok], dt=o["dt"][ok], units=lab, orientation=j)
            ctx.close("transition matrix is the Jacobian of the flow", got[ok], want[ok], tol[ok], **case)
            q = dict(F=d["F"], G=d["G"] * o["T"], Ft=d["Ft"] / o["T"], Gt=d["Gt"], C=Ccan * LD(L) ** 1.5 * LD(L) / np.sqrt(LD(mu)))
            for nm, (g, ks, (a, b)) in bl.items():
                gb = np.asarray(g(*args, *[c(q[z]) for z in ks], m))
                sl = (slice(None), slice(3 * a, 3 * a + 3), slice(3 * b, 3 * b + 3))
                ctx.close(f"block {nm}", gb[ok], want[sl][ok], tol[sl][ok], **case)
            sq = np.sqrt(LD(L))
            gC = np.asarray(Cf(c(d["chi"] * sq), c(U[2] * L), c(U[4] * LD(L) ** 2), c(U[5] * LD(L) ** 2.5), c(o["dt"]), m))
            tC = 12 * ctx.eps * (np.abs(3 * U[5]) + np.abs(d["chi"] * U[4]) + np.abs(d["dt"] * U[2])) * LD(L) ** 2.5 / np.sqrt(LD(mu))
            ctx.close("C function", gC, q["C"], tC, e=d["e"], f=d["f"], dt=o["dt"], units=lab)
            # symplectic, in scaled units so that the two halves are comparable
            s = got.astype(LD) / un
            w = np.abs(want / un)
            t = tol / un
            ts = np.swapaxes(w + t, -1, -2) @ np.abs(J) @ t
            ctx.close("symplectic", (np.swapaxes(s, -1, -2) @ J @ s)[ok], np.broadcast_to(J, s.shape)[ok], (ts + np.swapaxes(ts, -1, -2) + 1e-30)[ok], **case)
            ctx.count(states=ok.sum(), traces=6 * ok.sum())
    ctx.sample(e=float(d["e"][7]), f=float(d["f"][7]), dt=float(d["dt"][7]), stm_row0=d["stm"][7, 0])
    ctx.extra["ill_conditioned_points_left_out"] = skipped


def run_compose(ctx, p):
    """All ordered pairs of offsets: composition, inversion, identity, all from library matrices."""
    import jax
    import astrodynx as adx

    f = jax.jit(jax.vmap(adx.twobody.dxdx0, in_axes=(0, 0, 0, 0, 0, None)))
    es = [0.0, 0.3, 0.7, 0.9, 1.0, 1.3, 3.0] if ctx.tier == "quick" else [0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97, 1 - 1e-6, 1.0, 1.001, 1.3, 2.0, 3.0, 8.0]
    offs = [-5.0, -1.25, 0.0, 0.5, 2.0, 6.5] if ctx.tier == "quick" else [-11.0, -5.0, -2.5, -1.25, -0.25, 0.0, 0.5, 1.0, 2.0, 4.0, 6.5, 15.0]
    c = lambda x: np.asarray(x).astype(ctx.dtype)
    for ri, Rj in enumerate(dom.rotations(5)):
        lab, L, mu = dom.UNITS[[0, 1, 3, 0, 5][ri]]
        n = len(offs)
        E, F, A, B = map(np.ravel, np.meshgrid(np.array(es, LD), np.array([0.4, -1.1, 1.6], LD), np.arange(n), np.arange(n), indexing="ij"))
        O = np.array(offs, LD)
        ta, tb = O[A.astype(int)], O[B.astype(int)]
        base = dom.solve(E, F, ta, stm=False)
        # trajectory: epoch -> a -> b ; also epoch -> b
        def leg(r0, v0, t):
            d = dict(e=E, f=F, dt=t, r0=r0, v0=v0)
            r1, v1, chi = ref.kepler(t, r0, v0, LD(1), with_chi=True)
            al, rr, sg = ref.conic(r0, v0, LD(1))
            U = ref.ufuncs(chi, al)
            d.update(r1=r1, v1=v1, chi=chi, alpha=al, sigma0=sg, F=1 - U[2] / rr, G=rr * U[1] + sg * U[2], Ft=-U[1] / (rr * ref.norm(r1)), Gt=1 - U[2] / ref.norm(r1), stm=ref.kepler_stm(t, r0, v0, LD(1)))
            return d
        l1 = leg(base["r0"], base["v0"], ta)
        l2 = leg(l1["r1"], l1["v1"], tb - ta)
        l3 = leg(base["r0"], base["v0"], tb)
        back = leg(l1["r1"], l1["v1"], -ta)
        got, want, tol = [], [], []
        for l in (l1, l2, l3, back):
            o, w, s = setup(l, Rj, L, mu)
            g = np.asarray(f(c(o["r1"]), c(o["v1"]), c(o["r0"]), c(o["v0"]), c(o["dt"]), ctx.dtype(mu))).astype(LD)
            un = np.ones((6, 6), LD)
            un[:3, 3:], un[3:, :3] = o["T"], 1 / o["T"]
            got.append(g / un)
            want.append(np.abs(w / un))
            tol.append(K * ctx.eps * s / un)
        case = dict(e=E, f=F, ta=ta, tb=tb, units=lab)
        t = want[1] @ tol[0] + tol[1] @ want[0] + tol[1] @ tol[0] + tol[2]
        ctx.close("matrices compose along the trajectory", got[1] @ got[0], got[2], t, **case)
        t = want[3] @ tol[0] + tol[3] @ want[0] + tol[3] @ tol[0]
        ctx.close("exchanging the endpoints inverts the matrix", got[3] @ got[0], np.broadcast_to(np.eye(6), got[0].shape), t, **case)
        z = ta == 0
        ctx.close("identity at zero separation", got[0][z], np.broadcast_to(np.eye(6), got[0][z].shape), 64 * ctx.eps * np.ones((z.sum(), 6, 6)) + tol[0][z], e=E[z], f=F[z], units=lab)
        ctx.count(states=len(E), transitions=4 * len(E), traces=4 * len(E))


def run_plain(ctx, p):
    """Uncompiled calls, keyword use, documented defaults (deltat=3.14, mu=1)."""
    import jax.numpy as jnp
    import astrodynx as adx

    Rj = dom.rotations()[3]
    for e, fa in [(0.2, 0.7), (0.8, -2.0), (1.0, 0.9), (1.7, -1.0)]:
        for t, mode in [(3.14, "default"), (3.14, "positional"), (-1.5, "keyword"), (0.0, "positional"), (5.5, "mu")]:
            L, mu = (1.0, 1.0) if mode != "mu" else (2.0, 3.0)
            d = dom.solve(np.array([e], LD), np.array([fa], LD), np.array([t], LD) / np.sqrt(LD(L) ** 3 / LD(mu)))
            o, want, sc = setup(d, Rj, L, mu)
            a = [jnp.asarray(o[k][0].astype(ctx.dtype)) for k in ("r1", "v1", "r0", "v0")]
            fn = adx.twobody.dxdx0
            if mode == "default":
                g = fn(*a)
            elif mode == "keyword":
                g = fn(r_vec=a[0], v_vec=a[1], r0_vec=a[2], v0_vec=a[3], deltat=t)
            elif mode == "mu":
                g = fn(*a, t, mu)
            else:
                g = fn(*a, t, 1)
            ctx.check(np.shape(g) == (6, 6), "shape", got_shape=np.shape(g))
            if np.shape(g) == (6, 6):
                ctx.close("plain call", g, want[0], K * ctx.eps * sc[0], e=e, f=fa, t=t, mode=mode)
            ctx.count(states=1, traces=1)


def _sub(ctx, tmax=20.0):
    es = [0.0, 1e-3, 0.3, 0.7, 0.95, 1 - 1e-6, 1.0, 1 + 1e-6, 1.2, 3.0]
    if ctx.tier != "quick":
        es = [0.0, 1e-7, 1e-3, 0.1, 0.3, 0.5, 0.7, 0.85, 0.95, 0.99, 1 - 1e-4, 1 - 1e-6, 1.0, 1 + 1e-6, 1 + 1e-4, 1.05, 1.2, 2.0, 3.0, 10.0]
    fs = [-2.0, -0.7, 0.0, 0.5, 1.7]
    ts = [x for x in (-20.0, -6.0, -1.5, -0.01, 0.0, 1e-4, 0.3, 2.0, 9.0, 20.0) if abs(x) <= tmax]
    E, F, T = map(np.ravel, np.meshgrid(np.array(es, LD), np.array(fs, LD), np.array(ts, LD), indexing="ij"))
    k = (E < 1.15) | (np.abs(F) < np.arccos(-1 / np.maximum(E, 1)) * LD(0.93))
    k &= ~((E > 0.9) & (E < 1.15) & (np.abs(F) > 1.9)) & ~((E > 0.9) & (np.abs(F) > 1.9))
    return dom.solve(E[k], F[k], T[k])


def run_autodiff(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx

    def flow(x, t, mu):
        r, v = adx.prop.kepler(t, x[:3], x[3:], mu)
        return jnp.concatenate([r[0], v[0]])

    jac = jax.jit(jax.vmap(jax.jacfwd(flow), in_axes=(0, 0, None)))
    dtj = jax.jit(jax.vmap(jax.jacfwd(flow, argnums=1), in_axes=(0, 0, None)))
    d = _sub(ctx)
    # time offsets that span a reasonable number of revolutions
    for ri, (lab, L, mu) in enumerate([dom.UNITS[0], dom.UNITS[1], dom.UNITS[3]] if ctx.tier == "quick" else dom.UNITS[:4] + dom.UNITS[5:]):
        Rj = dom.rotations()[(3 * ri + 1) % 5]
        o, want, sc = setup(d, Rj, L, mu)
        un = np.ones((6, 6), LD)
        un[:3, 3:], un[3:, :3] = o["T"], 1 / o["T"]
        nrm = np.sqrt(((want / un) ** 2).sum((-1, -2)))
        y = np.abs(d["chi"]) * np.sqrt(np.abs(d["alpha"]))
        # the differentiated closed forms of the code lose as much again as the matrix itself near the parabola
        tol = (K * ctx.eps * (1 + y)[:, None, None] * np.sqrt((sc / un) ** 2).sum((-1, -2))[:, None, None] + 1e-6 * nrm[:, None, None]) * un
        x0 = np.concatenate([o["r0"], o["v0"]], -1).astype(ctx.dtype)
        got = np.asarray(jac(x0, o["dt"].astype(ctx.dtype), ctx.dtype(mu)))
        ok = (np.abs(tol / un).max((-1, -2)) < 0.02 * nrm)
        case = dict(e=d["e"][ok], f=d["f"][ok], dt=o["dt"][ok], units=lab)
        ctx.close("forward derivative of the Kepler propagator", got[ok], want[ok], tol[ok], **case)
        gt = np.asarray(dtj(x0, o["dt"].astype(ctx.dtype), ctx.dtype(mu)))
        R1 = ref.norm(o["r1"])
        wt = np.concatenate([o["v1"], -LD(mu) * o["r1"] / R1[:, None] ** 3], -1)
        cr, cv = d["cr"] * L / o["T"], d["cv"] * L / o["T"] ** 2
        tt = np.concatenate([np.repeat((3e-6 * ref.norm(o["v1"]))[:, None], 3, 1), np.repeat((3e-6 * LD(mu) / R1**2)[:, None], 3, 1)], -1)
        grad = 2 * LD(mu) / R1**3
        tt = tt + 300 * ctx.eps * np.concatenate([np.repeat((cv * o["T"])[:, None], 3, 1), np.repeat((grad * d["cr"] * L)[:, None], 3, 1)], -1)
        ctx.close("time derivative of the Kepler propagator", gt[ok], wt[ok], tt[ok], **case)
        ctx.count(states=ok.sum(), traces=2 * ok.sum())
        ctx.extra["autodiff_points_left_out"] = ctx.extra.get("autodiff_points_left_out", 0) + int((~ok).sum())


def run_numeric(ctx, p):
    """Reverse-mode Jacobian of the numerical propagator, and forward mode with the forward adjoint route."""
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq

    def vf(t, x, args):
        return jnp.concatenate([x[3:], adx.gravity.point_mass_grav(t, x, args)])

    def flow(x, t, mu):
        od = adx.prop.OrbDynx(terms=diffeq.ODETerm(vf), args={"mu": mu})
        return adx.prop.to_final(od, x, t).ys[-1]

    jac = jax.jit(jax.vmap(jax.jacrev(flow), in_axes=(0, 0, None)))
    es = [0.0, 0.3, 0.7, 1.0, 1.5]
    fs = [-0.7, 0.5, 1.7] if ctx.tier == "quick" else [-1.7, -0.7, 0.0, 0.5, 1.7]
    ts = [0.3, 2.0, 6.0] if ctx.tier == "quick" else [0.05, 0.3, 1.0, 2.0, 6.0, 9.0]
    E, F, T = map(np.ravel, np.meshgrid(np.array(es, LD), np.array(fs, LD), np.array(ts, LD), indexing="ij"))
    d = dom.solve(E, F, T)
    for ri, (lab, L, mu) in enumerate([dom.UNITS[0], ("mu=4", 1.0, 4.0)]):
        o, want, sc = setup(d, dom.rotations()[3 + ri], L, mu)
        x0 = np.concatenate([o["r0"], o["v0"]], -1).astype(ctx.dtype)
        got = np.asarray(jac(x0, o["dt"].astype(ctx.dtype), ctx.dtype(mu)))
        nrm = np.sqrt((want**2).sum((-1, -2)))
        ctx.close("reverse derivative of the numerical propagator", got, want, np.broadcast_to((1e-6 * (1 + nrm**2))[:, None, None], got.shape), e=E, f=F, dt=o["dt"], units=lab)
        ctx.count(states=len(E), traces=len(E))
