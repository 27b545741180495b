"""C20: rotation, reflection and time reversal of the whole problem."""
import itertools

import numpy as np

from mc import domains as dom
from mc import dyn, meta, ref

BOUNDS = (
    "all 48 signed permutations of the axes (the octahedral group with reflections) and 6 general rotations x conics (eccentricity 0..8) x anomalies x 10 orientations, axis-aligned ones included, "
    "for the Kepler propagator, transition matrix and its four blocks, vector integrals, predicates, point-mass force and its numerical propagation; all 16 symmetries of a z-axisymmetric body and general "
    "turns about z for the zonal forces, their propagation (every force subset) and the classical elements; velocity/time reversal of all of them; float32 and float64"
)
ASSUMPTIONS = [
    "rounding: a difference is attributed to rounding up to a multiple of machine precision times the measured amplification of input changes",
    "predicates are compared where a rounding of the inputs does not change them",
    "argument angles of circular or equatorial orbits follow conventions and are compared only away from them",
]
LD = np.longdouble
ECC_Q = (0.0, 1e-3, 0.3, 0.8, 0.98, 1.0, 1.1, 3.0)
ECC_T = (0.0, 1e-6, 1e-3, 0.05, 0.2, 0.4, 0.6, 0.8, 0.9, 0.98, 0.999, 1.0, 1.001, 1.02, 1.1, 1.5, 2.0, 3.0, 8.0)


def signed():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            Q = np.zeros((3, 3), LD)
            for i in range(3):
                Q[i, p[i]] = s[i]
            out.append((f"{''.join('xyz'[j] for j in p)}{''.join('+-'[k < 0] for k in s)}", Q))
    return out


def general():
    return [(f"rotation {k}", Q) for k, Q in enumerate(dom.rotations()[3:9])]


def axial():
    """Symmetries of a z-axisymmetric body: 16 signed permutations, general turns and mirrors of them."""
    out = [(n, Q) for n, Q in signed() if abs(Q[2, 2]) == 1]
    for k, a in enumerate((0.1, 1.0, 2.5, -0.7)):
        Rz = ref.rot(2, LD(a))
        out.append((f"turn {a}", Rz))
        if k % 2:
            out.append((f"turn {a} mirrored", Rz @ np.diag([LD(1), LD(1), LD(-1)])))
    return out


def det(Q):
    return float(np.sign(np.linalg.det(Q.astype(float))))


def jobs(tier):
    out = []
    for x in (True, False):
        s = "f64" if x else "f32"
        for k in ("kepler", "matrix", "vectors", "blocks", "predicates", "forces", "elements"):
            out.append((f"{k}-{s}", x, dict(kind=k)))
        out += [(f"propagation-{s}-{g}", x, dict(kind="propagation", part=g)) for g in range(3)]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def table(ctx, orients=range(10)):
    """Physical states (N, 3), (N, 3) rounded to the precision, with labels."""
    E = ECC_Q if ctx.tier == "quick" else ECC_T
    F = (0.0, 0.5, -1.3, 2.4) if ctx.tier == "quick" else (0.0, 0.2, 0.5, -0.9, -1.3, 2.0, 2.4, -2.8, 3.1)
    X, lab = dyn.states(E, F, orients)
    X = X.astype(ctx.dtype)
    return X[:, :3], X[:, 3:], lab


def ap(Q, v):
    return v.astype(LD) @ Q.T


def cast(ctx, v):
    return np.asarray(v).astype(ctx.dtype)


def compare(ctx, what, F, args, kinds, outs, group, K=24, extra=None, **lab):
    """args of kinds s (scalar), p (polar vector), a (axial), x (state); outs likewise, or m (3x3 matrix)."""
    base, amp = meta.spread(F, args, ctx.eps)
    n = len(args[0])
    for gn, Q in group:
        d = det(Q)

        def move(v, k):
            if k == "s":
                return v.astype(LD)
            if k == "p":
                return ap(Q, v)
            if k == "a":
                return d * ap(Q, v)
            if k == "x":
                return np.concatenate([ap(Q, v[:, :3]), ap(Q, v[:, 3:])], 1)
            if k == "m":
                return Q @ v.astype(LD) @ Q.T
            raise KeyError(k)

        got = F([cast(ctx, move(a, k)) for a, k in zip(args, kinds)])
        for i, (g, o) in enumerate(zip(got, base)):
            tol = K * ctx.eps * amp[i]
            if extra is not None:
                tol = tol + extra[i]
            ctx.close(f"{what}: transforms with the frame", g, move(o, outs[i]), tol, frame=gn, output=i, **lab)
        ctx.count(states=n, traces=n)
    ctx.count(transitions=F.n)
    ctx.sample(function=what, rows=n, frames=len(group))
    return base, amp


def run_kepler(ctx, p):
    import astrodynx as adx

    r, v, lab = table(ctx)
    mus = np.array([1.0, 0.7, 1.8], ctx.dtype)
    ts = np.array([[0.0, 0.3, -0.3], [2.0, -7.0, 31.0], [1e-4, 80.0, -200.0]], ctx.dtype)
    F = meta.Batch(adx.prop.kepler)
    n = len(r)
    rev = meta.Batch(lambda t, a, b, m: adx.prop.kepler(-t, a, -b, m))
    for k in range(3):
        T = np.repeat(ts[k : k + 1], n, 0)
        m = np.full(n, mus[k])
        args = [T, r, v * np.sqrt(mus[k]), m]
        eta = 2.0**-20 if ctx.x64 else 2.0**-9
        b0 = F(args)
        b1 = F([T + ctx.dtype(eta)] + args[1:])
        dts = 4e-6 * np.minimum(1, ref.norm(r.astype(LD)) ** 1.5) / np.sqrt(LD(mus[k]))
        extra = [np.sqrt(((y.astype(LD) - x) ** 2).sum(-1, keepdims=True)) / eta * dts[:, None, None] for x, y in zip(b0, b1)]
        info = dict(e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2], mu=float(mus[k]), times=ts[k])
        base, amp = compare(ctx, "kepler", F, args, "sppS"[:3] + "s", "pp", signed() + general(), 24, extra, **info)
        back = rev(args)
        for i, s in ((0, 1), (1, -1)):
            ctx.close("kepler: reversed velocity and time retrace the trajectory", s * back[i], base[i], 24 * ctx.eps * amp[i] + extra[i], output=i, **info)
        ctx.count(states=n, traces=n)


def run_matrix(ctx, p):
    import astrodynx as adx
    from mc.props import c07

    f = meta.Batch(adx.twobody.dxdx0, 1024)
    d = dom.table(ECC_Q if ctx.tier == "quick" else ECC_T, "quick", True, 4, 7 if ctx.tier == "quick" else 9)
    d = c07._take(d, c07.subset(d, ctx, c07.SPAN))
    c = lambda z: cast(ctx, z)
    n = len(d["dt"])
    m = np.ones(n, ctx.dtype)
    Rs = dom.rotations()
    V = np.diag([1.0] * 3 + [-1.0] * 3).astype(LD)
    lost = 0
    for j in (0, 1, 4) if ctx.tier == "quick" else range(10):
        o, want, sc = c07.setup(d, Rs[j], 1.0, 1.0)
        a = [c(o["r1"]), c(o["v1"]), c(o["r0"]), c(o["v0"])]
        dt = c(o["dt"])
        base = f(a + [dt, m])[0].astype(LD)
        tol0 = 2 * c07.K * ctx.eps * sc
        tsz = np.sqrt((tol0**2).sum((-1, -2)))
        ok = tsz < 0.02 * np.sqrt((want**2).sum((-1, -2)))
        lost += int((~ok).sum())
        info = dict(e=d["e"][ok], f=d["f"][ok], dt=d["dt"][ok], orientation=j)
        for gn, Q in signed() + general():
            D = np.zeros((6, 6), LD)
            D[:3, :3] = D[3:, 3:] = Q
            got = f([c(ap(Q, z)) for z in a] + [dt, m])[0].astype(LD)
            A = np.abs(D)
            tol = A @ tol0 @ A.T
            ctx.close("transition matrix: transforms with the frame", got[ok], (D @ base @ D.T)[ok], tol[ok], frame=gn, **info)
            ctx.count(states=n, traces=n)
        got = f([a[0], -a[1], a[2], -a[3], -dt, m])[0].astype(LD)
        ctx.close("transition matrix: reversed velocity and time", got[ok], (V @ base @ V)[ok], tol0[ok], **info)
        # the reversed arc, from the end back to the start, inverts the matrix: symplectic inverse
        back = f([a[2], -a[3], a[0], -a[1], dt, m])[0].astype(LD)
        J = np.zeros((6, 6), LD)
        J[:3, 3:], J[3:, :3] = np.eye(3), -np.eye(3)
        inv = -J @ np.swapaxes(V @ back @ V, -1, -2) @ J  # its own inverse must be the forward matrix
        sw = dict(d, r0=d["r1"], v0=-d["v1"], r1=d["r0"], v1=-d["v0"], sigma0=-np.sum(d["r1"] * d["v1"], -1), F=d["Gt"], Gt=d["F"])
        Rj = Rs[j]
        for k in ("r0", "r1", "v0", "v1"):
            sw[k] = sw[k] @ Rj.T
        sb = np.abs(J) @ np.swapaxes(c07.scales(sw), -1, -2) @ np.abs(J)
        tol = 2 * c07.K * ctx.eps * sb + tol0
        ok2 = np.sqrt((tol**2).sum((-1, -2))) < 0.02 * np.sqrt((want**2).sum((-1, -2)))
        ctx.close("transition matrix: the reversed arc inverts it", inv[ok2], base[ok2], tol[ok2], e=d["e"][ok2], f=d["f"][ok2], dt=d["dt"][ok2], orientation=j)
        ctx.count(states=2 * n, traces=2 * n)
    ctx.extra["matrices lost to rounding in the precision"] = lost
    ctx.count(transitions=f.n)


def run_vectors(ctx, p):
    import astrodynx as adx

    r, v, lab = table(ctx)
    n = len(r)
    m = np.resize(np.array([1.0, 0.6, 2.0], ctx.dtype), n)
    vm = (v * np.sqrt(m)[:, None]).astype(ctx.dtype)
    info = dict(e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2])
    G = signed() + general()
    compare(ctx, "angular_momentum", meta.Batch(adx.angular_momentum), [r, v], "pp", "a", G, **info)
    b, amp = compare(ctx, "eccentricity_vector", meta.Batch(adx.eccentricity_vector), [r, vm, m], "pps", "p", G, **info)
    f = meta.Batch(adx.eccentricity_vector)
    ctx.close("eccentricity_vector: unchanged by reversal of the velocity", f([r, -vm, m])[0], b[0], 24 * ctx.eps * amp[0], **info)
    b, amp = compare(ctx, "sigma_fn", meta.Batch(adx.twobody.sigma_fn), [r, vm, m], "pps", "s", G, **info)
    f = meta.Batch(adx.twobody.sigma_fn)
    ctx.close("sigma_fn: changes sign with the velocity", -f([r, -vm, m])[0], b[0], 24 * ctx.eps * amp[0], **info)
    ok = lab[:, 0] > 1e-2
    e = meta.Batch(adx.eccentricity_vector)([r, vm, m])[0]
    circ(ctx, "true_anomaly", meta.Batch(adx.true_anomaly), [r[ok], e[ok]], "pp", G, e=lab[ok, 0], f=lab[ok, 1], orientation=lab[ok, 2])
    x = np.concatenate([r, v], 1)
    rm = np.resize(np.array([0.9, 1.5], ctx.dtype), n)
    compare(ctx, "radius_islow", meta.Batch(lambda a, b_: adx.events.radius_islow(0.0, a, {"rmin": b_})), [x, rm], "xs", "s", G, **info)


def cdiff(d):
    d = np.abs(d) % (2 * ref.PI)
    return np.minimum(d, 2 * ref.PI - d)


def circ(ctx, what, F, args, kinds, group, want=lambda o, gn, Q: o, **lab):
    """Angle-valued functions, compared on the circle."""
    base, amp = meta.spread(F, args, ctx.eps, diff=lambda a, b: cdiff(a.astype(LD) - b))
    n = len(args[0])
    for gn, Q in group:
        a = [cast(ctx, z.astype(LD) if k == "s" else ap(Q, z) * (det(Q) if k == "a" else 1)) for z, k in zip(args, kinds)]
        got = F(a)
        for i, (g, o) in enumerate(zip(got, base)):
            ctx.close(f"{what}: transforms with the frame", cdiff(g.astype(LD) - want(o.astype(LD), gn, Q)), np.zeros(g.shape), 24 * ctx.eps * (amp[i] + 7), frame=gn, **lab)
        ctx.count(states=n, traces=n)
    ctx.count(transitions=F.n)
    return base, amp


def run_blocks(ctx, p):
    import astrodynx as adx

    tb = adx.twobody
    r, v, lab = table(ctx, (0, 1, 4, 6))
    n = len(r)
    k = np.roll(np.arange(n), 7)
    four = [r[k], v[k], r, v]
    s = lambda salt: cast(ctx, np.cos(1.7 * np.arange(n) + salt))
    m = cast(ctx, 1 + 0.5 * np.sin(np.arange(n)))
    info = dict(e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2])
    for nm, extra in (("prpr0", 2), ("prpv0", 3), ("pvpr0", 2), ("pvpv0", 3)):
        compare(ctx, nm, meta.Batch(getattr(tb, nm)), four + [s(j) for j in range(extra)] + [m], "pppp" + "s" * (extra + 1), "m", signed() + general(), **info)


def stable(F, args, base, eps):
    ok = np.ones(len(args[0]), bool)
    for k, a in enumerate(args):
        for c in [()] if a.ndim == 1 else [(j,) for j in range(a.shape[1])]:
            nrm = np.abs(a) if a.ndim == 1 else np.sqrt((a * a).sum(-1))
            for s in (64, -64):
                b = a.copy()
                b[(slice(None),) + c] += (s * eps * nrm).astype(a.dtype)
                ok &= F([b if i == k else z for i, z in enumerate(args)])[0] == base
    return ok


def run_predicates(ctx, p):
    import astrodynx as adx

    tb = adx.twobody
    r, v, lab = table(ctx)
    n = len(r)
    one = np.ones(n, ctx.dtype)
    kep = meta.Batch(adx.prop.kepler)
    G = signed() + general()
    F = {
        "is_short_way": (meta.Batch(lambda a, b, c, m: tb.is_short_way(a, b, c)), "ppps"),
        "pass_perigee": (meta.Batch(tb.pass_perigee), "ppps"),
        "rp_islower_rmin": (meta.Batch(lambda rm, a, b, m: tb.rp_islower_rmin(rm, a, b, m)), "spps"),
    }
    for t in (0.2, 1.0, -1.0, 4.0) if ctx.tier == "quick" else (0.05, 0.2, 0.6, 1.0, -1.0, 2.5, 4.0, -9.0):
        mu = cast(ctx, one * 1.3)
        vm = cast(ctx, v * np.sqrt(1.3))
        a, b = kep([np.repeat(cast(ctx, [[t, t, t]]), n, 0), r, vm, mu])
        r2, v2 = a[:, 0], b[:, 0]
        for nm, (f, kinds) in F.items():
            args = [r, vm, r2, mu] if kinds[0] == "p" else [cast(ctx, np.resize([0.5, 0.999, 1.3], n)), r, vm, mu]
            base = f(args)[0]
            ok = stable(f, args, base, ctx.eps)
            if nm == "pass_perigee":
                ok &= lab[:, 0] > 1e-6  # a circular orbit has no perigee
            ctx.extra["predicates at their boundary, not compared"] = ctx.extra.get("predicates at their boundary, not compared", 0) + int((~ok).sum())
            info = dict(function=nm, e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2], time=t)
            for gn, Q in G:
                got = f([cast(ctx, z.astype(LD) if k == "s" else ap(Q, z)) for z, k in zip(args, kinds)])[0]
                ctx.close(f"{nm}: unchanged in another frame", np.where(ok, got, base).astype(float), base.astype(float), 0, frame=gn, **info)
                ctx.count(states=n, traces=n)
            if nm == "rp_islower_rmin":
                got = f([args[0], r, -vm, mu])[0]
                ctx.close(f"{nm}: unchanged by reversal", np.where(ok, got, base).astype(float), base.astype(float), 0, **info)
                # a scalar of the whole trajectory: the same at its other end
                q = [args[0], r2, v2, mu]
                ok2 = ok & stable(f, q, f(q)[0], 64 * ctx.eps) if ctx.x64 else ok & False
                ctx.close(f"{nm}: the same along the trajectory", np.where(ok2, f(q)[0], base).astype(float), base.astype(float), 0, **info)
            elif t > 0:
                # the same arc flown backwards
                q = [r2, -v2, r, mu]
                g = f(q)[0]
                ok2 = ok & stable(f, q, g, ctx.eps)
                # boundary of the arc itself: only compare when the end state's rounding does not decide
                if not ctx.x64:
                    ok2 &= stable(f, args, base, 2e4 * ctx.eps) & stable(f, q, g, 2e4 * ctx.eps)
                else:
                    ok2 &= stable(f, args, base, 1e8 * ctx.eps) & stable(f, q, g, 1e8 * ctx.eps)
                ctx.close(f"{nm}: the same for the arc flown backwards", np.where(ok2, g, base).astype(float), base.astype(float), 0, **info)
                ctx.extra["reversed arcs compared"] = ctx.extra.get("reversed arcs compared", 0) + int(ok2.sum())
        ctx.count(transitions=sum(f.n for f, _ in F.values()))


def run_forces(ctx, p):
    import astrodynx as adx

    g = adx.gravity
    r, v, lab = table(ctx)
    # add positions on and near the axis, the equator and the coordinate planes
    sp = np.array(list(itertools.product((-1.0, -1e-3, 0.0, 1e-3, 1.0), repeat=3)))
    sp = sp[(np.abs(sp) == 1).any(1)]
    r = np.concatenate([r, cast(ctx, sp * 1.7)])
    v = np.concatenate([v, np.resize(v, (len(sp), 3))])
    n = len(r)
    x = np.concatenate([r, v], 1)
    m = cast(ctx, 1 + 0.5 * np.sin(np.arange(n)))
    R = cast(ctx, 0.8 + 0.3 * np.cos(np.arange(n)))
    info = dict(position=r)
    compare(ctx, "point_mass_grav", meta.Batch(lambda a, b: g.point_mass_grav(0.0, a, {"mu": b})), [x, m], "xs", "p", signed() + general(), **info)
    for nm, J in (("j2_acc", "J2"), ("j3_acc", "J3"), ("j4_acc", "J4")):
        f = meta.Batch(lambda a, mu, j, Re, nm=nm, J=J: getattr(g, nm)(0.0, a, {"mu": mu, J: j, "R_eq": Re}))
        for j in (0.02, -0.03):
            jj = np.full(n, j, ctx.dtype)
            base, amp = meta.spread(f, [x, m, jj, R], ctx.eps)
            for gn, Q in axial():
                s = -1 if nm == "j3_acc" and Q[2, 2] < 0 else 1
                y = np.concatenate([ap(Q, r), ap(Q, v)], 1)
                got = f([cast(ctx, y), m, jj * ctx.dtype(s), R])[0]
                ctx.close(f"{nm}: symmetry of the axisymmetric body", got, ap(Q, base[0]), 24 * ctx.eps * amp[0], frame=gn, coefficient=j, **info)
                ctx.count(states=n, traces=n)
            # the direction is in the meridian plane: no torque about the axis
            a = base[0].astype(LD)
            ctx.close(f"{nm}: no torque about the axis", r[:, 0] * a[:, 1] - r[:, 1] * a[:, 0], np.zeros(n), 24 * ctx.eps * amp[0][:, 0] * ref.norm(r.astype(LD)), coefficient=j, **info)
            # velocity does not matter
            y = x.copy()
            y[:, 3:] *= -1
            ctx.close(f"{nm}: unchanged by reversal of the velocity", f([y, m, jj, R])[0], base[0], 24 * ctx.eps * amp[0], coefficient=j, **info)
        ctx.count(transitions=f.n)


def run_elements(ctx, p):
    import astrodynx as adx

    r, v, lab = table(ctx)
    n = len(r)
    m = np.resize(np.array([1.0, 0.6, 2.0], ctx.dtype), n)
    v = (v * np.sqrt(m)[:, None]).astype(ctx.dtype)
    f = meta.Batch(adx.rv2coe)
    PI = ref.PI
    base, amp = meta.spread(f, [r, v, m], ctx.eps, diff=lambda a, b: np.abs(a.astype(LD) - b))
    # angles: amplification on the circle
    _, ampc = meta.spread(f, [r, v, m], ctx.eps, diff=lambda a, b: cdiff(a.astype(LD) - b))
    o = [b.astype(LD) for b in base]
    e, inc = lab[:, 0], o[2]
    node, peri = np.abs(np.sin(inc.astype(float))) > 1e-2, e > 1e-2
    good = [np.ones(n, bool), np.ones(n, bool), np.ones(n, bool), node, node & peri, peri]
    names = ("semiparameter", "eccentricity", "inclination", "node", "argument of periapsis", "true anomaly")
    R = {"frame " + gn: (Q, 1) for gn, Q in axial()}
    R["reversed velocity"] = (np.eye(3, dtype=LD), -1)
    R["reversed velocity, mirrored"] = (np.diag([LD(1), LD(-1), LD(1)]), -1)
    every = {gn: (Q, 1) for gn, Q in signed() + general()}
    for gn, (Q, s) in list(R.items()) + list(every.items()):
        got = f([cast(ctx, ap(Q, r)), cast(ctx, s * ap(Q, v)), m])
        want = list(o)
        if gn in R:
            # every symmetry of the axis is: a mirror z -> -z or not, a mirror y -> -y or not, a turn about z
            q3 = float(Q[2, 2])
            P = Q.copy()
            w = [o[2], o[3], o[4], o[5]]
            if s < 0:  # velocity reversal
                w = [PI - w[0], w[1] + PI, PI - w[2], -w[3]]
            if q3 < 0:  # mirror in the equatorial plane
                w = [w[0], w[1] + PI, w[2] + PI, w[3]]
                P = P @ np.diag([LD(1), LD(1), LD(-1)])
            if det(P) < 0:  # mirror y -> -y
                w = [PI - w[0], -w[1], w[2], w[3]]
                P = P @ np.diag([LD(1), LD(-1), LD(1)])
            th = np.arctan2(P[1, 0], P[0, 0])
            w[1] = w[1] + th
            want[2:] = w
            idx = range(6)
        else:
            idx = (0, 1, 5)
        for i in idx:
            k = good[i]
            tol = 24 * ctx.eps * (amp[i] if i < 2 else ampc[i] + 7)
            if i == 2:  # an inclination is found through its cosine
                tol = tol + 24 * ctx.eps / np.maximum(np.sin(np.abs(inc)), np.sqrt(ctx.eps))
            diff = got[i].astype(LD) - want[i]
            if i > 2:
                diff = cdiff(diff)
            ctx.close(f"{names[i]}: transforms with the frame", diff[k], np.zeros(int(k.sum())), tol[k], frame=gn, e=lab[k, 0], f=lab[k, 1], orientation=lab[k, 2])
        ctx.count(states=n, traces=n)
    ctx.count(transitions=f.n)
    ctx.sample(rows=n, frames=len(R) + len(every))


def run_propagation(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq

    q = ctx.tier == "quick"
    P = adx.prop
    X0, lab = dyn.states([0.0, 0.4, 0.8, 1.3], [0.4, 2.2], [0, 1, 3, 4] if q else range(10))
    X0 = cast(ctx, X0)
    n = len(X0)
    J = dict(J2=0.02, J3=-0.006, J4=0.008)
    T = 2.0

    def entry(kind, sub):
        terms = diffeq.ODETerm(dyn.field(adx, sub))

        def call(x, j3, t):
            od = P.OrbDynx(terms, {"mu": 1.0, "J2": J["J2"], "J3": j3, "J4": J["J4"], "R_eq": 0.9})
            if kind == "fixed":
                s = P.fixed_steps(od, x, t, t / 24, max_steps=30)
            elif kind == "custom":
                s = P.custom_steps(od, x, t, jnp.asarray([0.3, 0.7, 1.0]) * t)
            elif kind == "final":
                s = P.to_final(od, x, t)
            elif kind == "adaptive":
                s = P.adaptive_steps(od, x, t, max_steps=200)
            else:
                s = P.cowell_method(od, x, t, diffeq.SaveAt(t1=True), dt0=t / 50, max_steps=200)
            return s.ts, s.ys

        return jax.jit(jax.vmap(call))

    kinds = ("fixed", "custom", "final", "adaptive", "cowell")
    rev = np.concatenate([np.ones(3), -np.ones(3)])
    for sub, kind in list(itertools.product(dyn.subsets(), kinds))[p["part"] :: 3]:
        f = entry(kind, sub)
        for sgn in (1, -1):
            t = np.full(n, sgn * T, ctx.dtype)
            j3 = np.full(n, J["J3"], ctx.dtype)
            ts, ys = (np.asarray(z) for z in f(X0, j3, t))
            cr, cv = dyn.cond(X0, t, 1.0)
            w = 64 * ctx.eps if kind == "fixed" else (1e-6 if ctx.x64 else 1e-4)
            tol = (np.concatenate([np.repeat(cr[:, None], 3, 1), np.repeat(cv[:, None], 3, 1)], 1) * w)[:, None, :]
            G = (signed() + general()) if sub == ("point_mass_grav",) else axial()
            if q and kind != "fixed":
                G = G[::5] + G[-2:]
            for gn, Q in G + [("reversal", None)]:
                if Q is None:
                    x, a3, tt = X0 * rev, j3, -t
                    mv = lambda y: y * rev
                else:
                    mv = lambda y: np.concatenate([ap(Q, y[..., :3]), ap(Q, y[..., 3:])], -1)
                    x, tt = mv(X0), t
                    a3 = -j3 if Q[2, 2] < 0 and "j3_acc" in sub else j3
                tb, yb = (np.asarray(z) for z in f(cast(ctx, x), a3, tt))
                info = dict(terms=dyn.name(sub), entry=kind, frame=gn, e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2], sign=sgn)
                if kind == "adaptive":  # steps may differ by rounding: compare the end of the run
                    pick = lambda a, y: np.array([z[np.isfinite(s_)][-1] for s_, z in zip(a, y)])
                    A, B = pick(tb, yb)[:, None], pick(ts, ys)[:, None]
                else:
                    A, B = yb, ys
                fin = np.isfinite(B)
                ctx.check((np.isfinite(A) == fin).all(), f"{kind}: same number of samples", **info)
                ctx.close(f"{kind}: trajectory transforms with the frame", np.where(fin, A, 0), np.where(fin, mv(B), 0), tol, **info)
                ctx.count(states=n, traces=n, transitions=n)
    ctx.sample(orbits=n)
