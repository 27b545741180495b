"""C19: the same problem in other consistent units of length and time."""
import itertools

import numpy as np

from mc import meta, ref

BOUNDS = (
    "every public function with a dimension (43 of the catalogue) x 12 value sets in 4 (quick) / 12 (thorough) arrangements x unit systems: length factors 2^a and time factors 2^b over "
    "a in -40..38, b in -20..26 (float64; -10..23, -12..12 in float32), including odd exponents and six real unit changes (km, m, AU, day, year); numerical propagation: force subsets x orbits x entry points with "
    "fixed and purely relative adaptive stepping, with and without the radius event"
)
ASSUMPTIONS = [
    "rounding: a difference is attributed to rounding up to a multiple of machine precision times the measured amplification of input changes",
    "the iterative solvers stop at an absolute residual by design: their results are compared up to that residual in each unit system",
    "float32 is compared in unit systems with a gravitational parameter within 2^70 of one, and zonal terms within the exponent range of the format (the overflow in metres is a recorded finding of C08)",
]
LD = np.longdouble
# dimension of each argument and output: (power of length, power of time)
Z, Lg, Ti, Ve, Mu, Ac = (0, 0), (1, 0), (0, 1), (1, -1), (3, -2), (1, -2)
h1, Am, Al = (0.5, 0), (2, -1), (-1, 0)
U = lambda n: (n / 2, 0)
X = (Lg,) * 3 + (Ve,) * 3
DXDX = tuple(tuple((0, (0 if j < 3 else 1) + (0 if i < 3 else -1)) for j in range(6)) for i in range(6))
DIM = {
    "kepler_equ_uni": ([h1, Al, Lg, h1, Ti, Mu], [U(3)]),
    "generalized_anomaly": ([Al, h1, h1, Ti, Mu], [h1]),
    "mean_anomaly_elps": ([Lg, Ti, Mu], [Z]),
    "mean_anomaly_hypb": ([Lg, Ti, Mu], [Z]),
    "solve_kepler_uni": ([Ti, Al, Lg, h1, Mu], [h1]),
    "orb_period": ([Lg, Mu], [Ti]),
    "a_from_period": ([Ti, Mu], [Lg]),
    "angular_momentum": ([Lg, Ve], [Am]),
    "semimajor_axis": ([Lg, Ve, Mu], [Lg]),
    "eccentricity_vector": ([Lg, Ve, Mu], [Z]),
    "semiparameter": ([Am, Mu], [Lg]),
    "mean_motion": ([Ti], [(0, -1)]),
    "equ_of_orbit": ([Lg, Z, Z], [Lg]),
    "equ_of_orb_uvi": ([Z, U(1), U(2), Lg, h1], [Lg]),
    "radius_periapsis": ([Lg, Z], [Lg]),
    "radius_apoapsis": ([Lg, Z], [Lg]),
    "semipara_from_ae": ([Lg, Z], [Lg]),
    "a_from_pe": ([Lg, Z], [Lg]),
    "rv2coe": ([Lg, Ve, Mu], [Lg, Z, Z, Z, Z, Z]),
    "coe2rv": ([Lg, Z, Z, Z, Z, Z, Mu], [Lg, Ve]),
    "inclination": ([Am], [Z]),
    "true_anomaly": ([Lg, Z], [Z]),
    "right_ascension": ([Am], [Z]),
    "argument_of_periapsis": ([Am, Z], [Z]),
    "sigma_fn": ([Lg, Ve, Mu], [h1]),
    "lagrange_F": ([U(2), Lg], [Z]),
    "lagrange_G": ([U(1), U(2), h1, Lg, Mu], [Ti]),
    "lagrange_Ft": ([U(1), Lg, Lg, Mu], [(0, -1)]),
    "lagrange_Gt": ([U(2), Lg], [Z]),
    "C_func": ([h1, U(2), U(4), U(5), Ti, Mu], [(1, 1)]),
    "prpr0": ([Lg, Ve, Lg, Ve, Z, (1, 1), Mu], [Z]),
    "prpv0": ([Lg, Ve, Lg, Ve, Z, Ti, (1, 1), Mu], [Ti]),
    "pvpr0": ([Lg, Ve, Lg, Ve, (0, -1), (1, 1), Mu], [(0, -1)]),
    "pvpv0": ([Lg, Ve, Lg, Ve, Z, Z, (1, 1), Mu], [Z]),
    "nmax_by_periapsis": ([Lg, Lg, Lg, Ti, Mu], [Z]),
    "is_short_way": ([Lg, Ve, Lg], [Z]),
    "pass_perigee": ([Lg, Ve, Lg, Mu], [Z]),
    "rp_islower_rmin": ([Lg, Lg, Ve, Mu], [Z]),
    "point_mass_grav": ([X, Mu], [Ac]),
    "j2_acc": ([X, Mu, Z, Lg], [Ac]),
    "j3_acc": ([X, Mu, Z, Lg], [Ac]),
    "j4_acc": ([X, Mu, Z, Lg], [Ac]),
    "radius_islow": ([X, Lg], [Lg]),
    "kepler": ([Ti, Lg, Ve, Mu], [Lg, Ve]),
    **{f"ufunc{n}": ([h1, Al], [U(n)]) for n in range(6)},
}
ANGLES = {"rv2coe": (2, 3, 4, 5), "inclination": (0,), "true_anomaly": (0,), "right_ascension": (0,), "argument_of_periapsis": (0,)}
TIME = {"solve_kepler_uni": 0, "kepler": 0}  # functions that stop at an absolute residual: index of the time
SOLVE = {"solve_kepler_uni": (2, 4), "kepler": (1, 3)}  # index of the starting radius, of mu
SLOW = ("kepler", "solve_kepler_uni")
DAY, YEAR, AU = 86400.0, 31557600.0, 149597870.7


def units(x64):
    """(length factor, time factor)"""
    if x64:
        out = [(2.0**a, 2.0**b) for a in (-40, -10, 0, 10, 24, 38) for b in (-20, 0, 12, 26)]
        out += [(2.0**7, 2.0**-3), (2.0**-13, 2.0**5)]
        out += [(6378.137, 806.8109), (6378137.0, 806.8109), (1737400.0, 1034.3), (1 / AU, 1 / DAY), (AU, YEAR / (2 * np.pi)), (1000.0, 1.0), (1.0, DAY)]
    else:
        out = [(2.0**a, 2.0**b) for a in (-10, 0, 10, 23) for b in (-12, 0, 12)]
        out += [(2.0**7, 2.0**-3), (2.0**-9, 2.0**5), (6378.137, 806.8109), (6378137.0, 806.8109), (1000.0, 1.0), (1.0, DAY)]
        out = [u for u in out if abs(np.log2(u[0] ** 3 / u[1] ** 2)) < 70]  # intermediate products stay in the range of the format
    return [u for u in out if u != (1.0, 1.0)]


def jobs(tier):
    out = []
    for x in (True, False):
        s = "f64" if x else "f32"
        for nm in SLOW:
            out.append((f"{nm}-{s}", x, dict(kind="fns", names=[nm])))
        out += [(f"propagation-{s}-{g}", x, dict(kind="propagation", part=g)) for g in range(3)]
        out.append((f"matrix-{s}", x, dict(kind="matrix")))
        rest = [n for n in DIM if n not in SLOW]
        for g in range(4):
            out.append((f"functions-{s}-{g}", x, dict(kind="fns", names=rest[g::4])))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def factor(dim, lam, tau):
    """Exact scale factor of a quantity (longdouble), arrays of dimensions elementwise."""
    d = np.array(dim, float)
    return LD(lam) ** d[..., 0] * LD(tau) ** d[..., 1]


def circ(d):
    d = np.abs(d) % (2 * ref.PI)
    return np.minimum(d, 2 * ref.PI - d)


def run_fns(ctx, p):
    import astrodynx as adx
    from mc import catalog as cat

    C = {f.name: f for f in cat.catalog(adx)}
    assert set(DIM) <= set(C)
    q = ctx.tier == "quick"
    eps = ctx.eps
    for nm in p["names"]:
        f = C[nm]
        ain, aout = DIM[nm]
        vals = f.values(ctx.dtype)
        args = meta.tuples(vals, (0, 1, 5, 7) if q else range(12))
        F = meta.Batch(f.call, 1024 if q else 4096)
        ang = ANGLES.get(nm, ())
        base, amp = meta.spread(F, args, eps)
        n = len(args[0])
        lost = [0.0] * len(base)
        if nm in TIME:
            k = TIME[nm]
            eta = 2.0**-20 if ctx.x64 else 2.0**-9
            b = list(args)
            b[k] = (args[k] + ctx.dtype(eta)).astype(ctx.dtype)
            got = F(b)
            lost = [meta.size(g.astype(LD) - o) / eta if g.ndim > 1 else np.abs(g.astype(LD) - o) / eta for g, o in zip(got, base)]
            ri, mi = SOLVE[nm]
            r0 = args[ri].astype(LD)
            r0 = ref.norm(r0) if r0.ndim > 1 else r0
            mu = args[mi].astype(LD)
            dt0 = 2e-6 * np.minimum(1, r0**1.5) / np.sqrt(mu)
        stable = np.ones(n, bool)
        if f.kinky:  # predicates and counts: only where a rounding of the input does not change them
            for k, a in enumerate(args):
                for s in (1 + 64 * eps, 1 - 64 * eps):
                    for c in [()] if a.ndim == 1 else [(j,) for j in range(a.shape[1])]:
                        b = a.copy()
                        b[(slice(None),) + c] *= ctx.dtype(s)
                        stable &= F([b if i == k else z for i, z in enumerate(args)])[0] == base[0]
            ctx.extra["predicates at their boundary, not compared"] = ctx.extra.get("predicates at their boundary, not compared", 0) + int((~stable).sum())
        ctx.check(all(np.isfinite(o.astype(float)).all() for o in base), "finite results in canonical units", function=nm)
        for lam, tau in units(ctx.x64):
            if not ctx.x64 and nm in ("j3_acc", "j4_acc") and lam > 2.0**11:
                continue
            sc = [(a.astype(LD) * factor(d, lam, tau)).astype(ctx.dtype) for a, d in zip(args, ain)]
            got = F(sc)
            for i, (g, o) in enumerate(zip(got, base)):
                back = g.astype(LD) / factor(aout[i], lam, tau)
                info = dict(function=nm, output=i, length=lam, time=tau, row=np.arange(n), **{a[0]: s for a, s in zip(f.args, sc)})
                if f.kinky:
                    ok = (g == o) | ~stable
                    ctx.close("same decision in other units", ok.astype(float), np.ones(n), 0, **info)
                    continue
                tol = 24 * eps * amp[i]
                if nm in ("ufunc3", "ufunc4", "ufunc5"):  # closed forms just outside the series' range
                    tol = tol + 24 * eps * np.abs(args[0].astype(LD)) ** int(nm[-1])
                if nm in TIME:
                    dt1 = 2e-6 * np.minimum(1, (r0 * lam) ** 1.5) / np.sqrt(mu * factor(Mu, lam, tau)) / tau
                    d = dt0 + dt1
                    tol = tol + lost[i] * d.reshape((n,) + (1,) * (np.ndim(lost[i]) - 1))
                if i in ang:
                    ctx.close(f"{nm}: same in other units", circ(back - o), np.zeros(o.shape, LD), tol, **info)
                else:
                    ctx.close(f"{nm}: same in other units", back, o.astype(LD), tol, **info)
                ctx.count(states=n, traces=n)
        ctx.count(transitions=F.n)
        ctx.sample(function=nm, tuples=n, evaluations=F.n)


def run_matrix(ctx, p):
    """Transition matrices of real arcs (the final state belongs to the initial one)."""
    import jax
    import astrodynx as adx
    from mc import domains as dom
    from mc.props import c07

    f = meta.Batch(adx.twobody.dxdx0, 1024)
    d = dom.table(tuple(dom.ecc(ctx.tier)), "quick", True, 4, 9)
    d = c07._take(d, c07.subset(d, ctx, c07.SPAN))
    Q = dom.rotations()
    base = None
    for lam, tau in [(1.0, 1.0)] + units(ctx.x64):
        o, want, sc = c07.setup(d, Q[4], lam, factor(Mu, lam, tau))
        un = want * 0 + factor(DXDX, lam, tau)
        c = lambda z: np.asarray(z).astype(ctx.dtype)
        n = len(d["dt"])
        got = f([c(o["r1"]), c(o["v1"]), c(o["r0"]), c(o["v0"]), c(o["dt"]), np.full(n, factor(Mu, lam, tau)).astype(ctx.dtype)])[0].astype(LD) / un
        tol = 2 * c07.K * ctx.eps * sc / un
        if base is None:
            base = got
            size = np.sqrt((want**2).sum((-1, -2)))
            ok = np.sqrt((tol**2).sum((-1, -2))) < 0.02 * size
            ctx.extra["matrices lost to rounding in the precision"] = int((~ok).sum())
            continue
        ctx.close("dxdx0: same in other units", got[ok], base[ok], tol[ok], e=d["e"][ok], f=d["f"][ok], dt=o["dt"][ok], length=lam, time=tau)
        ctx.count(states=n, traces=n)
    ctx.count(transitions=f.n)
    ctx.sample(function="dxdx0", problems=n)


def run_propagation(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq
    from mc import dyn

    q = ctx.tier == "quick"
    eps = ctx.eps
    subs = [dyn.subsets()[k] for k in (0, 1, 7)] if q else dyn.subsets()
    X0, lab = dyn.states([0.0, 0.3, 0.7, 1.3] if q else [0.0, 0.05, 0.3, 0.5, 0.7, 0.9, 1.0, 1.3, 2.0], [0.4, 2.3] if q else [0.4, -1.0, 2.3, 3.0], [3, 4])
    X0 = X0.astype(ctx.dtype)
    n = len(X0)
    a0 = dict(mu=1.0, J2=0.01, J3=-0.004, J4=0.006, R_eq=0.9)
    dims = dict(mu=Mu, J2=Z, J3=Z, J4=Z, R_eq=Lg, rmin=Lg)
    un = units(ctx.x64)
    un = un[:: 3 if q else 1]
    # bound the range in float32: the zonal terms overflow beyond it (recorded finding of C08)
    P = adx.prop
    rel = lambda: diffeq.PIDController(rtol=1e-8 if ctx.x64 else 1e-4, atol=0.0)
    ev = lambda: diffeq.Event(adx.events.radius_islow)
    T = 2.0

    def entry(kind, sub, event):
        terms = diffeq.ODETerm(dyn.field(adx, sub))

        def call(x, a, t):
            od = P.OrbDynx(terms, a, event)
            if kind == "fixed":
                s = P.fixed_steps(od, x, t, t / 32, max_steps=40)
            elif kind == "adaptive":
                s = P.adaptive_steps(od, x, t, max_steps=200, stepsize_controller=rel())
            elif kind == "custom":
                s = P.custom_steps(od, x, t, jnp.asarray([0.25, 0.75, 1.0]) * t, stepsize_controller=rel())
            elif kind == "final":
                s = P.to_final(od, x, t, stepsize_controller=rel())
            else:
                s = P.cowell_method(od, x, t, diffeq.SaveAt(ts=jnp.asarray([0.5, 1.0]) * t), dt0=t / 64, max_steps=200, stepsize_controller=rel())
            return s.ts, s.ys, s.stats["num_accepted_steps"]

        return jax.jit(jax.vmap(call))

    kinds = [(k, e) for k in ("fixed", "adaptive", "custom", "final", "cowell") for e in (None, "event") if not (k == "custom" and e)]
    holds = lambda ok, what, **kw: ctx.close(what, np.where(ok, 0.0, 1.0), np.zeros(len(ok)), 0.0, **kw)
    paths = {}
    for sub, (kind, e), sgn in list(itertools.product(subs, kinds, (1, -1)))[p["part"] :: 3]:
        f = entry(kind, sub, ev() if e else None)

        def go(lam, tau):
            x = (X0.astype(LD) * factor(X, lam, tau)).astype(ctx.dtype)
            a = {k: np.full(n, LD(v) * factor(dims[k], lam, tau)).astype(ctx.dtype) for k, v in a0.items()}
            if e:
                a["rmin"] = np.full(n, LD(1.25) * LD(lam)).astype(ctx.dtype)
            t = np.full(n, LD(sgn * T) * LD(tau)).astype(ctx.dtype)
            ts, ys, m = f(x, a, t)
            return np.asarray(ts).astype(LD) / tau, np.asarray(ys).astype(LD) / factor(X, lam, tau), np.asarray(m)

        ts, ys, m = go(1.0, 1.0)
        if e and kind != "fixed":
            if (sub, sgn) not in paths:
                at = {k: np.full(n, v).astype(ctx.dtype) for k, v in dict(a0, rmin=1.25).items()}
                yy = np.asarray(entry("fixed", sub, None)(X0, at, np.full(n, sgn * T).astype(ctx.dtype))[1]).astype(LD)
                paths[sub, sgn] = np.sqrt((yy[:, :, :3] ** 2).sum(-1))
            path = np.where(np.isfinite(paths[sub, sgn]), paths[sub, sgn], np.nan)
            oneside = (np.nanmin(path, 1) > 1.25 * 1.02) | (np.nanmax(path, 1) < 1.25 * 0.98)
            side = np.sign(path[:, 0] - 1.25)
            ctx.extra["event runs decided"] = ctx.extra.get("event runs decided", 0) + int(oneside.sum())
        # amplification along the flow
        cr, cv = dyn.cond(X0, np.full(n, sgn * T), 1.0)
        w = 64 * eps
        if kind != "fixed":
            w = 3e-7 if ctx.x64 else 3e-3
        tol = np.concatenate([np.repeat(cr[:, None], 3, 1), np.repeat(cv[:, None], 3, 1)], 1)[:, None, :] * w
        for lam, tau in un:
            if not ctx.x64 and lam > 2.0**11:
                continue
            t2, y2, m2 = go(lam, tau)
            info = dict(entry=kind, event=bool(e), terms=dyn.name(sub), length=lam, time=tau, orbit=lab, sign=sgn)
            if kind == "fixed" or kind == "custom" or (kind in ("final", "cowell") and not e):
                fin = np.isfinite(ts)
                ctx.close(f"{kind}: same sample times in other units", np.where(fin, t2, 0), np.where(fin, ts, 0), (4 * eps if kind != "fixed" else 64 * eps) * T, **info)
                ctx.check((np.isfinite(t2) == fin).all(), f"{kind}: same number of samples in other units", **info)
                if ys.ndim == 3:
                    fin = np.isfinite(ys)
                    ctx.close(f"{kind}: same states in other units", np.where(fin, y2, 0), np.where(fin, ys, 0), tol, **info)
            else:
                # adaptive steps may differ by rounding at a rejection: compare the end of the run
                def last(t, y):
                    k = [np.flatnonzero(np.isfinite(r))[-1:] for r in t]
                    return np.array([r[j][0] if len(j) else -1 for r, j in zip(t, k)]), np.array([v[j][0] if len(j) else v[0] * 0 - 1 for v, j in zip(y, k)])

                (ta, ya), (tb, yb) = last(ts, ys), last(t2, y2)
                same = m == m2
                ctx.extra["adaptive runs"] = ctx.extra.get("adaptive runs", 0) + n
                ctx.extra["adaptive runs with another number of steps"] = ctx.extra.get("adaptive runs with another number of steps", 0) + int((~same).sum())
                if e:
                    # the first trial step is the integrator's choice and not a homogeneous one, so the
                    # step ends, and with them the time the event is noticed, may differ; what may not
                    # differ is whether a run ends early, and that it ends early only on the other side of rmin
                    for tt, yy in ((ta, ya), (tb, yb)):
                        early = tt * sgn < T * (1 - 1e-3)
                        r = np.sqrt((yy[:, :3] ** 2).sum(-1))
                        if kind != "cowell":  # (there the last sample need not be the stop)
                            holds(~early | ((r - 1.25) * side < 1.25 * w), f"{kind}: a run that ends early has crossed rmin in any units", **info, end=tt, radius=r)
                        holds(~early | ~oneside, f"{kind}: a run that stays on one side of rmin goes on to the end in any units", **info, end=tt)
                else:
                    ctx.close(f"{kind}: end at the same time in other units", tb, ta, 4 * eps * T, **info)
                    ctx.close(f"{kind}: same final state in other units", yb, ya, tol[:, 0], **info)
            ctx.count(states=n, transitions=int(np.nansum(m2)), traces=n)
    ctx.sample(orbits=n, units=len(un), entries=len(kinds))
