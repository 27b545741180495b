"""C09: numerical propagation against the exact two-body flow and an independent integrator."""
import numpy as np

from mc import domains as dom
from mc import dyn
from mc import ref

BOUNDS = (
    "initial states: eccentricities {0..3} x epoch anomalies x 5 orientations; final times of both signs; all 8 subsets of the zonal terms on top of the "
    "point mass, with two different parameter sets; all five entry points (general method with three sampling modes, fixed, adaptive, requested times, final); "
    "float32 and float64; point-mass problems also in other unit systems"
)
ASSUMPTIONS = [
    "reference: exact two-body solution (80-bit) or DOP853 at 3e-14 on the complex-step gradient of the potential",
    "error bound: the controller's tolerance (1e-8 per step) or working precision, times number of steps and the amplification of the flow",
]
LD = np.longdouble


def jobs(tier):
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        out.append((f"units-{s}", x, dict(kind="units")))
        out.append((f"plain-{s}", x, dict(kind="plain")))
    for x in (False, True):
        s = "f64" if x else "f32"
        for k, sub in enumerate(dyn.subsets()):
            out.append((f"{dyn.name(sub)}-{s}", x, dict(sub=sub, kind="sub")))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def entry_points(adx, sub):
    """Each returns a function (x0, t1, args, frac) -> (ts, ys) suited to vmap; frac: fractions of t1 requested."""
    from astrodynx import diffeq

    terms = diffeq.ODETerm(dyn.field(adx, sub))
    P = adx.prop
    od = lambda a: P.OrbDynx(terms=terms, args=a)
    out = lambda s: (s.ts, s.ys)
    return {
        "to_final": lambda x, t, a, fr: out(P.to_final(od(a), x, t)),
        "custom_steps": lambda x, t, a, fr: out(P.custom_steps(od(a), x, t, fr * t)),
        "adaptive_steps": lambda x, t, a, fr: out(P.adaptive_steps(od(a), x, t, max_steps=1024)),
        "fixed_steps": lambda x, t, a, fr: out(P.fixed_steps(od(a), x, t, t / 256, max_steps=260)),
        "cowell(t1)": lambda x, t, a, fr: out(P.cowell_method(od(a), x, t, diffeq.SaveAt(t1=True))),
        "cowell(ts)": lambda x, t, a, fr: out(P.cowell_method(od(a), x, t, diffeq.SaveAt(ts=fr * t))),
        "cowell(t0,steps)": lambda x, t, a, fr: out(P.cowell_method(od(a), x, t, diffeq.SaveAt(t0=True, steps=True), max_steps=1024)),
    }


NST = (40, 100)
FR = np.array([0.0, 0.1, 0.25, 0.5, 0.77, 1.0])


def envelope(x0, mu, tmax):
    """Amplification of errors along each trajectory, as a running maximum over |t| <= tmax."""
    g = np.concatenate([np.linspace(0, 1, 25), -np.linspace(0, 1, 25)]) * tmax
    N = len(x0)
    X = np.repeat(np.asarray(x0, LD), len(g), 0)
    m = np.repeat(np.broadcast_to(np.asarray(mu, LD), (N,)), len(g))
    cr, cv = [c.reshape(N, 2, 25) for c in dyn.cond(X, np.tile(g, N).astype(LD), m)]
    cr, cv = np.maximum.accumulate(cr, -1), np.maximum.accumulate(cv, -1)
    grid = g[:25]

    def at(ts):
        k = np.minimum(np.searchsorted(grid, np.abs(np.asarray(ts, float)) - 1e-9 * tmax), 24)
        s = (np.asarray(ts) < 0).astype(int)
        i = np.arange(N)[:, None]
        return cr[i, s, k], cv[i, s, k]

    return at


def tolerance(ctx, env, ts, nsteps):
    """Per sample position/velocity tolerance; ts (N,M)."""
    cr, cv = env(ts)
    k = (1e-8 + ctx.eps * 4) * nsteps
    return k * cr, k * cv


def run_sub(ctx, p):
    import jax
    import astrodynx as adx

    sub = tuple(p["sub"])
    pm = len(sub) == 1
    q = ctx.tier == "quick"
    es = [0.0, 0.05, 0.4, 0.75, 1.0, 1.6] if q else [0.0, 0.01, 0.05, 0.2, 0.4, 0.6, 0.75, 0.9, 1.0, 1.2, 1.6, 3.0]
    fs = [0.0, 2.0, -1.2, np.pi] if q else [0.0, 0.6, 1.3, 2.0, -0.5, -1.2, -2.4, np.pi]
    fs_ = lambda e: fs
    X, lab = dyn.states(es, fs, (1, 3, 4) if q else (0, 1, 2, 3, 4))
    keep = ~((lab[:, 0] >= 1) & (np.abs(lab[:, 1]) > 1.5))
    X, lab = X[keep], lab[keep]
    tlist = [5.0, -2.75] if q else [0.1, 5.0, -2.75, 12.0, -9.0]
    psets = [dict(mu=1.0, J2=4e-3, J3=-3e-3, J4=2e-3, R_eq=0.9)]
    if not q or sub == dyn.subsets()[-1] or pm:
        psets.append(dict(mu=1.3, J2=-2e-3, J3=2.5e-3, J4=-3e-3, R_eq=1.1))
    n = len(X)
    x0 = X.astype(ctx.dtype)
    fns = {k: jax.jit(jax.vmap(f, in_axes=(0, 0, 0, None))) for k, f in entry_points(adx, sub).items()}
    for a in psets:
        need = ["mu"] + [dyn.JKEY[s] for s in sub[1:]] + (["R_eq"] if not pm else [])
        args = {k: np.full(n, a[k], ctx.dtype) for k in need}
        a64 = {k: v.astype(float) for k, v in args.items()}
        tmax = max(abs(t) for t in tlist) * 1.001
        rfn = dyn.integrate(sub, x0.astype(float), a64, tmax)
        if pm:  # the independent integrator against the exact solution
            for t in np.linspace(-tmax, tmax, 9):
                ex = np.concatenate(ref.kepler(np.full(n, t, LD), x0[:, :3].astype(LD), x0[:, 3:].astype(LD), a64["mu"].astype(LD)), -1)
                dif = np.abs(np.array([rfn(i, [t])[0] for i in range(n)]) - ex).max()
                assert dif < 1e-9, dif
        env = envelope(x0, a64["mu"], tmax)
        for nm, f in fns.items():
            for t1 in tlist:
                T = np.full(n, t1, ctx.dtype)
                ts, ys = map(np.asarray, f(x0, T, args, FR.astype(ctx.dtype)))
                ts, ys, valid = trim(ctx, ts, ys, nm, t1, lab)
                if ts is None:
                    continue
                tt = np.where(valid, ts, 0).astype(LD)
                tr, tv = tolerance(ctx, env, tt, NST[nm == "fixed_steps"])
                if nm == "fixed_steps":
                    # order-5 truncation error of the fixed step, measured in local dynamical times at periapsis
                    h = abs(t1) / 256
                    extra = np.where(lab[:, 0] > 0.7, 8, 2) * h**5 * 0.3
                    tr, tv = tr + (extra[:, None] * tr / (1e-8 + 4 * ctx.eps) / NST[1]), tv + (extra[:, None] * tv / (1e-8 + 4 * ctx.eps) / NST[1])
                want = np.empty(ys.shape, LD)
                for i in range(n):
                    want[i] = rfn(i, np.asarray(tt[i], float))
                V = valid[:, :, None]
                w = np.where(V, want, 0)
                g = np.where(V, ys, 0)
                case = dict(e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2], t1=t1, entry=nm, params=str(a))
                ctx.close(f"{nm}: position on the true trajectory", g[..., :3], w[..., :3], tr[:, :, None] + 1e-30, **case)
                ctx.close(f"{nm}: velocity on the true trajectory", g[..., 3:], w[..., 3:], tv[:, :, None] + 1e-30, **case)
                ctx.count(states=int(valid.sum()), traces=n)
        if not pm:
            # the zonal terms matter at all in this configuration
            d = np.abs(np.array([rfn(i, [tlist[0]])[0] for i in range(n)]) - np.concatenate(ref.kepler(np.full(n, tlist[0], LD), x0[:, :3].astype(LD), x0[:, 3:].astype(LD), a64["mu"].astype(LD)), -1)).max()
            assert d > 1e-4, d


def trim(ctx, ts, ys, nm, t1, lab):
    """Valid prefix of the padded output; also checks that it reaches t1 and starts where it should."""
    valid = np.isfinite(ts)
    cnt = valid.sum(1)
    m = int(cnt.max())
    ok = (valid[:, :m].cumprod(1).sum(1) == cnt).all() and cnt.min() > 0
    ctx.check(ok, f"{nm}: samples form a prefix", entry=nm, t1=t1)
    if not ok:
        return None, None, None
    last = ts[np.arange(len(ts)), cnt - 1]
    ctx.close(f"{nm}: reaches the final time", last, np.full(len(ts), t1), abs(t1) * 4 * ctx.eps, entry=nm, t1=t1, e=lab[:, 0], f=lab[:, 1])
    return ts[:, :m], ys[:, :m], valid[:, :m]


def run_units(ctx, p):
    """Point mass and J2 in other unit systems (f64: all; f32: moderate numbers)."""
    import jax
    import astrodynx as adx

    units = [("earth km", 7000.0, 398600.4418), ("au day", 1.0, 2.9591220828e-4), ("mu=.02", 4.0, 0.02)]
    if ctx.x64:
        units += [("earth m", 7.0e6, 3.986004418e14), ("small", 2.0**-3, 3.0)]
    fns = {k: jax.jit(jax.vmap(f, in_axes=(0, 0, 0, None))) for k, f in entry_points(adx, ("point_mass_grav",)).items()}
    for lab, L, mu in units:
        X, lb = dyn.states([0.0, 0.3, 0.7, 1.3], [0.0, 1.2, -1.0], (1, 3, 4) if ctx.tier != 'quick' else (3, 4), L, mu)
        T = float(np.sqrt(L**3 / mu))
        x0 = X.astype(ctx.dtype)
        n = len(x0)
        args = {"mu": np.full(n, mu, ctx.dtype)}
        env = envelope(x0, mu, 4.01 * T)
        for nm, f in fns.items():
            for c in (4.0, -3.0):
                t1 = c * T
                ts, ys = map(np.asarray, f(x0, np.full(n, t1, ctx.dtype), args, FR.astype(ctx.dtype)))
                ts, ys, valid = trim(ctx, ts, ys, nm, float(ctx.dtype(t1)), lb)
                if ts is None:
                    continue
                tt = np.where(valid, ts, 0).astype(LD)
                tr, tv = tolerance(ctx, env, tt, 2 * NST[nm == "fixed_steps"])
                # absolute tolerance of 1e-8 in the caller's units
                ab = max(1e-8 / L, 1e-8 * T / L) / 1e-8
                tr, tv = tr * (1 + ab), tv * (1 + ab)
                M = ts.shape[1]
                r, v = ref.kepler(tt.reshape(-1), np.repeat(x0[:, :3].astype(LD), M, 0), np.repeat(x0[:, 3:].astype(LD), M, 0), LD(ctx.dtype(mu)))
                want = np.where(valid[:, :, None], np.concatenate([r, v], -1).reshape(ys.shape), 0)
                g = np.where(valid[:, :, None], ys, 0)
                case = dict(e=lb[:, 0], f=lb[:, 1], t1=t1, entry=nm, units=lab)
                ctx.close(f"{nm}: position in other units", g[..., :3], want[..., :3], tr[:, :, None], **case)
                ctx.close(f"{nm}: velocity in other units", g[..., 3:], want[..., 3:], tv[:, :, None], **case)
                ctx.count(states=int(valid.sum()), traces=n)


def run_plain(ctx, p):
    """Uncompiled calls as in the documentation, and agreement with the library's own Kepler propagator."""
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq

    P = adx.prop
    vf = dyn.field(adx, ("point_mass_grav",))
    od = P.OrbDynx(terms=diffeq.ODETerm(vf))  # default arguments: mu = 1
    X, lb = dyn.states([0.0, 0.5, 1.2], [0.3], (3,))
    for i in range(len(X)):
        x0 = jnp.asarray(X[i].astype(ctx.dtype))
        for t1 in (2.5, -1.5, 4):
            k = np.concatenate(P.kepler(t1, x0[:3], x0[3:]), -1)[0].astype(LD)
            ek = np.concatenate(ref.kepler(LD(t1), np.asarray(x0[:3], LD), np.asarray(x0[3:], LD), LD(1)), -1)
            runs = {
                "to_final": P.to_final(od, x0, t1),
                "custom_steps": P.custom_steps(od, x0, t1, jnp.asarray([t1 * 0.5, t1])),
                "adaptive_steps": P.adaptive_steps(od, x0, t1),
                "fixed_steps": P.fixed_steps(od, x0, t1, t1 / 200),
                "cowell dense": P.cowell_method(od, x0, t1, diffeq.SaveAt(dense=True, subs=diffeq.SubSaveAt(t1=True))),
            }
            for nm, s in runs.items():
                ts = np.asarray(s.ts)
                y = np.asarray(s.ys)[np.isfinite(ts)][-1]
                t = 2e-5 if not ctx.x64 else 3e-6
                ctx.close(f"{nm}: plain call ends on the Kepler trajectory", y, ek, t, e=lb[i, 0], t1=t1)
                ctx.close(f"{nm}: plain call agrees with prop.kepler", y, k, t, e=lb[i, 0], t1=t1)
                ctx.count(states=1, traces=1)
            h = np.asarray(runs["cowell dense"].evaluate(t1 / 2))
            eh = np.concatenate(ref.kepler(LD(t1) / 2, np.asarray(x0[:3], LD), np.asarray(x0[3:], LD), LD(1)), -1)
            ctx.close("cowell dense: interpolation", h, eh, 2e-5 if not ctx.x64 else 3e-6, e=lb[i, 0], t1=t1)
