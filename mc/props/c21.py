"""C21: conservation laws of zonal numerical propagation, and return to the start."""
import itertools

import numpy as np

from mc import dyn, ref

BOUNDS = (
    "all 8 force models (point mass with every subset of J2, J3, J4) x 3 parameter sets (canonical with strong zonals, the opposite signs with another radius, Earth in km) x conics of eccentricity 0..1.3 x anomalies x "
    "orientations (equatorial, polar, retrograde, general) x 8 sampling modes (float32 in the quick tier: four of the force models) x both directions of time, every returned sample; out-and-back runs; all hop words over {+a, -a, +b, -b} up to length 3 (quick) / 5 (thorough)"
)
ASSUMPTIONS = [
    "truncation error of the integrator is bounded by the requested tolerance times the number of steps times the amplification of the two-body flow, with a calibrated constant",
]
LD = np.longdouble
SETS = {
    "canonical": (1.0, 1.0, dict(mu=1.0, J2=0.015, J3=-0.004, J4=0.006, R_eq=0.9)),
    "opposite": (2.0, 0.7, dict(mu=0.7, J2=-0.01, J3=0.006, J4=-0.004, R_eq=1.9)),
    "earth": (7200.0, 398600.4418, dict(mu=398600.4418, J2=1.08262668e-3, J3=-2.5327e-6, J4=-1.6196e-6, R_eq=6378.137)),
}
MODES = ("fixed", "custom", "adaptive", "final", "steps", "ts", "t1", "event")


def jobs(tier):
    out = []
    for x in (True, False):
        s = "f64" if x else "f32"
        n = 6 if x else 3
        out += [(f"samples-{s}-{g}", x, dict(kind="samples", part=(g, n))) for g in range(n)]
        out += [(f"words-{s}-{g}", x, dict(kind="words", part=(g, 2))) for g in range(2)]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def problem(ctx, name):
    L, mu, a = SETS[name]
    q = ctx.tier == "quick"
    X, lab = dyn.states([0.0, 0.3, 0.7, 1.3] if q else [0.0, 0.05, 0.2, 0.4, 0.6, 0.8, 0.9, 1.0, 1.3, 2.0], [0.4, 2.2] if q else [0.0, 0.4, -1.2, 2.2, 3.1], [0, 1, 2, 4] if q else range(10), L, mu)
    X = X.astype(ctx.dtype)
    T = np.sqrt(LD(L) ** 3 / LD(mu))
    return X, lab, {k: np.full(len(X), v, ctx.dtype) for k, v in dict(a, rmin=1.4 * L).items()}, float(T), L


def invariants(sub, x, a):
    """Energy with the zonal potential, and polar angular momentum; x (..., 6) any precision, a rowwise."""
    s = x.shape
    y = x.reshape(-1, 6).astype(LD)
    n = len(y) // len(a["mu"])
    b = {k: np.repeat(v.astype(LD), n) for k, v in a.items()}
    E = (y[:, 3:] ** 2).sum(-1) / 2 - dyn.total_potential(sub, y[:, :3], b)
    h = y[:, 0] * y[:, 4] - y[:, 1] * y[:, 3]
    return E.reshape(s[:-1]), h.reshape(s[:-1])


def gradients(sub, x, a, tr, tv):
    """Bound on the change of the invariants for state errors tr, tv (per sample)."""
    s = x.shape
    y = x.reshape(-1, 6).astype(float)
    n = len(y) // len(a["mu"])
    b = {k: np.repeat(v.astype(float), n) for k, v in a.items()}
    g = np.sqrt((dyn.accel(sub, y[:, :3], b) ** 2).sum(-1)).reshape(s[:-1])
    r, v = (np.sqrt((x[..., k : k + 3].astype(LD) ** 2).sum(-1)) for k in (0, 3))
    return g * tr + v * tv, v * tr + r * tv


_amp = {}


def amplification(X, t, mu):
    """State error per unit relative error accumulated along the flow, (N, T) each: envelope of the transition matrix."""
    n, m = t.shape
    out = np.zeros((2, n, m), LD)
    for sg in (1.0, -1.0):
        span = float(np.max(np.where(sg * t > 0, np.abs(t), 0)))
        if not span:
            continue
        key = (X.tobytes(), float(mu), span, sg)
        if key not in _amp:
            k = 33
            u = np.linspace(0, 1, k) ** 1.5 * span
            cr, cv = dyn.cond(np.repeat(X, k, 0), np.tile(sg * u, n), np.full(n * k, mu))
            env = lambda c: np.maximum.accumulate(c.reshape(n, k), 1).astype(float)
            _amp[key] = u, env(cr), env(cv)
        u, cr, cv = _amp[key]
        j = np.minimum(np.searchsorted(u, np.abs(t)), len(u) - 1)
        for i, c in enumerate((cr, cv)):
            out[i] = np.where(sg * t > 0, np.take_along_axis(c, j, 1), out[i])
    z = t == 0
    out[0] = np.where(z, ref.norm(X[:, :3].astype(LD))[:, None], out[0])
    out[1] = np.where(z, ref.norm(X[:, 3:].astype(LD))[:, None], out[1])
    return out


def runner(adx, sub, mode, acc, x64):
    import diffrax
    import jax
    import jax.numpy as jnp
    from astrodynx import diffeq

    P = adx.prop
    terms = diffeq.ODETerm(dyn.field(adx, sub))
    kw = {}
    if acc == "tight":
        t = 1e-12 if x64 else 1e-6
        kw = dict(solver=diffrax.Dopri8(), stepsize_controller=diffeq.PIDController(rtol=t, atol=t))
    ev = diffeq.Event(adx.events.radius_islow)

    def call(x, a, t):
        od = P.OrbDynx(terms, a)
        if mode == "fixed":
            s = P.fixed_steps(od, x, t, t / 300, max_steps=310, solver=diffrax.Dopri8())
        elif mode == "custom":
            s = P.custom_steps(od, x, t, jnp.asarray([0.0, 0.1, 0.31, 0.5, 0.77, 0.9, 1.0]) * t, **kw)
        elif mode == "adaptive":
            s = P.adaptive_steps(od, x, t, max_steps=1000, **kw)
        elif mode == "final":
            s = P.to_final(od, x, t, **kw)
        elif mode == "steps":
            s = P.cowell_method(od, x, t, diffeq.SaveAt(t0=True, t1=True, steps=True), dt0=t / 100, max_steps=1000, **kw)
        elif mode == "ts":
            s = P.cowell_method(od, x, t, diffeq.SaveAt(ts=jnp.asarray([0.2, 0.55, 1.0]) * t), **kw)
        elif mode == "t1":
            s = P.cowell_method(od, x, t, diffeq.SaveAt(t0=True, t1=True), dt0=t / 1000, **kw)
        else:
            s = P.adaptive_steps(P.OrbDynx(terms, a, ev), x, t, max_steps=1000, **kw)
        return s.ts, s.ys

    return jax.jit(jax.vmap(call))


def run_samples(ctx, p):
    import astrodynx as adx

    q = ctx.tier == "quick"
    accs = ("tight", "default") if ctx.x64 else ("default",)
    subs = dyn.subsets()
    if q and not ctx.x64:
        subs = [subs[k] for k in (0, 2, 5, 7)]
    todo = list(itertools.product(subs, MODES, accs))
    g, n = p["part"]
    for sub, mode, acc in todo[g::n]:
        if mode == "fixed" and acc == "default":
            continue
        f = runner(adx, sub, mode, acc, ctx.x64)
        for name in SETS:
            X, lab, a, T, L = problem(ctx, name)
            for span in (3.0, -7.0) if q else (3.0, -3.0, 7.0, -20.0):
                t = np.full(len(X), span * T, ctx.dtype)
                ts, ys = (np.asarray(z) for z in f(X, a, t))
                check(ctx, sub, mode, acc, name, X, lab, a, T, L, span, ts, ys)
            if mode in ("final", "t1", "fixed"):
                # there and back: by negative time, and by the reversed velocity
                end = ys[:, 1 if mode == "t1" else 0] if mode != "fixed" else last(ts, ys)
                for how in ("negative time", "reversed velocity"):
                    s = np.concatenate([np.ones(3), (1 if how[0] == "n" else -1) * np.ones(3)]).astype(ctx.dtype)
                    t2, y2 = (np.asarray(z) for z in f(end * s, a, -t if how[0] == "n" else t))
                    home = (y2[:, 1 if mode == "t1" else 0] if mode != "fixed" else last(t2, y2)) * s
                    cr, cv = amplification(X, np.full((len(X), 1), span * T), a["mu"][0])
                    er, ev_ = amplification(end, np.full((len(X), 1), -span * T), a["mu"][0])
                    w = K(ctx, mode, acc)
                    # errors at the far end are carried home by the flow
                    # (unit relative error of the end state arrives amplified by er, ev)
                    big = 1 + cr[:, 0] / ref.norm(end[:, :3].astype(LD)) + cv[:, 0] / ref.norm(end[:, 3:].astype(LD))
                    tr, tv = w * er[:, 0] * big, w * ev_[:, 0] * big
                    ctx.close(f"{mode} ({acc}): back at the start by {how}", home, X.astype(LD), np.concatenate([np.repeat(tr[:, None], 3, 1), np.repeat(tv[:, None], 3, 1)], 1), terms=dyn.name(sub), parameters=name, e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2], span=span)
                    ctx.count(states=len(X), transitions=len(X), traces=len(X))
    ctx.sample(runs=len(todo[g::n]))


def last(ts, ys):
    return np.array([y[np.isfinite(t)][-1] for t, y in zip(ts, ys)])


def K(ctx, mode, acc):
    """Calibrated accuracy of a run relative to the flow's amplification."""
    if not ctx.x64:
        return 5e-6
    if acc == "tight":
        return {"custom": 3e-10, "ts": 3e-10}.get(mode, 1e-11)
    return {"custom": 3e-7, "ts": 3e-7}.get(mode, 3e-8)


def check(ctx, sub, mode, acc, name, X, lab, a, T, L, span, ts, ys):
    fin = np.isfinite(ts)
    tt = np.where(fin, ts, 0)
    y = np.where(fin[..., None], ys, X[:, None, :])
    info = dict(terms=dyn.name(sub), mode=mode, accuracy=acc, parameters=name, e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2], span=span)
    ctx.check(fin.any(1).all(), f"{mode}: every run returns samples", **info)
    ctx.check(np.isfinite(y).all(), f"{mode}: finite states at every sample", **info)
    if not np.isfinite(y).all():
        return
    if mode != "event":
        far = np.where(fin, np.abs(ts), 0).max(1)
        ctx.close(f"{mode}: the run reaches its end", far, np.full(len(X), abs(span * T)), 1e-5 * abs(span * T), **info)
    E0, h0 = invariants(sub, X[:, None, :], a)
    E, h = invariants(sub, y, a)
    cr, cv = amplification(X, tt, a["mu"][0])
    w = K(ctx, mode, acc)
    # The invariants of every sample differ from the initial ones by the local errors along the way; the flow's
    # amplification bounds the state error, its gradient the error of the invariant.
    tE, th = gradients(sub, y, a, w * cr, w * cv)
    ctx.close(f"{mode} ({acc}): energy", E, np.broadcast_to(E0, E.shape), tE, **info)
    ctx.close(f"{mode} ({acc}): polar angular momentum", h, np.broadcast_to(h0, h.shape), th, **info)
    ctx.count(states=int(fin.sum()), transitions=int(fin.sum()), traces=len(X))


def run_words(ctx, p):
    """All words of hops; the state after a word depends on the net time only."""
    import astrodynx as adx

    depth = 3 if ctx.tier == "quick" else 5
    g, n = p["part"]
    for sub in dyn.subsets()[g::n]:
        f = runner(adx, sub, "final", "tight", ctx.x64)
        for name in list(SETS)[:2]:
            X, lab, a, T, L = problem(ctx, name)
            A = {"+a": 0.6, "-a": -0.6, "+b": 1.7, "-b": -1.7}
            acc = K(ctx, "final", "tight")
            E0, h0 = invariants(sub, X, a)
            nodes = {(): X}
            level = [()]
            first = {}
            for d in range(depth):
                nxt = []
                for w in level:
                    for c, dt in A.items():
                        t = np.full(len(X), dt * T, ctx.dtype)
                        y = np.asarray(f(nodes[w], a, t)[1])[:, 0]
                        ww = w + (c,)
                        nodes[ww] = y
                        nxt.append(ww)
                        net = round(sum(A[k] for k in ww), 6)
                        reach = max(abs(sum(A[k] for k in ww[:j])) for j in range(len(ww) + 1))
                        info = dict(terms=dyn.name(sub), parameters=name, word="".join(ww), e=lab[:, 0], f=lab[:, 1], orientation=lab[:, 2])
                        # errors made anywhere in the visited interval
                        grid = np.linspace(-reach, reach, 5)
                        cr, cv = amplification(X, np.broadcast_to(grid * T, (len(X), 5)), a["mu"][0])
                        k = len(ww) * acc * (cr.max(1) / ref.norm(X[:, :3].astype(LD)) + cv.max(1) / ref.norm(X[:, 3:].astype(LD)))
                        tr, tv = k * ref.norm(y[:, :3].astype(LD)), k * ref.norm(y[:, 3:].astype(LD))
                        E, h = invariants(sub, y, a)
                        tE, th = gradients(sub, y, a, tr, tv)
                        ctx.close("hop word: energy", E, E0, tE, **info)
                        ctx.close("hop word: polar angular momentum", h, h0, th, **info)
                        base = X if net == 0 else first.setdefault(net, y)
                        u, v = amplification(X, np.full((len(X), 1), net * T), a["mu"][0])
                        k2 = k / 1 * (1 + u[:, 0] / ref.norm(X[:, :3].astype(LD)))
                        tol = np.concatenate([np.repeat((k2 * ref.norm(base[:, :3].astype(LD)))[:, None], 3, 1), np.repeat((k2 * ref.norm(base[:, 3:].astype(LD)))[:, None], 3, 1)], 1)
                        ctx.close("hop word: the state depends on the net time only", y, base.astype(LD), tol, **info)
                        ctx.count(states=len(X), transitions=len(X), traces=len(X))
                level = nxt
    ctx.sample(alphabet=list(A), depth=depth)
