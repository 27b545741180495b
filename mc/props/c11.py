"""C11: the minimum-radius event against the exact first crossing."""
import numpy as np

from mc import dyn
from mc import ref

BOUNDS = (
    "orbits (elliptic, parabolic, hyperbolic) x epoch anomalies on both legs x 2 orientations x thresholds from below periapsis to just below the initial radius x "
    "both time directions x {all entry points, each also with other solvers, controllers, initial steps and step limits, and 5 words of requested times} x {step-end event, root-located event} x {point mass, point mass + J2}; event function on a lattice of states, times and arguments"
)
ASSUMPTIONS = [
    "oracle: radius minima of the exact two-body flow, and for perturbed motion of the independent integrator, located on a fine grid with refinement",
    "thresholds within 1e-6 of the radius at a step end or of the periapsis are not enumerated (ties)",
]
LD = np.longdouble
ENTRIES = ("to_final", "adaptive_steps", "fixed_steps", "custom_steps", "cowell_steps", "cowell_t1")


def jobs(tier):
    out = []
    for x in (True, False):
        s = "f64" if x else "f32"
        for e in ENTRIES:
            out.append((f"{e}-{s}", x, dict(kind="entry", entry=e)))
        out.append((f"value-{s}", x, dict(kind="value")))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


FR = np.array([0.02, 0.2, 0.4, 0.6, 0.8, 1.0])


WORDS = (FR, np.array([1.0]), np.array([0.5]), np.array([0.0, 0.35]), np.array([0.3, 0.3, 0.9]))


def variants(entry):
    """Configurations of an entry point other than the defaults: keyword arguments."""
    import diffrax as dx

    S, C = dict(solver=dx.Dopri8()), dict(stepsize_controller=dx.PIDController(rtol=1e-6, atol=1e-9))
    F, M, D = dict(stepsize_controller=dx.ConstantStepSize(), dt0=0.02), dict(max_steps=1500), dict(dt0=1e-3)
    return {
        "to_final": [S, C, {**S, **C}],
        "custom_steps": [S, C, {**S, **C}],
        "adaptive_steps": [S, C, M, {**S, **C, **M}],
        "fixed_steps": [S, M, {**S, **M}],
        "cowell_steps": [S, C, M, D, F, {**S, **C, **D}],
        "cowell_t1": [S, C, M, D, F, {**S, **F, **M}],
    }[entry]


def build(adx, entry, sub, event, kw=None):
    from astrodynx import diffeq

    P = adx.prop
    kw = dict(kw or {})
    if "dt0" in kw:
        h = kw.pop("dt0")
    else:
        h = None
    terms = diffeq.ODETerm(dyn.field(adx, sub))

    def call(x, t, a, fr):
        od = P.OrbDynx(terms, a, event) if event is not None else P.OrbDynx(terms, a)
        if entry == "to_final":
            s = P.to_final(od, x, t, **kw)
        elif entry == "adaptive_steps":
            s = P.adaptive_steps(od, x, t, **{"max_steps": 600, **kw})
        elif entry == "fixed_steps":
            s = P.fixed_steps(od, x, t, t / 240, **{"max_steps": 250, **kw})
        elif entry == "custom_steps":
            s = P.custom_steps(od, x, t, fr * t, **kw)
        elif entry == "cowell_steps":
            s = P.cowell_method(od, x, t, diffeq.SaveAt(t0=True, steps=True), **{"max_steps": 600, **dt0(h, t), **kw})
        else:
            s = P.cowell_method(od, x, t, diffeq.SaveAt(t1=True), **dt0(h, t), **kw)
        return s.ts, s.ys, diffeq_result_is_event(s)

    return call


def dt0(h, t):
    import jax.numpy as jnp

    return {} if h is None else {"dt0": h * jnp.sign(t)}


def diffeq_result_is_event(s):
    import diffrax

    return s.result == diffrax.RESULTS.event_occurred


def crossings(rad, t1, rmin, n=6000):
    """First time of r < rmin along [0, t1] (None if never), from a fine grid with bisection."""
    g = np.linspace(0, t1, n)
    r = rad(g)
    k = np.flatnonzero(r < rmin)
    if not len(k):
        return None, r.min()
    if k[0] == 0:
        return 0.0, r.min()
    a, b = g[k[0] - 1], g[k[0]]
    for _ in range(60):
        m = 0.5 * (a + b)
        if rad(np.array([m]))[0] < rmin:
            b = m
        else:
            a = m
    return b, r.min()


def run_entry(ctx, p):
    import jax
    import optimistix
    import astrodynx as adx
    from astrodynx import diffeq

    entry = p["entry"]
    q = ctx.tier == "quick"
    es = [0.05, 0.3, 0.7, 1.0, 1.5] if q else [0.05, 0.15, 0.3, 0.5, 0.7, 0.85, 1.0, 1.2, 1.5, 3.0]
    fs = [-2.0, -1.2, 0.5, 1.3, 2.6] if q else [-2.6, -2.0, -1.2, -0.4, 0.5, 1.3, 2.0, 2.6]
    X, lab = dyn.states(es, fs, (1, 3))
    keep = ~((lab[:, 0] >= 1) & (np.abs(lab[:, 1]) > 2.1))
    X, lab = X[keep], lab[keep]
    x0 = X.astype(ctx.dtype)
    r0 = ref.norm(x0[:, :3].astype(LD)).astype(float)
    fr_thr = [0.5, 0.02, 0.3, 0.7, 0.95]  # 0.5: far below periapsis; others: fraction between periapsis (1) and r0
    T = [4.0, -3.0] if q else [0.7, 4.0, -3.0, 9.0]
    plain = (("point_mass_grav",), dict(mu=1.0))
    perturbed = (("point_mass_grav", "j2_acc"), dict(mu=1.1, J2=0.01, R_eq=0.9))
    runs = [(plain, {}, FR), (perturbed, {}, FR)]
    runs += [(plain, {}, w) for w in WORDS[1:] if entry == "custom_steps"]
    runs += [(plain if q or i % 2 else perturbed, kw, WORDS[i % len(WORDS)]) for i, kw in enumerate(variants(entry))]
    flows = {}
    for (sub, args), kw, fr in runs:
        if ctx.late():
            break
        n = len(x0)
        if sub not in flows:
            flows[sub] = dyn.integrate(sub, x0.astype(float), {k: np.full(n, v) for k, v in args.items()}, max(map(abs, T)) * 1.01)
        rf = flows[sub]
        hmax = 0.7 if not kw else 0.05 if "ConstantStepSize" in repr(kw.get("stepsize_controller")) else 3.0
        base = jax.jit(jax.vmap(build(adx, entry, sub, None, kw), in_axes=(0, 0, 0, None)))
        for root in (False, True) if not kw else (False,):
            ev = diffeq.Event(adx.events.radius_islow, root_finder=optimistix.Bisection(1e-6, 1e-6, flip="detect", expand_if_necessary=True) if root else None)
            if root and entry == "custom_steps":
                continue
            call = jax.jit(build(adx, entry, sub, ev, kw)) if root else jax.jit(jax.vmap(build(adx, entry, sub, ev, kw), in_axes=(0, 0, 0, None)))
            # diffrax cannot batch a located root when only part of the batch has an event: one call per trajectory then
            f = (lambda x, t, a, fr, c=call: [np.stack(z) for z in zip(*[[np.asarray(w) for w in c(x[i], t[i], {k: v[i] for k, v in a.items()}, fr)] for i in range(len(x))])]) if root else call
            for t1 in T:
                for k, u in enumerate(fr_thr):
                    if q and kw and k in (1, 3):
                        continue
                    thr = np.where(k == 0, 0.5, 1.0 + u * (r0 - 1.0)) * np.ones(n)
                    thr = np.where((r0 - 1.0 < 0.03) & (k > 0), 0.5, thr)  # starts at periapsis: no threshold in between
                    A = {a: np.full(n, v, ctx.dtype) for a, v in args.items()}
                    A["rmin"] = thr.astype(ctx.dtype)
                    tt = np.full(n, t1, ctx.dtype)
                    ts, ys, hit = map(np.asarray, f(x0, tt, A, fr.astype(ctx.dtype)))
                    bs, by, _ = map(np.asarray, base(x0, tt, A, fr.astype(ctx.dtype)))
                    for i in range(n):
                        one(ctx, entry, root, t1, float(thr[i]), ts[i], ys[i], bool(hit[i]), bs[i], by[i], lambda t: np.sqrt((rf(i, t)[:, :3] ** 2).sum(1)), fr, hmax, dict(e=lab[i, 0], f=lab[i, 1], o=lab[i, 2], rmin=float(thr[i]), t1=t1, entry=entry, root=root, terms=dyn.name(sub), config=str(sorted(kw)), requested=str(fr)))


MEMO = {}


def path(rad, t1, thr, key):
    """First crossing, minimum radius, and end of the first excursion below the threshold."""
    if key not in MEMO:
        tc, low = crossings(rad, t1, thr, 1500)
        t_out = None
        if tc is not None:
            g = np.linspace(0, t1, 1500)
            r = rad(g)
            k0 = np.flatnonzero(r < thr)[0]
            k1 = np.flatnonzero(r[k0:] >= thr)
            t_out = g[k0 + k1[0]] if len(k1) else None
        MEMO[key] = tc, low, t_out
    return MEMO[key]


def one(ctx, entry, root, t1, thr, ts, ys, hit, bs, by, rad, fr, hmax, case):
    sg = np.sign(t1)
    tc, rmin_path, t_out = path(rad, t1, thr, (case["terms"], case["e"], case["f"], case["o"], t1, thr))
    ctx.count(states=1, traces=1)
    slack = 3e-5 if not ctx.x64 else 1e-6
    if hmax > 1:
        slack *= 5  # looser tolerance of a variant
    ok = np.isfinite(ts)
    t, y = ts[ok], ys[ok]
    b_ok = np.isfinite(bs)
    bt, byy = bs[b_ok], by[b_ok]
    if abs(rmin_path - thr) < 20 * slack:
        return  # tie with the minimum of the path
    if tc is None:
        ctx.check(not hit, "no event when the radius stays above the threshold", **case)
        if root and len(t) == len(bt) + 1 and t[-1] == t[-2]:
            t, y = t[:-1], y[:-1]  # diffrax saves the final time twice when it was asked to locate an event that did not occur
        if not ctx.x64 and entry in ("adaptive_steps", "cowell_steps"):
            # float32 step sizes follow the rounding of the error estimate: compare ends and the trajectory, not the step times
            ctx.check(abs(len(t) - len(bt)) <= 2 + len(bt) // 10, "about as many samples as without the event", n=len(t), n0=len(bt), **case)
            ctx.check(abs(float(t[-1]) - t1) < slack, "runs to the final time", last=float(t[-1]), **case)
            r_all = np.sqrt((y[:, :3].astype(float) ** 2).sum(1))
            ctx.close("samples lie on the trajectory", r_all, rad(t.astype(float)).astype(LD), 100 * slack, **case)
            return
        same = t.shape == bt.shape
        ctx.check(same, "same samples as without the event", n=len(t), n0=len(bt), **case)
        if same:
            ctx.close("same sample times as without the event", t, bt.astype(LD), slack * 10, **case)
            ctx.close("same states as without the event", y, byy.astype(LD), slack * 10, **case)
        return
    # a step long enough to jump over the whole excursion is not detectable by definition: find it from the step sequence
    if t_out is not None and abs(t_out - tc) < (0.9 * hmax if entry != "fixed_steps" else abs(t1) / 200):
        # short excursion: either verdict is admissible, but an event must then stop inside it or in a later one
        if not hit:
            return
    ctx.check(hit, "event occurs when the radius falls below the threshold", crossing=tc, **case)
    if not hit:
        return
    if entry == "custom_steps":
        # samples: exactly the requested times before the stop
        want = (fr.astype(ctx.dtype) * ctx.dtype(t1))
        must = want[(want * sg) < (abs(tc) - slack)]
        ctx.check(len(t) >= len(must) and np.array_equal(t, want[: len(t)]), "requested times before the crossing are returned", got_t=t, must=must, **case)
        if len(t) > len(must):
            late = t[len(must):]
            r_late = rad(late.astype(float))
            lim = np.abs(late) <= abs(tc) + (slack * 50 if root else hmax)
            ctx.check(lim.all(), "no sample after the stop", late=late, crossing=tc, **case)
        return
    ctx.check(len(t) > 0, "a stopped propagation returns its last sample", **case)
    if not len(t):
        return
    last = float(t[-1])
    r_last = float(np.sqrt((y[-1, :3].astype(float) ** 2).sum()))
    r_ref = float(rad(np.array([last]))[0])
    ctx.check(abs(r_last - r_ref) < 100 * slack, "stopped state lies on the trajectory", r_last=r_last, r_true=r_ref, **case)
    if root:
        # Newton on a coarse step may need the crossing within its step only
        ctx.check(abs(r_last - thr) < 200 * slack, "root-located stop has the threshold radius", r_last=r_last, **case)
        ctx.check(abs(last - tc) < 3000 * slack or t_out is not None, "root-located stop is the first crossing", last=last, crossing=tc, **case)
    else:
        ctx.check(r_last < thr + slack, "stops with the radius below the threshold", r_last=r_last, **case)
        ctx.check(abs(last) >= abs(tc) - slack, "does not stop before the crossing", last=last, crossing=tc, **case)
        if len(t) > 1:  # step sampling: every earlier sample is above
            r_prev = np.sqrt((y[:-1, :3].astype(float) ** 2).sum(1))
            ctx.check((r_prev > thr - slack).all(), "stops with the first step below the threshold", **case)
        else:
            ctx.check(abs(last) <= abs(tc) + hmax or t_out is not None, "stops with the step containing the crossing", last=last, crossing=tc, **case)
        if entry == "fixed_steps" and t_out is None:
            ctx.check(abs(last) <= abs(tc) + abs(t1) / 240 + slack, "fixed stepping stops within one step of the crossing", last=last, crossing=tc, **case)
    if entry == "fixed_steps" or (ctx.x64 and entry in ("adaptive_steps", "cowell_steps")):
        m = len(t) - 1
        ctx.check(len(bt) >= m and np.allclose(t[:m], bt[:m], atol=max(slack, 1e-4 if not ctx.x64 else 0), rtol=0), "samples before the stop are those without the event", **case)


def run_value(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx

    f = adx.events.radius_islow
    D = np.array([(a, b, c) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if (a, b, c) != (0, 0, 0)], float)
    D = np.concatenate([D, [[0.3, -0.4, 1.2], [2.0, 3.0, 6.0]]])
    for L in (1.0, 6378.0, 7e6, 1e-3):
        x = (D * L).astype(ctx.dtype)
        r = ref.norm(x.astype(LD))
        for thr in (0.0, 0.7, 1.0, 1.5, 10.0):
            m = ctx.dtype(thr * L)
            for tail in ([], [0.1, -0.2, 0.3], [1e6, 1e6, -1e6, 5.0], [np.nan] * 3):
                X = np.concatenate([x, np.tile(np.array(tail), (len(x), 1))], 1).astype(ctx.dtype)
                for t in (0.0, -5.0, 1e9):
                    for args in ({"rmin": m}, {"rmin": m, "mu": 3.0, "J2": 0.1, "R_eq": 7.0, "rmax": 1.0}):
                        for kw in ({}, dict(terms=1, solver=2, t0=3, t1=4, dt0=5, saveat=6, stepsize_controller=7, max_steps=8)):
                            got = np.asarray(jax.vmap(lambda z: f(t, z, args, **kw))(X))
                            ctx.close("event value is radius minus threshold", got, r - LD(m), 8 * ctx.eps * (r + LD(m)), x=X, rmin=float(m), t=t)
                            ctx.count(states=len(x), traces=len(x))
    x = jnp.asarray(np.array([0.6, 0.8, 0.0, 0, 0, 0], ctx.dtype))
    ctx.close("default threshold is zero", f(0.0, x), LD(1), 8 * ctx.eps)
    ctx.check(np.shape(f(0.0, x)) == (), "event value is a scalar", shape=np.shape(f(0.0, x)))
