"""C10: sampling contract and configuration of the numerical entry points."""
import itertools
import math

import numpy as np

from mc import dyn
from mc import ref

BOUNDS = (
    "fixed stepping: all (final time, step) of a lattice of both signs, divisible or not; requested times: every non-decreasing word of length <= 4 over 6 fractions of "
    "the span; every pair of {solver} x {controller} x {initial step} x {event} x {force arguments} x {sampling mode} per entry point against the plain integrator call "
    "with the same configuration; step limit at needed-1, needed, needed+1; time-dependent and argument-dependent user fields; float32 and float64"
)
ASSUMPTIONS = [
    "the integrator library itself (diffrax) is trusted: its direct call with the same configuration is the model of 'this configuration took effect'",
]
LD = np.longdouble


def jobs(tier):
    out = []
    for x in (True, False):
        s = "f64" if x else "f32"
        for k in ("fixed", "requested", "fields", "limit"):
            out.append((f"{k}-{s}", x, dict(kind=k)))
        for e in ("cowell_method", "fixed_steps", "adaptive_steps", "custom_steps", "to_final"):
            parts = 3 if e == "cowell_method" and x else 1
            out += [(f"config-{e}-{s}-{i}", x, dict(kind="config", entry=e, part=(i, parts))) for i in range(parts)]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


X0 = [1.0, 0.05, -0.1, 0.02, 0.9, 0.3]


def fin(s):
    ts, ys = np.asarray(s.ts), np.asarray(s.ys)
    k = np.isfinite(ts)
    return ts[k], ys[k]


def run_fixed(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq

    od = adx.prop.OrbDynx(terms=diffeq.ODETerm(dyn.field(adx, ("point_mass_grav",))), args={"mu": 1.0})
    f = jax.jit(lambda x, t, dt: adx.prop.fixed_steps(od, x, t, dt, 700))
    x0 = jnp.asarray(np.array(X0, ctx.dtype))
    T = [0.25, 0.3, 1.0, 2.0, 3.0, 3.7, 6.0, 2 * math.pi]
    H = [0.0625, 0.1, 0.01, 0.25, 0.3, 0.7, 1.0, 5.0]
    if ctx.tier != "quick":
        T += [0.05, 0.7, 1.1, 4.2, 5.5, 6.4, 6.9]
        H += [0.015, 0.05, 0.07, 0.11, 0.2, 0.35, 0.5, 0.9]
    for t1, h, sg in itertools.product(T, H, (1, -1)):
        if t1 / h > 690:
            continue
        t1s, hs = float(ctx.dtype(t1 * sg)), float(ctx.dtype(h * sg))
        s = f(x0, t1s, hs)
        raw = np.asarray(s.ts)
        ts, ys = fin(s)
        case = dict(t1=t1s, dt=hs)
        q = t1s / hs
        near = abs(q - round(q)) < 1e3 * ctx.eps * q
        need = {round(q)} if near and round(q) > 0 else {math.ceil(q)}
        if near:
            need |= {round(q) + 1} if ctx.dtype(round(q)) * ctx.dtype(hs) != ctx.dtype(t1s) else set()
        n = len(ts) - 1
        ctx.check(np.isfinite(raw)[: n + 1].all(), "samples form a prefix", **case)
        ctx.check(n in need, "number of fixed steps", steps=n, need=sorted(need), **case)
        ctx.check(len(ts) and ts[0] == 0 and ts[-1] == ctx.dtype(t1s), "starts at zero and ends at the final time", first=ts[:1], last=ts[-1:], **case)
        d = np.diff(ts) * sg
        ctx.check((d > 0).all(), "times advance", **case)
        tol = 16 * ctx.eps * max(abs(t1s), abs(hs))
        ctx.check((d <= abs(hs) + tol).all(), "no step longer than requested", longest=d.max(), **case)
        if near:
            ctx.close("equal steps of the given size", d[: round(q) - 1], np.full(len(d[: round(q) - 1]), abs(hs)), tol, **case)
        ctx.close("first sample is the initial state", ys[0], np.asarray(x0, LD), 0, **case)
        ctx.check(ys.shape == (n + 1, 6), "one state per sample", shape=ys.shape, **case)
        # every sample on the trajectory (order-5 method)
        r, v = ref.kepler(ts.astype(LD), np.repeat(np.asarray(x0[:3], LD)[None], n + 1, 0), np.repeat(np.asarray(x0[3:], LD)[None], n + 1, 0), LD(1))
        if abs(hs) <= 0.3:
            ctx.close("fixed-step samples on the trajectory", ys, np.concatenate([r, v], -1), 3 * abs(hs) ** 5 * (1 + abs(t1)) + 60 * ctx.eps * (1 + n**0.5), times=ts, **case)
        ctx.count(states=n + 1, traces=1)
    ctx.sample(t1=t1s, dt=hs, steps=n)


def run_requested(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq

    od = adx.prop.OrbDynx(terms=diffeq.ODETerm(dyn.field(adx, ("point_mass_grav",))), args={"mu": 1.0})
    P = adx.prop
    x0 = jnp.asarray(np.array(X0, ctx.dtype))
    fr = [0.0, 0.001, 0.25, 0.5, 0.9, 1.0]
    tol = 1e-6 if ctx.x64 else 3e-5
    for n in range(1, 4 if ctx.tier == "quick" else 5):
        words = np.array([w for w in itertools.combinations_with_replacement(fr, n)], ctx.dtype)
        f = jax.jit(jax.vmap(lambda w, t: (lambda s: (s.ts, s.ys))(P.custom_steps(od, x0, t, w * t)), in_axes=(0, None)))
        for t1 in (3.0, -2.0, 0.5):
            ts, ys = map(np.asarray, f(words, ctx.dtype(t1)))
            want = (words * ctx.dtype(t1)).astype(ctx.dtype)
            ctx.close("returned times are the requested times", ts, want.astype(LD), 0, t1=t1, word=words)
            m = len(words) * n
            r, v = ref.kepler(want.astype(LD).ravel(), np.repeat(np.asarray(x0[:3], LD)[None], m, 0), np.repeat(np.asarray(x0[3:], LD)[None], m, 0), LD(1))
            ctx.close("state i belongs to requested time i", ys, np.concatenate([r, v], -1).reshape(ys.shape), tol, t1=t1, word=words)
            ctx.count(states=m, traces=len(words))
    # plain calls: lists of times, arrays, a single time, long vectors
    for ts in ([0.5], [0.0, 3.0], [0.1, 0.1, 2.9], np.linspace(0, 3, 101), np.linspace(0.5, 0.6, 7)):
        for kind in (np.asarray, jnp.asarray):
            s = P.custom_steps(od, x0, 3.0, kind(np.asarray(ts, ctx.dtype)))
            t, y = np.asarray(s.ts), np.asarray(s.ys)
            ctx.close("plain call returns the requested times", t, np.asarray(ts, ctx.dtype).astype(LD), 0, n=len(ts))
            r, v = ref.kepler(t.astype(LD), np.repeat(np.asarray(x0[:3], LD)[None], len(t), 0), np.repeat(np.asarray(x0[3:], LD)[None], len(t), 0), LD(1))
            ctx.close("plain call state i", y, np.concatenate([r, v], -1), tol, times=t)
            ctx.count(states=len(t), traces=1)
    # final state only
    for t1 in (3.0, -1.0, 0.25, 2):
        s = P.to_final(od, x0, t1)
        ctx.check(np.shape(s.ts) == (1,) and np.shape(s.ys) == (1, 6), "final state only", shape=np.shape(s.ys))
        ctx.close("final time", np.asarray(s.ts), np.array([t1], LD), 0)
        ctx.count(states=1, traces=1)
    for t1 in (3.0, -1.0, 0.25):
        s = P.adaptive_steps(od, x0, t1)
        ts, ys = fin(s)
        ctx.check(ts[0] == 0 and ts[-1] == ctx.dtype(t1) and (np.diff(ts) * np.sign(t1) > 0).all(), "adaptive steps run from zero to the final time in order", t1=t1, times=ts[:3])
        ctx.check(len(ts) == int(s.stats["num_accepted_steps"]) + 1, "every accepted step is a sample", n=len(ts), t1=t1)
        ctx.close("first sample is the initial state", ys[0], np.asarray(x0, LD), 0)
        ctx.count(states=len(ts), traces=1)


def run_fields(ctx, p):
    """User fields with known solutions: constant and time-dependent forcing, oscillator with nested arguments, larger states."""
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq

    P = adx.prop

    def forced(t, x, args):  # x'' = a + j t : exact for the method, shows the time origin
        return jnp.concatenate([x[3:6], jnp.asarray(args["a"]) + jnp.asarray(args["j"]) * t])

    def osc(t, x, args):
        return jnp.concatenate([x[3:6], -args["w"]["k"] * x[:3]])

    def with_mass(t, x, args):  # 7 states
        return jnp.concatenate([x[3:6], adx.gravity.point_mass_grav(t, x, args), jnp.asarray([-args["mdot"]])])

    x6 = np.array(X0, ctx.dtype)
    tol = 2e-6 if ctx.x64 else 3e-5

    def sol_forced(t, a):
        A, J = np.array(a["a"], LD), np.array(a["j"], LD)
        t = np.asarray(t, LD)[:, None]
        x, v = x6[:3].astype(LD), x6[3:].astype(LD)
        return np.concatenate([x + v * t + A * t**2 / 2 + J * t**3 / 6, v + A * t + J * t**2 / 2], -1)

    def sol_osc(t, a):
        w = np.sqrt(LD(a["w"]["k"]))
        t = np.asarray(t, LD)[:, None]
        x, v = x6[:3].astype(LD), x6[3:].astype(LD)
        return np.concatenate([x * np.cos(w * t) + v / w * np.sin(w * t), -w * x * np.sin(w * t) + v * np.cos(w * t)], -1)

    def sol_mass(t, a):
        t = np.asarray(t, LD)
        r, v = ref.kepler(t, np.repeat(x6[None, :3].astype(LD), len(t), 0), np.repeat(x6[None, 3:].astype(LD), len(t), 0), LD(a["mu"]))
        return np.concatenate([r, v, (LD(5) - LD(a["mdot"]) * t)[:, None]], -1)

    cases = [
        (forced, dict(a=[0.1, -0.2, 0.3], j=[0.0, 0.0, 0.0]), sol_forced, x6),
        (forced, dict(a=[0.1, 0.0, 0.3], j=[0.5, -0.25, 0.125]), sol_forced, x6),
        (osc, dict(w=dict(k=2.25), unused="text"[:0] or 0.0), sol_osc, x6),
        (osc, dict(w=dict(k=0.25)), sol_osc, x6),
        (with_mass, dict(mu=1.5, mdot=0.125), sol_mass, np.concatenate([x6, np.array([5.0], ctx.dtype)])),
    ]
    for fn, args, sol, x0 in cases:
        od = P.OrbDynx(terms=diffeq.ODETerm(fn), args=args)
        for t1 in (2.0, -1.5):
            runs = {
                "to_final": lambda: P.to_final(od, jnp.asarray(x0), t1),
                "custom_steps": lambda: P.custom_steps(od, jnp.asarray(x0), t1, jnp.asarray(np.array([0.25, 1.0]) * t1)),
                "adaptive_steps": lambda: P.adaptive_steps(od, jnp.asarray(x0), t1),
                "fixed_steps": lambda: P.fixed_steps(od, jnp.asarray(x0), t1, t1 / 64),
                "cowell_method": lambda: P.cowell_method(od, jnp.asarray(x0), t1, diffeq.SaveAt(t0=True, steps=True)),
            }
            for nm, r in runs.items():
                ts, ys = fin(r())
                ctx.close(f"{nm}: user field {fn.__name__}", ys, sol(ts, args), tol, t1=t1, args=str(args))
                ctx.count(states=len(ts), traces=1)
    # the configuration tuple itself
    vf = diffeq.ODETerm(forced)
    od = P.OrbDynx(vf)
    ctx.check(od.terms is vf and od.args == {"mu": 1.0} and od.event is None, "OrbDynx defaults", got_args=str(od.args))
    ev = diffeq.Event(adx.events.radius_islow)
    od = P.OrbDynx(vf, {"rmin": 1}, ev)
    ctx.check(od.terms is vf and od.args == {"rmin": 1} and od.event is ev, "OrbDynx keeps what it is given")
    ctx.check(P.OrbDynx._fields == ("terms", "args", "event"), "OrbDynx fields", got_fields=P.OrbDynx._fields)


def run_config(ctx, p):
    """Entry point against the plain integrator call with the same configuration, all pairs of options."""
    import diffrax
    import jax.numpy as jnp
    import optimistix
    import astrodynx as adx
    from astrodynx import diffeq

    P = adx.prop
    entry = p["entry"]
    vf = diffeq.ODETerm(dyn.field(adx, ("point_mass_grav", "j2_acc")))
    x0 = jnp.asarray(np.array([1.0, 0.05, -0.1, 0.02, 0.9, 0.3], ctx.dtype))
    base = {"mu": 1.0, "J2": 1e-3, "R_eq": 1.0}
    argsets = [base, {"mu": 1.2, "J2": 0.05, "R_eq": 0.7}]
    solvers = [None, diffrax.Dopri5(), diffrax.Bosh3(), diffrax.Dopri8(), diffrax.Heun()]
    ctrls = [None, diffrax.PIDController(rtol=1e-4, atol=1e-5), diffrax.PIDController(rtol=1e-3, atol=1e-7, dtmax=0.2), diffrax.ConstantStepSize()]
    events = [None, 0.8, 0.1]  # threshold: fires / does not fire
    evroot = [False, True]
    limits = [None, 300]
    saves = {
        "t1": diffeq.SaveAt(t1=True),
        "t0,t1": diffeq.SaveAt(t0=True, t1=True),
        "steps": diffeq.SaveAt(steps=True),
        "ts": diffeq.SaveAt(ts=jnp.asarray(np.array([0.5, 1.0, 1.5], ctx.dtype))),
        "subs": diffeq.SaveAt(subs=diffeq.SubSaveAt(t1=True)),
        "fn": diffeq.SaveAt(t1=True, fn=lambda t, y, args: y[:2] * args["mu"]),
    }
    t1s = [2.0, -1.0]
    dim = {"args": range(2), "solver": range(5), "ctrl": range(3), "event": range(3), "root": range(2), "t1": range(2), "limit": range(2), "save": range(1), "dt0": range(1)}
    if entry == "cowell_method":
        dim.update(ctrl=range(4), save=range(len(saves)), dt0=range(3))
    elif entry == "fixed_steps":
        dim.update(ctrl=range(1), dt0=range(1, 3))
    elif entry == "custom_steps":
        dim.update(limit=range(1), save=range(3))
    elif entry == "to_final":
        dim.update(limit=range(1))
    names = list(dim)
    zero = {k: dim[k][0] for k in names}
    # all configurations that deviate from the defaults in at most two options (three in the thorough tier)
    depth = 2 if ctx.tier == "quick" else 3
    if ctx.tier == "quick" and not ctx.x64:
        depth = 1
    confs = []
    for n in range(depth + 1):
        for ks in itertools.combinations(names, n):
            for vals in itertools.product(*[list(dim[k])[1:] for k in ks]):
                c = dict(zero)
                c.update(zip(ks, vals))
                confs.append(c)
    tslists = [np.array([0.1, 0.5, 1.0]), np.array([0.0, 0.0, 0.7]), np.array([0.9])]
    if ctx.tier == "quick" and ctx.x64:
        confs = [c for c in confs if not (c["root"] and c["event"] == 0)]
    seen = set()
    for c in confs:
        key = tuple(c.values())
        if c["root"] and c["event"] == 0:
            continue
        if c["ctrl"] == 3 and c["dt0"] == 0:
            continue  # constant steps need a step
        if key in seen:
            continue
        seen.add(key)
        if len(seen) % p["part"][1] != p["part"][0]:
            continue
        t1 = t1s[c["t1"]]
        args = dict(argsets[c["args"]])
        ev = None
        if c["event"]:
            args["rmin"] = events[c["event"]]
            ev = diffeq.Event(adx.events.radius_islow, root_finder=optimistix.Newton(1e-6, 1e-6) if c["root"] else None)
        od = P.OrbDynx(vf, args, ev) if ev is not None else P.OrbDynx(vf, args)
        solver = solvers[c["solver"]]
        ctrl = ctrls[c["ctrl"]]
        sv = list(saves.items())[c["save"]]
        dt0 = [None, 0.05, 0.02][c["dt0"]]
        dt0 = None if dt0 is None else math.copysign(dt0, t1)
        lim = limits[c["limit"]]
        kw = {}
        if solver is not None:
            kw["solver"] = solver
        if ctrl is not None:
            kw["stepsize_controller"] = ctrl
        if lim is not None:
            kw["max_steps"] = lim
        d_solver = solver if solver is not None else diffrax.Tsit5()
        d_ctrl = ctrl if ctrl is not None else diffrax.PIDController(rtol=1e-8, atol=1e-8)
        d_lim = lim if lim is not None else 4096
        if entry == "cowell_method":
            if sv[0] == "ts" and t1 < 0:
                continue
            call = lambda: P.cowell_method(od, x0, t1, sv[1], **({"dt0": dt0} if dt0 is not None else {}), **kw)
            save = sv[1]
        elif entry == "fixed_steps":
            call = lambda: P.fixed_steps(od, x0, t1, dt0, **kw)
            save, d_ctrl = diffeq.SaveAt(t0=True, steps=True), diffrax.ConstantStepSize()
        elif entry == "adaptive_steps":
            call = lambda: P.adaptive_steps(od, x0, t1, **kw)
            save = diffeq.SaveAt(t0=True, steps=True)
        elif entry == "custom_steps":
            tl = jnp.asarray((tslists[c["save"]] * t1).astype(ctx.dtype))
            call = lambda: P.custom_steps(od, x0, t1, tl, **kw)
            save, d_lim = diffeq.SaveAt(ts=tl), None
        else:
            call = lambda: P.to_final(od, x0, t1, **kw)
            save = diffeq.SaveAt(t1=True)
        case = dict(conf=str({k: v for k, v in c.items() if v != zero[k]}), entry=entry)
        try:
            want = diffrax.diffeqsolve(vf, d_solver, 0.0, t1, dt0, x0, args, saveat=save, stepsize_controller=d_ctrl, max_steps=d_lim, event=ev)
            wex = None
        except Exception as ex:  # the configuration itself fails (step limit too small)
            wex = ex
        try:
            got = call()
            gex = None
        except Exception as ex:
            gex = ex
        ctx.count(states=1, traces=1)
        if wex is not None or gex is not None:
            ctx.check((wex is None) == (gex is None), "configuration accepted or refused alike", want_error=str(wex)[:200], got_error=str(gex)[:200], **case)
            continue
        wt, wy = fin(want)
        gt, gy = fin(got)
        ok = wt.shape == gt.shape and wy.shape == gy.shape
        ctx.check(ok, "same samples as the integrator with this configuration", got_n=len(gt), want_n=len(wt), **case)
        if ok:
            a = 1e-9 if ctx.x64 else 2e-4
            ctx.close("same sample times as the integrator with this configuration", gt, wt.astype(LD), a, **case)
            ctx.close("same states as the integrator with this configuration", gy, wy.astype(LD), a * 10, **case)
        ctx.check(bool(got.result == want.result), "same outcome", got_result=str(got.result), want_result=str(want.result), **case)
        if ctx.x64:
            ctx.check(int(got.stats["num_steps"]) == int(want.stats["num_steps"]), "same number of steps as the integrator with this configuration", got_n=int(got.stats["num_steps"]), want_n=int(want.stats["num_steps"]), **case)
    ctx.extra["configurations"] = ctx.traces
    ctx.sample(entry=entry, configuration=str(list(confs)[-1]))


def run_limit(ctx, p):
    """Step limit at needed-1 / needed / needed+1; unlimited requested-times mode; eager and compiled."""
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq

    P = adx.prop
    od = P.OrbDynx(diffeq.ODETerm(dyn.field(adx, ("point_mass_grav",))), {"mu": 1.0})
    x0 = jnp.asarray(np.array(X0, ctx.dtype))

    def outcome(f):
        try:
            s = f()
            ts = np.asarray(s.ts)
            k = np.isfinite(ts)
            return "ok" if k.any() and abs(ts[k][-1]) > 0 else "empty", (ts[k][-1] if k.any() else None)
        except Exception as ex:
            return "error", str(ex)[:80]

    entries = {
        "adaptive_steps": lambda t1, m: P.adaptive_steps(od, x0, t1, max_steps=m),
        "cowell_method": lambda t1, m: P.cowell_method(od, x0, t1, diffeq.SaveAt(t1=True), max_steps=m),
        "fixed_steps": lambda t1, m: P.fixed_steps(od, x0, t1, t1 / 32, max_steps=m),
    }
    for nm, f in entries.items():
        for t1 in (1.0, 3.0, -2.0):
            n = int(f(t1, 4096).stats["num_steps"])
            for m, want in ((n - 1, "error"), (n, "ok"), (n + 1, "ok"), (1, "error"), (max(2, n // 2), "error")):
                for mode in ("plain", "compiled"):
                    if mode == "compiled" and (m not in (n - 1, n) or t1 != 3.0):
                        continue
                    g = (lambda: f(t1, m)) if mode == "plain" else jax.jit(lambda: (lambda s: s)(f(t1, m)))
                    o, last = outcome(g)
                    ctx.check(o == want, "step limit is enforced and reported", entry=nm, needed=n, limit=m, outcome=o, detail=str(last), t1=t1, mode=mode)
                    if o == "ok":
                        ctx.check(abs(float(last) - t1) <= 4 * ctx.eps * abs(t1), "a returned result reaches the final time", entry=nm, last=last, t1=t1)
                    ctx.count(states=1, traces=1)
    # default limits: a long propagation is an error where there is a limit and complete where there is none
    t1 = 2500.0
    long = {
        "to_final": lambda: P.to_final(od, x0, t1),
        "adaptive_steps": lambda: P.adaptive_steps(od, x0, t1),
        "cowell_method": lambda: P.cowell_method(od, x0, t1, diffeq.SaveAt(t1=True)),
        "fixed_steps": lambda: P.fixed_steps(od, x0, t1, 0.1),
    }
    for nm, f in long.items():
        o, last = outcome(f)
        ctx.check(o == "error", "exceeding the default step limit is reported", entry=nm, outcome=o, detail=str(last))
        ctx.count(states=1, traces=1)
    o, last = outcome(lambda: P.custom_steps(od, x0, t1, jnp.asarray(np.array([1.0, t1], ctx.dtype))))
    ctx.check(o == "ok" and float(last) == t1, "requested times are reached without a step limit", outcome=o, detail=str(last))
    o, last = outcome(lambda: P.cowell_method(od, x0, t1, diffeq.SaveAt(t1=True), max_steps=None))
    ctx.check(o == "ok" and float(last) == t1, "no limit when none is asked for", outcome=o, detail=str(last))
    # times outside the span or out of order are refused, not silently answered
    for ts in ([0.5, 4.0], [2.0, 1.0], [-0.5, 1.0]):
        o, last = outcome(lambda: P.custom_steps(od, x0, 3.0, jnp.asarray(np.array(ts, ctx.dtype))))
        ctx.check(o == "error", "impossible output times are refused", ts=ts, outcome=o)
        ctx.count(states=1, traces=1)
