"""C16: jit, vmap over every subset of arguments, nesting, and forward derivatives of the whole catalogue."""
import itertools

import numpy as np

from mc import catalog as cat
from mc import dyn
from mc import ref

BOUNDS = (
    "every function of the catalogue (56, including the solvers with the tolerance as an argument) on 12 inputs each (zero, few and many iterations): plain call = compiled call; compiled vmap over every "
    "non-empty subset of the arguments (all subsets up to 5 arguments; for more, subsets of size 1, 2, k-1, k) with the others held at 2 (quick) / 4 (thorough) values = single calls; the "
    "orders (quick tier, float32: subsets of size 1 and k only) vmap of jit, jit of vmap, vmap of vmap over every 2-partition of up to 3 arguments; forward derivatives w.r.t. every argument, plain, compiled and vectorised, "
    "against implicit-function or finite-difference values; the numerical entry points under jit and vmap; float32 and float64"
)
ASSUMPTIONS = [
    "agreement is up to rounding of a differently fused program, for the iterative solvers up to their tolerance",
    "finite differences: 4th-order central differences in float64 at generic points; predicates and the revolution bound have no derivative",
    "the numerical propagator supports reverse mode only (a property of the integrator library); its derivative is checked in C07",
]
LD = np.longdouble
SOLVERS = ("solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni", "kepler")
ENTRIES = (("to_final", "custom_steps"), ("fixed_steps", "cowell_method"), ("adaptive_steps",))
ANGLES = ("rv2coe", "true_anomaly", "argument_of_periapsis", "right_ascension", "inclination")


def jobs(tier):
    n = 7 if tier == "quick" else 12
    out = []
    for x in (True, False):
        s = "f64" if x else "f32"
        out += [(f"transform-{s}-{g}", x, dict(kind="transform", part=(g, n))) for g in range(n)]
        out += [(f"entries-{s}-{g}", x, dict(kind="entries", entries=e)) for g, e in enumerate(ENTRIES)]
    out += [(f"derivatives-{g}", True, dict(kind="derivatives", part=(g, 3))) for g in range(3)]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def fns(adx):
    F = cat.catalog(adx)
    by = {f.name: f for f in F}
    T = np.array([1e-2, 1e-6, 1e-4, 1e-6, 1e-1, 1e-5, 1e-3, 1e-6, 1.0, 1e-6, 1e-5, 1e-2])
    F.append(cat.Fn("solve_kepler_elps(tol)", lambda M, e, t: adx.solve_kepler_elps(M, e, t), by["solve_kepler_elps"].args + [("tol", "S", T)], (), bcast=False))
    F.append(cat.Fn("solve_kepler_hypb(tol)", lambda M, e, t: adx.solve_kepler_hypb(M, e, t), by["solve_kepler_hypb"].args + [("tol", "S", T)], (), bcast=False))
    F.append(cat.Fn("solve_kepler_uni(tol)", lambda t, a, r, s, m, tol: adx.solve_kepler_uni(t, a, r, s, m, tol), by["solve_kepler_uni"].args + [("tol", "S", T)], (), bcast=False))
    return F


def weight(f):
    base = f.name.split("(")[0]
    return (40 if base in SOLVERS else 10 if base[:5] in ("ufunc", "dxdx0") or base == "kepler_equ_uni" else 1) * min(len(subsets(len(f.kinds))), 60)


def share(F, g, n):
    """Greedy balanced partition."""
    load, mine = [0] * n, [[] for _ in range(n)]
    for f in sorted(F, key=lambda f: (-weight(f), f.name)):
        k = load.index(min(load))
        load[k] += weight(f)
        mine[k].append(f)
    return mine[g]


def subsets(k, full=True):
    if not full:
        return [s for m in sorted({1, k}) for s in itertools.combinations(range(k), m)]
    sizes = range(1, k + 1) if k <= 5 else sorted({1, 2, k - 1, k})
    return [s for m in sizes for s in itertools.combinations(range(k), m)]


def tol_of(ctx, f, want):
    base = f.name.split("(")[0]
    K = 300 * ctx.eps
    if base in ANGLES:
        K = 3000 * ctx.eps
    if base in SOLVERS:
        K = (4e-6 if "tol" not in f.name else 1e-5) if ctx.x64 else 2e-3  # single precision: residual noise over a small radius
    sc = 1 + np.abs(want.astype(LD))
    nc = len(f.core[0] if f.multi else f.core)
    if nc:
        ax = tuple(range(sc.ndim - nc, sc.ndim))
        sc = np.broadcast_to(sc.max(axis=ax, keepdims=True), sc.shape)
    return K * sc


def outs(f, r):
    return [np.asarray(z) for z in (r if f.multi else [r])]


def run_transform(ctx, p):
    import jax
    import astrodynx as adx

    for f in share(fns(adx), *p["part"]):
        if ctx.late():
            break
        vals = [v for v in f.values(ctx.dtype)]
        k = len(vals)
        jf = jax.jit(f.call)
        memo = {}

        def single(ix):
            if ix not in memo:
                memo[ix] = outs(f, jf(*[v[i] for v, i in zip(vals, ix)]))
            return memo[ix]

        def cmp(what, got, idx, **info):
            for o, g in enumerate(got):
                want = np.stack([single(ix)[o] for ix in idx])
                g = np.asarray(g).reshape(want.shape) if np.size(g) == want.size else np.asarray(g)
                if f.kinky:
                    ctx.count(transitions=len(idx))
                    for j in np.flatnonzero(np.asarray(g != want).reshape(len(idx), -1).any(1) if g.shape == want.shape else np.ones(len(idx), bool)):
                        ctx.fail(what, fn=f.name, inputs=str(idx[j]), **info)
                else:
                    ctx.close(what, g, want.astype(LD), tol_of(ctx, f, want), fn=f.name, inputs=np.array([str(i) for i in idx]), output=o, **{a: str(b) for a, b in info.items()})
            ctx.count(states=len(idx), traces=len(idx))

        diag = [(i,) * k for i in range(cat.N)]
        import jax.numpy as jnp

        try:
            eager = [outs(f, f.call(*[jnp.asarray(v[i]) for v in vals])) for i in range(cat.N)]
            cmp("plain call equals compiled call", [np.stack([e[o] for e in eager]) for o in range(len(eager[0]))], diag)
        except Exception as ex:
            ctx.fail("plain or compiled call raises", fn=f.name, error=repr(ex)[:400])
            continue
        deep = ctx.x64 or ctx.tier == "thorough"
        held = (0, 7) if ctx.tier == "quick" else (0, 3, 7, 10)
        for S in subsets(k, deep):
            if ctx.late():
                break
            ax = [0 if j in S else None for j in range(k)]
            try:
                g = jax.jit(jax.vmap(f.call, in_axes=ax))
                for h in held if len(S) < k else held[:1]:
                    idx = [tuple(i if j in S else h for j in range(k)) for i in range(cat.N)]
                    got = outs(f, g(*[v if j in S else v[h] for j, v in enumerate(vals)]))
                    cmp("vectorised equals single calls", got, idx, mapped=[f.args[j][0] for j in S])
            except Exception as ex:
                ctx.fail("vectorised call raises", fn=f.name, mapped=str([f.args[j][0] for j in S]), error=repr(ex)[:400])
        cmp("vmap of jit equals single calls", outs(f, jax.vmap(jf)(*vals)), diag)
        # batch axis in another position
        if f.kinds and all(c in "sScvx" for c in f.kinds):
            moved = [np.moveaxis(v, 0, -1) for v in vals]
            cmp("mapped axis last", outs(f, jax.jit(jax.vmap(f.call, in_axes=-1))(*moved)), diag)
        # a batch of a batch
        if k <= 3:
            n2 = 4
            for m in range(1, k + 1) if deep else (k,):
                for S in itertools.combinations(range(k), m):
                    inner = [0 if j in S else None for j in range(k)]
                    outer = [None if j in S else 0 for j in range(k)]
                    if m == k:
                        inner = outer = [0] * k
                        args = [v.reshape((3, n2) + v.shape[1:]) for v in vals]
                        idx = [(a * n2 + b,) * k for a in range(3) for b in range(n2)]
                    else:
                        args = [v[:n2] if j in S else v[:3] for j, v in enumerate(vals)]
                        idx = [tuple(b if j in S else a for j in range(k)) for a in range(3) for b in range(n2)]
                    got = outs(f, jax.jit(jax.vmap(jax.vmap(f.call, in_axes=inner), in_axes=outer))(*args))
                    got = [g.reshape((len(idx),) + g.shape[2:]) for g in got]
                    cmp("nested vectorisation equals single calls", got, idx, inner=[f.args[j][0] for j in S])
        else:
            args = [v.reshape((3, 4) + v.shape[1:]) for v in vals]
            got = outs(f, jax.jit(jax.vmap(jax.vmap(f.call)))(*args))
            cmp("nested vectorisation equals single calls", [g.reshape((12,) + g.shape[2:]) for g in got], diag)
        # scan over the inputs: sequential traced evaluation
        got = outs(f, jax.jit(lambda *a: jax.lax.map(lambda z: f.call(*z), a))(*vals))
        cmp("traced loop equals single calls", got, diag)
        ctx.sample(fn=f.name, subsets=len(subsets(k)))


def run_entries(ctx, p):
    """Numerical entry points, compiled and vectorised over each argument."""
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq

    P = adx.prop
    r0, v0 = cat.orbit_states()
    keep = [1, 2, 4, 8]
    X = np.concatenate([r0, v0], 1)[keep].astype(ctx.dtype)
    T = np.array([1.5, -0.7, 3.0, 0.1], ctx.dtype)
    M = np.array([1.0, 0.8, 1.2, 1.0], ctx.dtype)
    J = np.array([1e-3, 0.0, -2e-2, 1e-2], ctx.dtype)
    terms = diffeq.ODETerm(dyn.field(adx, ("point_mass_grav", "j2_acc")))
    tol = 3e-5 if not ctx.x64 else 1e-6

    def mk(kind):
        def call(x, t, m, j):
            od = P.OrbDynx(terms, {"mu": m, "J2": j, "R_eq": 0.9})
            if kind == "to_final":
                return P.to_final(od, x, t).ys[0]
            if kind == "custom_steps":
                return P.custom_steps(od, x, t, jnp.asarray([0.25, 1.0], x.dtype) * t).ys[-1]
            if kind == "fixed_steps":
                s = P.fixed_steps(od, x, t, t / 50, max_steps=64)
            elif kind == "adaptive_steps":
                s = P.adaptive_steps(od, x, t, max_steps=128)
            else:
                return P.cowell_method(od, x, t, diffeq.SaveAt(t1=True)).ys[0]
            k = jnp.sum(jnp.isfinite(s.ts)) - 1
            return s.ys[k]

        return call

    for kind in p["entries"]:
        if ctx.late():
            break
        f = mk(kind)
        jf = jax.jit(f)
        vals = [X, T, M, J]
        memo = {}

        def single(ix):
            if ix not in memo:
                memo[ix] = np.asarray(jf(*[v[i] for v, i in zip(vals, ix)]))
            return memo[ix]

        n = len(keep)
        for i in range(n):
            want = np.asarray(f(*[jnp.asarray(v[i]) for v in vals]))
            # Python numbers for time and parameters
            want2 = np.asarray(f(jnp.asarray(X[i]), float(T[i]), float(M[i]), float(J[i])))
            ctx.close("plain entry point equals compiled one", single((i,) * 4), want.astype(LD), tol * (1 + np.abs(want).max()), entry=kind, i=i)
            ctx.close("plain entry point with Python numbers", want2, want.astype(LD), tol * (1 + np.abs(want).max()), entry=kind, i=i)
            ctx.count(states=1, traces=2)
        for S in subsets(4, ctx.x64 or ctx.tier == "thorough"):
            g = jax.jit(jax.vmap(f, in_axes=[0 if j in S else None for j in range(4)]))
            for h in (0, 2) if len(S) < 4 else (0,):
                idx = [tuple(i if j in S else h for j in range(4)) for i in range(n)]
                want = np.stack([single(ix) for ix in idx])
                got = np.asarray(g(*[v if j in S else v[h] for j, v in enumerate(vals)]))
                ctx.close("vectorised entry point equals single calls", got, want.astype(LD), tol * (1 + np.abs(want).max(-1, keepdims=True)), entry=kind, mapped=str(S), inputs=np.array([str(i) for i in idx]))
                ctx.count(states=n, traces=n)


def implicit(name, vals, i):
    """Exact solution and its partial derivatives from the implicit function theorem."""
    a = [LD(v[i]) for v in vals]
    if name == "solve_kepler_elps":
        E = ref.solve_elps(np.array([a[0]]), np.array([a[1]]))[0]
        d = 1 - a[1] * np.cos(E)
        return E, [1 / d, np.sin(E) / d]
    if name == "solve_kepler_hypb":
        H = ref.solve_hypb(np.array([a[0]]), np.array([a[1]]))[0]
        d = a[1] * np.cosh(H) - 1
        return H, [1 / d, -np.sinh(H) / d]
    t, al, r0, s0, m = a
    chi = ref.solve_uni(np.array([t]), np.array([al]), np.array([r0]), np.array([s0]), m)[0]
    U = ref.ufuncs(np.array([chi]), np.array([al]))
    U = [u[0] for u in U]
    r = r0 * U[0] + s0 * U[1] + U[2]
    dU = lambda n: ((chi * U[n + 1] - n * U[n + 2]) if n + 2 <= 5 else None)  # dU_n/dalpha = -(chi U_{n+1} - n U_{n+2}) / 2
    fal = -0.5 * (r0 * dU(1) + s0 * dU(2) + dU(3))
    return chi, [np.sqrt(m) / r, -fal / r, -U[1] / r, -U[2] / r, t / (2 * np.sqrt(m)) / r]


def run_derivatives(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx

    F = [f for f in cat.catalog(adx) if not f.kinky and f.name != "kepler"]
    for f in share(F, *p["part"]):
        if ctx.late():
            break
        vals = f.values(np.float64)
        k = len(vals)
        for j in range(k):
            comps = range(vals[j].shape[1]) if vals[j].ndim > 1 else [None]
            for c in comps:
                e = np.zeros(vals[j].shape[1:])
                if c is None:
                    e = np.array(1.0)
                else:
                    e[c] = 1.0
                if f.name == "right_ascension" and c == 2:
                    continue  # a node vector has no polar component

                def along(h, *a):
                    a = list(a)
                    a[j] = a[j] + h * e
                    return f.call(*a)

                D = lambda *a: jax.jvp(lambda h: along(h, *a), (jnp.zeros(()),), (jnp.ones(()),))[1]
                got = {"jit of vmap": jax.jit(jax.vmap(D))(*vals)}
                jD = jax.jit(D)
                one = [jD(*[v[i] for v in vals]) for i in range(cat.N)]
                got["jit"] = jax.tree_util.tree_map(lambda *z: np.stack([np.asarray(y) for y in z]), *one)
                if f.name in SOLVERS:
                    want = [np.array([implicit(f.name, vals, i)[1][j] for i in range(cat.N)])]
                    tol = [1e-5 * (1 + np.abs(want[0])) + 2e-5 * np.abs(want[0]) ** 2]
                else:
                    sc = np.maximum(1.0, np.abs(vals[j]).reshape(cat.N, -1).max(1))
                    h = 1e-3 * min(1.0, float(sc.min()))
                    if f.name in ("ufunc0", "ufunc1", "ufunc2", "ufunc3", "ufunc4", "ufunc5", "kepler_equ_uni") and f.args[j][0] == "alpha":
                        h = 2e-4
                    V = jax.jit(jax.vmap(lambda hh, *a: along(hh, *a), in_axes=(None,) + (0,) * k))
                    g = lambda q: [np.asarray(z) for z in (V(q * h, *vals) if f.multi else [V(q * h, *vals)])]
                    a1, b1, a2, b2 = g(1.0), g(-1.0), g(2.0), g(-2.0)
                    want = [(8 * (x - y) - (z - w)) / (12 * h) for x, y, z, w in zip(a1, b1, a2, b2)]
                    tol = [3e-7 * (1 + np.abs(w).reshape(cat.N, -1).max(1)).reshape((-1,) + (1,) * (w.ndim - 1)) for w in want]
                    # angles wrap: compare modulo a full turn is not needed away from the wrap, which the inputs avoid
                for how, r in got.items():
                    for o, z in enumerate(r if f.multi else [r]):
                        ctx.close("forward derivative", np.asarray(z), want[o].astype(LD), tol[o], fn=f.name, argument=f.args[j][0], component=c, output=o, how=how, index=np.arange(cat.N))
                ctx.count(states=cat.N, traces=2 * cat.N)
        ctx.sample(fn=f.name, arguments=k)
