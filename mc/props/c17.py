"""C17: call histories.  Every result must be the same bit pattern whatever was called before."""
import itertools
import json
import os
import subprocess
import sys
import tempfile
import time

import numpy as np

BOUNDS = (
    "histories are walks that contain every word of the stated length over the alphabet as consecutive calls (de Bruijn sequences), executed on the real library in fresh processes: "
    "(1) per function of the catalogue (56): alphabet {two different inputs, defaults omitted, Python numbers, numpy inputs, batch, forward derivative, compiled, trace without execution, the other precision, failing call}, "
    "and, per function, one input with each single argument exchanged (pairs in all orders; partial memoisation would show); all words of length 3 (quick; 2 in 64-bit mode) / 4 (thorough) for cheap functions, 2 / 3 for the solvers and functions built on them; (2) across functions: all ordered pairs of functions (quick: without pairs of two solvers, and `kepler` and `dxdx0` after 14 representatives) and all "
    "ordered triples of 14 representatives (thorough); (3) the numerical entry points incl. default arguments, shared argument dictionaries, events, exhausted step limits, failing user fields, missing arguments and user fields with arguments of their own: all words of length 2 / 3; "
    "every walk is run a second time in another fresh process with the alphabet reversed, so that each call occurs first before each other call; float32 mode and 64-bit mode"
)
ASSUMPTIONS = [
    "the same call on the same machine is bit-reproducible (same compiled program): any difference between two occurrences is caused by the history",
    "a lazily filled internal cache is allowed as long as no result, argument, default argument or configuration value changes",
]
SLOW = ("kepler_equ_uni", "solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni", "ufunc0", "ufunc1", "ufunc2", "ufunc3", "ufunc4", "ufunc5", "dxdx0", "kepler")
REPS = ("kepler_equ_elps", "mean_anomaly_hypb", "orb_period", "eccentricity_vector", "rv2coe", "coe2rv", "lagrange_G", "C_func", "prpr0", "pass_perigee", "rp_islower_rmin", "j2_acc", "radius_islow", "rotmat3dy")


def jobs(tier):
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        out += [(f"functions-{s}-{g}", x, dict(kind="functions", part=(g, 7))) for g in range(7)]
        out += [(f"pairs-{s}-{g}", x, dict(kind="pairs", part=(g, 4))) for g in range(4)]
        if tier != "quick":
            out += [(f"triples-{s}-{g}", x, dict(kind="triples", part=(g, 4))) for g in range(4)]
        out += [(f"entries-{s}", x, dict(kind="entries", part=(0, 1)))]
    return out


def de_bruijn(k, n):
    """Cyclic sequence over range(k) with every word of length n once; returned unrolled."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def walks(p, tier, x64, rev):
    """List of walks; a walk is a list of (function name, variant)."""
    arity = catalogue_names()
    names = list(arity)
    g, n = p["part"]
    q = tier == "quick"
    if p["kind"] == "functions":
        mine = [nm for nm in SLOW][g::n] + [nm for nm in names if nm not in SLOW][g::n]
        mine = mine[::-1] if rev else mine
        w = []
        for nm in mine:
            if nm in SLOW:
                V, depth = ["A", "B", "D", "T"] if nm in ("kepler", "dxdx0") else ["A", "B", "D", "J", "W"], 2 if q else 3
            else:
                V, depth = ["A", "B", "D", "C", "N", "V", "G", "T", "P", "W"], 3 if q else 4
                if q and x64:
                    depth = 2
                if q:
                    V = ["A", "B", "D", "N", "V", "G", "T", "P", "W"]
                if not q:
                    V = V[:5] + ["G", "T", "W"]
            V = V[::-1] if rev else V
            w += [(nm, V[i]) for i in de_bruijn(len(V), depth)]
            k, kinky = arity[nm]
            for h in range(5 if kinky else 1):
                M = [f"M{h}"] + [f"M{h}.{j}" for j in range(k)]
                M = M[::-1] if rev else M
                w += [(nm, M[i]) for i in (de_bruijn(len(M), 2) if nm not in SLOW else range(len(M)))]
        return w
    if p["kind"] == "pairs":
        quickset = names[::-1] if rev else names
        seq = de_bruijn(len(quickset), 2)
        # slow functions among themselves are in the thorough walk only
        w = [(quickset[i], "AB"[k % 2]) for k, i in enumerate(seq)]
        if q:
            keep = []
            for k, (nm, v) in enumerate(w):
                heavy = nm in ("kepler", "dxdx0")
                if nm in SLOW and keep and (keep[-1][0] in SLOW or (heavy and (x64 or keep[-1][0] not in REPS))):
                    continue
                keep.append((nm, v))
            w = keep
        c = -(-len(w) // n)
        return w[max(0, g * c - 1) : (g + 1) * c]
    if p["kind"] == "triples":
        seq = de_bruijn(len(REPS), 3)
        R = REPS[::-1] if rev else REPS
        w = [(R[i], "ABGTW"[k % 5]) for k, i in enumerate(seq)]
        c = -(-len(w) // n)
        return w[max(0, g * c - 2) : (g + 1) * c]
    E = entry_names()[::-1] if rev else entry_names()
    return [(E[i], "A") for i in de_bruijn(len(E), 2 if q else 3)]


def catalogue_names():
    from mc import catalog as cat
    import astrodynx as adx

    return {f.name: (len(f.kinds), f.kinky) for f in cat.catalog(adx)}


def entry_names():
    return ["to_final", "to_final default", "fixed_steps", "custom_steps", "adaptive_steps", "cowell event", "shared args", "step limit", "failing field", "traced", "own field final", "own field fixed", "own field custom", "own field adaptive", "own field cowell", "missing argument", "missing coefficient", "missing threshold", "gravity default"]


# ---------------------------------------------------------------- child process
def digest(r):
    import jax

    out = []
    for z in jax.tree_util.tree_leaves(r):
        a = np.asarray(z)
        out.append((str(a.dtype), a.shape, a.tobytes().hex() if a.size <= 64 else __import__("hashlib").sha256(a.tobytes()).hexdigest()))
    return repr(out)


def deep(o):
    if isinstance(o, dict):
        return {k: deep(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [deep(v) for v in o]
    if isinstance(o, np.ndarray):
        return (str(o.dtype), o.shape, o.tobytes())
    if hasattr(o, "dtype") and hasattr(o, "shape"):
        return deep(np.asarray(o))
    if isinstance(o, (int, float, str, bool)) or o is None:
        return repr(o)
    return id(o)


def default_objects():
    """The default values of every public callable, by reference (for mutable ones, to re-read them after each call)."""
    import inspect

    import astrodynx as adx

    out = {}
    for mod in (adx, adx.twobody, adx.gravity, adx.events, adx.prop, adx.utils):
        for nm, f in vars(mod).items():
            if nm.startswith("_") or not callable(f):
                continue
            try:
                for a, prm in inspect.signature(f).parameters.items():
                    if isinstance(prm.default, (dict, list, set, np.ndarray)):
                        out[f"{mod.__name__}.{nm}({a})"] = prm.default
            except (TypeError, ValueError):
                pass
            for a, d in getattr(f, "_field_defaults", {}).items():
                if isinstance(d, (dict, list, set, np.ndarray)):
                    out[f"{mod.__name__}.{nm}.{a}"] = d
    return out


def config():
    import random

    import jax

    names = ("jax_enable_x64", "jax_debug_nans", "jax_debug_infs", "jax_disable_jit", "jax_default_matmul_precision", "jax_numpy_dtype_promotion", "jax_numpy_rank_promotion", "jax_default_device", "jax_default_prng_impl")
    return {**{n: repr(getattr(jax.config, n, None)) for n in names}, "np.err": repr(np.geterr()), "random": hash(random.getstate()), "np.random": hash(np.random.get_state()[1].tobytes()), "env": hash(frozenset(os.environ.items())), "print": repr(np.get_printoptions())}


def make_ops(x64):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq
    from mc import catalog as cat
    from mc import dyn

    dt = np.float64 if x64 else np.float32
    other = np.float32 if x64 else np.float64
    ops = {}
    for f in cat.catalog(adx):
        v = [a.astype(np.float32).astype(dt) for a in f.values(dt)]  # the same numbers in both precisions
        one = lambda i, v=v: [jnp.asarray(a[i]) for a in v]
        jf = jax.jit(f.call)

        def put(var, mk, go, name=f.name):
            ops[name, var] = (mk, go)

        # one argument exchanged: a result remembered for part of the arguments would be returned here
        pairs = [(1, 7), (0, 5), (3, 8), (2, 10), (4, 11)] if f.kinky else [(1, 7)]
        for h, (i1, i2) in enumerate(pairs):
            for k in range(len(v)):
                put(f"M{h}.{k}", lambda v=v, k=k, i1=i1, i2=i2: [jnp.asarray(a[i2 if j == k else i1]) for j, a in enumerate(v)], lambda a, f=f: f.call(*a))
            put(f"M{h}", lambda v=v, i1=i1: [jnp.asarray(a[i1]) for a in v], lambda a, f=f: f.call(*a))
        put("A", lambda one=one: one(1), lambda a, f=f: f.call(*a))
        put("B", lambda one=one: one(7), lambda a, f=f: f.call(*a))
        put("D", lambda one=one, f=f: one(4)[: len(f.kinds) - f.opt], lambda a, f=f: f.call(*a))
        put("C", lambda v=v, f=f: [float(a[3]) if k in "sS" else jnp.asarray(a[3]) for k, a in zip(f.kinds, v)], lambda a, f=f: f.call(*a))
        put("N", lambda v=v: [np.array(a[5]) for a in v], lambda a, f=f: f.call(*a))
        put("V", lambda v=v: [jnp.asarray(a[:3]) for a in v], lambda a, f=f: jax.vmap(f.call)(*a))
        put("J", lambda one=one: one(8), lambda a, jf=jf: jf(*a))
        put("T", lambda one=one: one(2), lambda a, f=f: jax.tree_util.tree_map(lambda z: np.array([ord(c) for c in str(z)]), [str(z) for z in jax.tree_util.tree_leaves(jax.eval_shape(lambda *b: f.call(*b), *a))]))
        if f.kinky:
            put("G", lambda one=one: one(6), lambda a, f=f: f.call(*a))
        else:
            put("G", lambda one=one: one(6), lambda a, f=f: jax.jvp(f.call, tuple(a), tuple(jnp.ones_like(z) for z in a)))

        def prec(a, f=f):
            with jax.enable_x64(True):
                return f.call(*a)

        def prec_args(f=f):
            with jax.enable_x64(True):
                return [jnp.asarray(a[1].astype(np.float32).astype(other)) for a in f.values(other)]

        put("P", prec_args, prec)
        put("W", lambda one=one: one(1)[:-1] + [object()], lambda a, f=f: f.call(*a))
    P = adx.prop
    field = dyn.field(adx, ("point_mass_grav", "j2_acc"))
    terms = diffeq.ODETerm(field)
    plain = diffeq.ODETerm(dyn.field(adx, ("point_mass_grav",)))
    bad = diffeq.ODETerm(lambda t, x, a: jnp.concatenate([x[3:], adx.gravity.j3_acc(t, x, a)]))
    X = np.array([1.0, 0.1, -0.2, 0.1, 1.05, 0.2], dt)
    own = diffeq.ODETerm(lambda t, x, a: jnp.concatenate([x[3:], -a["GM"] * x[:3] / jnp.linalg.norm(x[:3]) ** 3]))
    shared = {"mu": 1.1, "J2": 0.01, "R_eq": 0.9, "rmin": 0.9, "J3": 0.1}
    ev = diffeq.Event(adx.events.radius_islow)
    sol = lambda s: (s.ts, s.ys, np.asarray(s.stats["num_steps"]))
    put = lambda n, mk, go: ops.__setitem__((n, "A"), (mk, go))
    put("to_final", lambda: [jnp.asarray(X), {"mu": 1.0, "J2": 0.02, "R_eq": 1.0}], lambda a: sol(P.to_final(P.OrbDynx(terms, a[1]), a[0], 1.5)))
    put("to_final default", lambda: [jnp.asarray(X)], lambda a: sol(P.to_final(P.OrbDynx(plain), a[0], 1.5)))
    put("fixed_steps", lambda: [np.array(X), {"mu": 1.0}], lambda a: sol(P.fixed_steps(P.OrbDynx(plain, a[1]), a[0], 1.0, 0.25, max_steps=16)))
    put("custom_steps", lambda: [jnp.asarray(X), np.array([0.2, 0.9], dt), {"mu": 2.0}], lambda a: sol(P.custom_steps(P.OrbDynx(plain, a[2]), a[0], 1.0, a[1])))
    put("adaptive_steps", lambda: [jnp.asarray(-X), {"mu": 0.8}], lambda a: sol(P.adaptive_steps(P.OrbDynx(plain, a[1]), a[0], -1.0, max_steps=256)))
    put("cowell event", lambda: [jnp.asarray(X), {"mu": 3.0, "rmin": 0.9}], lambda a: sol(P.cowell_method(P.OrbDynx(plain, a[1], ev), a[0], 2.0, diffeq.SaveAt(t0=True, steps=True), max_steps=256)))
    put("shared args", lambda: [jnp.asarray(X), shared], lambda a: sol(P.to_final(P.OrbDynx(terms, a[1]), a[0], 0.7)))
    for kind, go in (("final", lambda od, x: P.to_final(od, x, 0.5)), ("fixed", lambda od, x: P.fixed_steps(od, x, 0.5, 0.1, max_steps=16)), ("custom", lambda od, x: P.custom_steps(od, x, 0.5, jnp.asarray([0.1, 0.5]))), ("adaptive", lambda od, x: P.adaptive_steps(od, x, 0.5, max_steps=64)), ("cowell", lambda od, x: P.cowell_method(od, x, 0.5, diffeq.SaveAt(t1=True)))):
        put("own field " + kind, lambda: [np.array(X), {"GM": 1.5}], lambda a, go=go: sol(go(P.OrbDynx(own, a[1]), a[0])))
    put("missing argument", lambda: [jnp.asarray(X), {"J2": 1.0}], lambda a: [G(0.0, a[0], a[1]) for G in (adx.gravity.point_mass_grav,)])
    put("missing coefficient", lambda: [jnp.asarray(X), {"mu": 1.0}], lambda a: adx.gravity.j2_acc(0.0, a[0], a[1]))
    put("missing threshold", lambda: [jnp.asarray(X), {"mu": 1.0}], lambda a: adx.events.radius_islow(0.0, a[0], a[1]))
    put("gravity default", lambda: [jnp.asarray(X)], lambda a: [G(0.0, a[0]) for G in (adx.gravity.point_mass_grav, adx.gravity.j2_acc, adx.gravity.j3_acc, adx.gravity.j4_acc, adx.events.radius_islow)])
    put("step limit", lambda: [jnp.asarray(X), {"mu": 1.0}], lambda a: sol(P.adaptive_steps(P.OrbDynx(plain, a[1]), a[0], 50.0, max_steps=4)))
    put("failing field", lambda: [jnp.asarray(X), {"mu": 1.0}], lambda a: sol(P.to_final(P.OrbDynx(bad, a[1]), a[0], 1.0)))
    put("traced", lambda: [jnp.asarray(X), {"mu": 1.0, "J2": 0.1, "R_eq": 1.0}], lambda a: [np.array(z.shape) for z in jax.tree_util.tree_leaves(jax.eval_shape(lambda x, m: P.to_final(P.OrbDynx(terms, m), x, 1.0).ys, *a))])
    return ops


def child(spec):
    s = json.load(open(spec))
    from mc import env

    env.load(s["x64"])
    ops = make_ops(s["x64"])
    objs = default_objects()
    d0, c0 = deep(objs), config()
    out = []
    soft = float(os.environ.get("MC_SOFT_DEADLINE", "inf"))
    for nm, var in s["walk"]:
        if time.time() > soft:
            break
        mk, go = ops[nm, var]
        args = mk()
        before = deep(args)
        try:
            r = digest(go(args))
        except Exception as ex:  # noqa: BLE001
            r = "raises " + type(ex).__name__
        note = []
        if deep(args) != before:
            note.append("arguments modified")
        d1, c1 = deep(objs), config()
        if d1 != d0:
            note.append("default arguments modified: " + str([k for k in d1 if d1[k] != d0.get(k)])[:300])
            d0 = d1
        if c1 != c0:
            note.append("configuration modified: " + str([(k, c0[k], c1[k]) for k in c1 if c1[k] != c0[k]])[:300])
            c0 = c1
        out.append((r, note))
    json.dump(out, open(s["out"], "w"))


# ---------------------------------------------------------------- explorer side
def run(ctx, p):
    W, W2 = [[tuple(w) for w in walks(p, ctx.tier, ctx.x64, rev)] for rev in (False, True)]
    scratch = tempfile.mkdtemp(prefix="c17_")
    seen = {}  # (function, variant) -> {result: first history}
    try:
        for k, walk in enumerate((W, W2)):
            spec, res = os.path.join(scratch, f"s{k}"), os.path.join(scratch, f"r{k}")
            json.dump(dict(x64=ctx.x64, walk=walk, out=res), open(spec, "w"))
            r = subprocess.run([sys.executable, "-c", "import sys; from mc.props import c17; c17.child(sys.argv[1])", spec], capture_output=True, text=True)
            if r.returncode:
                ctx.fail("history process failed", direction=k, error=(r.stdout + r.stderr)[-1500:])
                continue
            out = json.load(open(res))
            if len(out) < len(walk):
                ctx.late()
            ctx.count(states=len(out), transitions=max(0, len(out) - 1), traces=1)
            for i, (op, (val, note)) in enumerate(zip(walk, out)):
                h = [list(w) for w in walk[max(0, i - 3) : i + 1]]
                for n in note:
                    ctx.fail(n.split(":")[0], call=list(op), detail=n, history=h)
                d = seen.setdefault(op, {})
                if val not in d:
                    d[val] = (k, i, h)
                    if len(d) == 2:
                        a, b = list(d.items())
                        ctx.fail("result depends on the history", call=list(op), history_a=a[1][2], value_a=a[0][:300], at_a=list(a[1][:2]), history_b=b[1][2], value_b=b[0][:300], at_b=list(b[1][:2]))
                if val.startswith("raises") and op[1] not in "WP" and op[0] not in ("failing field", "step limit", "missing argument", "missing coefficient", "missing threshold"):
                    if (op, "r") not in seen:
                        seen[op, "r"] = {}
                        ctx.fail("valid call raises", call=list(op), error=val, history=h)
        ctx.extra["distinct_calls"] = ctx.extra.get("distinct_calls", 0) + len([k for k in seen if k[1] != "r"])
        ctx.sample(walk=[list(w) for w in W[:6]], length=len(W))
    finally:
        for f in os.listdir(scratch):
            os.remove(os.path.join(scratch, f))
        os.rmdir(scratch)
