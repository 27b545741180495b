"""C15: broadcasting over all shape assignments, and precision of results."""
import itertools

import numpy as np

from mc import catalog as cat
from mc import ref

BOUNDS = (
    "for each of the broadcasting functions of the catalogue: every assignment of the shapes {(), (1,), (B,), (A,1), (A,B), (C,1,B)} to its arguments (all assignments for up to 3 "
    "arguments; for more arguments every assignment that differs from a uniform one in at most 2 (quick) / 3 (thorough) arguments); every prefix of optional arguments omitted; arguments as "
    "jax arrays, numpy arrays and (for single numbers) Python numbers; results compared with the one-by-one calls; every function of the catalogue in float32 and, with 64-bit "
    "enabled, in both precisions, with Python numbers for every subset of the single-number arguments"
)
ASSUMPTIONS = [
    "a component of a tuple result that does not depend on some argument may keep the shape without that argument's axes (it must broadcast to the full shape)",
    "the one-by-one reference is the compiled scalar call (compilation itself is the subject of C16)",
]
LD = np.longdouble
A, B, C = 2, 3, 2
SHAPES = [(), (1,), (B,), (A, 1), (A, B), (C, 1, B)]
FULL = (C, A, B)


def jobs(tier):
    n = 6 if tier == "quick" else 12
    out = [(f"shapes-f32-{g}", False, dict(kind="shapes", part=(g, n))) for g in range(n)]
    out += [(f"shapes-f64-{g}", True, dict(kind="shapes", part=(g, n))) for g in range(n)]
    out += [("dtype-f64", True, dict(kind="dtype")), ("dtype-f32", False, dict(kind="dtype"))]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def assignments(kinds, tier, dev=None):
    opts = []
    for k in kinds:
        opts.append([()] if k == "S" else [(), (1,), (B,), (A, 1), (A, B)] + ([(C, 1, B)] if len(kinds) <= 3 else []))
    if len(kinds) <= 3:
        return list(itertools.product(*opts))
    dev = dev or (2 if tier == "quick" else 3)
    seen = []
    for base in opts[0] if opts[0] != [()] else opts[1]:
        for idx in itertools.combinations(range(len(kinds)), dev):
            for alt in itertools.product(*[opts[i] for i in idx]):
                a = [base if base in o else () for o in opts]
                for i, s in zip(idx, alt):
                    a[i] = s
                seen.append(tuple(a))
    return sorted(set(seen), key=str)


def grid(vals, lead, kind):
    """Values over the full (C, A, B) lattice, reduced to the leading shape; and the full index map."""
    core = vals.shape[1:] if kind in "v" else ()
    idx = np.arange(C * A * B).reshape(FULL) % cat.N
    full = np.broadcast_shapes(lead, FULL)
    assert full == FULL
    pad = (1,) * (3 - len(lead)) + lead
    sl = tuple(slice(0, n) for n in pad)
    sub = idx[sl].reshape(lead)
    out = vals[sub]
    if kind == "c" and lead:
        out = out[..., None]
    return out, np.broadcast_to(sub.reshape(pad), FULL)


def run_shapes(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx

    g, n = p["part"]
    fns = [f for f in cat.catalog(adx) if f.bcast]
    # the conditionals of the universal functions compile anew at every plain call: spread them
    weight = sorted(fns, key=lambda f: (f.name != "kepler_equ_uni", -len(f.kinds), f.name))
    for f in weight[g::n]:
        vals = f.values(ctx.dtype)
        scal = jax.jit(f.call)
        memo = {}

        def single(ix, nargs):
            k = (ix, nargs)
            if k not in memo:
                r = scal(*[vals[j][ix[j]] for j in range(nargs)])
                memo[k] = [np.asarray(z) for z in (r if f.multi else [r])]
            return memo[k]

        nk = len(f.kinds)
        slow = f.name == "kepler_equ_uni"  # compiles anew for every call: values for single deviations, shapes for all
        for na in range(nk - f.opt, nk + 1):
            few = set(assignments(f.kinds[:na], ctx.tier, 1)) if slow and nk > 3 else None
            for sh in assignments(f.kinds[:na], ctx.tier):
                if na < nk and len([s for s in sh if s]) > 2 and nk > 3:
                    continue  # omitted defaults: fewer deviations
                arrs, maps = zip(*[grid(vals[j], sh[j], f.kinds[j]) for j in range(na)])
                case = dict(fn=f.name, shapes=str(sh))
                lead = np.broadcast_shapes(*[s for s in sh])
                if few is not None and (sh not in few or na not in (nk, 3)):
                    w = jax.eval_shape(f.call, *[jnp.asarray(a) for a in arrs])
                    ctx.check(w.shape == lead, "result has the broadcast shape", got_shape=str(w.shape), want_shape=str(lead), **case)
                    ctx.count(states=1, traces=1)
                    continue
                how = (len(sh) + sum(map(len, sh))) % 3
                if how == 0:
                    call = [jnp.asarray(a) for a in arrs]
                elif how == 1:
                    call = list(arrs)
                else:
                    call = [float(a) if a.ndim == 0 and f.kinds[j] != "v" else jnp.asarray(a) for j, a in enumerate(arrs)]
                try:
                    got = f.call(*call)
                except Exception as ex:
                    ctx.fail("broadcasting call raises", error=repr(ex)[:300], **case)
                    continue
                got = [np.asarray(z) for z in (got if f.multi else [got])]
                cores = f.core if f.multi else [f.core]
                ctx.count(states=int(np.prod(FULL)), traces=1, transitions=1)
                full = (1,) * (3 - len(lead)) + lead
                for o, (w, core) in enumerate(zip(got, cores)):
                    nc = len(core)
                    shape = w.shape[: w.ndim - nc] if nc else w.shape
                    try:
                        fits = w.shape[w.ndim - nc :] == core and np.broadcast_shapes(shape, lead) == lead
                    except ValueError:
                        fits = False
                    if not f.multi:
                        fits = fits and shape == lead
                    if not fits:
                        ctx.fail("result has the broadcast shape", got_shape=str(w.shape), want_shape=str(lead + core), output=o, **case)
                        continue
                    W = np.broadcast_to(w, lead + core).reshape(full + core)
                    sel = tuple(slice(0, k) for k in full)
                    ids = np.stack([m[sel] for m in maps], -1).reshape(-1, na)
                    want = np.stack([single(tuple(int(q) for q in r), na)[o] for r in ids]).reshape((len(ids),) + core)
                    W = W.reshape((len(ids),) + core)
                    sc = 1 + np.abs(want.astype(LD))
                    if nc:
                        sc = sc.reshape(len(ids), -1).max(1).reshape((len(ids),) + (1,) * nc)
                    # float32 Python numbers take part at the precision of the arrays
                    # angles from arccos and cancelling differences amplify a last-bit difference of compiled code
                    ctx.close("element equals the individual call", W, want.astype(LD), (200 if f.name not in ("rv2coe", "true_anomaly", "argument_of_periapsis", "right_ascension", "inclination") else 2000) * ctx.eps * sc, fn=f.name, shapes=str(sh), output=o)
        ctx.sample(fn=f.name, calls=len(memo))


def run_dtype(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx

    for dt in ((np.float32, np.float64) if ctx.x64 else (np.float32,)):
        for f in cat.catalog(adx):
            vals = f.values(dt)
            nk = len(f.kinds)
            for na in range(nk - f.opt, nk + 1):
                if na == 0:
                    continue
                chk = lambda r, how, i: [ctx.check(z.dtype == dt or (f.kinky and z.dtype == bool), "precision of the result is that of the inputs", fn=f.name, nargs=na, dtype=str(z.dtype), inputs=str(np.dtype(dt)), how=how, i=i) for z in (r if f.multi else [r])]
                abst = lambda i: [jnp.asarray(v[i]) for v in vals[:na]]
                chk(jax.eval_shape(f.call, *abst(1)), "traced", 1)
                # Python numbers for any subset of the single-number arguments do not change the precision
                num = [j for j in range(na) if f.kinds[j] in "sSc"]
                for m in range(1, len(num) + 1):
                    for sub in itertools.combinations(num, m):
                        if len(sub) == na or (f.name == "coe2rv" and set(sub) >= {0, 1, 2, 3, 4, 5}):
                            continue  # the position would depend on Python numbers only
                        fixed = {j: float(vals[j][1]) for j in sub}
                        rest = [j for j in range(na) if j not in fixed]
                        g = lambda *z: f.call(*[fixed[j] if j in fixed else z[rest.index(j)] for j in range(na)])
                        try:
                            chk(jax.eval_shape(g, *[jnp.asarray(vals[j][1]) for j in rest]), "Python numbers at " + str(sub), 1)
                        except Exception as ex:
                            ctx.fail("Python numbers among the arguments raise", fn=f.name, sub=str(sub), error=repr(ex)[:200], inputs=str(np.dtype(dt)))
                        ctx.count(states=1, traces=1)
                ctx.count(states=1, traces=1)
            for i in (1, 7):
                chk(f.call(*[jnp.asarray(v[i]) for v in vals]), "jax arrays", i)
                if not (f.name.endswith("_acc") or f.name in ("point_mass_grav", "radius_islow", "kepler")):
                    chk([np.asarray(z) for z in f.call(*[np.asarray(v[i]) for v in vals])] if f.multi else np.asarray(f.call(*[np.asarray(v[i]) for v in vals])), "numpy arrays", i)
                ctx.count(states=1, traces=1)
    # integers are numbers too
    for f in cat.catalog(adx):
        ints = {k: (1, 2, 0, 3, 1, 2, 1) for k in ("ufunc0", "ufunc1", "ufunc2", "ufunc3", "ufunc4", "ufunc5", "kepler_equ_uni", "mean_anomaly_elps", "orb_period", "a_from_period", "lagrange_G", "rotmat3dx", "rotmat3dy", "rotmat3dz", "semiparameter", "equ_of_orb_uvi", "dE", "dH", "kepler_equ_elps")}
        if f.name in ints:
            a = [max(1, k) if f.args[j][0] in ("mu", "a", "P", "r0") else k for j, k in enumerate(ints[f.name][: len(f.kinds)])]
            for how in (int, jnp.asarray):
                try:
                    g1 = np.asarray(f.call(*[how(z) for z in a]))
                    g2 = np.asarray(f.call(*[float(z) for z in a]))
                    ctx.close("integer arguments", g1, g2.astype(LD), 50 * ctx.eps * (1 + np.abs(g2)), fn=f.name)
                except Exception as ex:
                    ctx.fail("integer arguments raise", fn=f.name, error=repr(ex)[:200])
                ctx.count(states=1, traces=1)
