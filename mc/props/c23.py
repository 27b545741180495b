"""C23: undefined inputs stay undefined and confined: every subset of the input numbers of every call."""
import itertools

import numpy as np

from mc import catalog as cat

BOUNDS = (
    "every function of the catalogue x every subset of its input numbers up to size 3 (quick) / 5 (thorough) and all of them replaced by NaN x 12 base inputs (elliptic, near-parabolic, hyperbolic), compiled; "
    "every single input number in plain calls; confinement: batches of 12 (direct and vmap) with each single row, and each pair of rows (thorough: every subset of 4 rows), undefined in each argument; "
    "Kepler propagation with every subset of 6 requested times undefined or infinite; vmapped fixed-step propagation with each lane undefined; float32 and float64"
)
ASSUMPTIONS = ["a result is held to depend on an input number if exchanging that number for one of 11 other valid ones changes it"]


def jobs(tier):
    out = []
    for x in (True, False):
        s = "f64" if x else "f32"
        for k in range(3):
            out.append((f"subsets-{s}-{k}", x, dict(kind="subsets", part=(k, 3))))
            out.append((f"rows-{s}-{k}", x, dict(kind="rows", part=(k, 3))))
        out.append((f"eager-{s}", x, dict(kind="eager")))
        out.append((f"times-{s}", x, dict(kind="times")))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def flat(f, r):
    return [np.asarray(z) for z in (r if f.multi else [r])]


def components(vals):
    return [(j, c) for j, v in enumerate(vals) for c in np.ndindex(*v.shape[1:])]


def dependence(f, vals, call):
    """dep[row][component] = per output, the elements that change when the component takes another valid value."""
    comps = components(vals)
    n = cat.N
    rows = [(i, k, m) for i in range(n) for k in range(len(comps)) for m in range(n)]
    big = [np.repeat(v, len(comps) * n, 0) for v in vals]
    for q, (i, k, m) in enumerate(rows):
        j, c = comps[k]
        big[j][(q,) + c] = vals[j][(m,) + c]
    outs = flat(f, call(*big))
    dep, base = [], []
    for o in outs:
        o = o.reshape((n, len(comps), n) + o.shape[1:])
        b = np.stack([o[i, 0, i] for i in range(n)])
        with np.errstate(all="ignore"):
            sc = np.abs(b.astype(float))[:, None, None] + 1e-3
            d = (np.abs(o.astype(float) - b.astype(float)[:, None, None]) > 1e-3 * sc) & np.isfinite(o.astype(float))
        dep.append(d.any(2) & np.isfinite(b.astype(float))[:, None])
        base.append(b)
    return comps, dep, base


def part(fns, p):
    g, n = p["part"]
    return sorted(fns, key=lambda f: (-sum(4 if k == "v" else 1 for k in f.kinds), f.name))[g::n]


def run_subsets(ctx, p):
    import jax
    import astrodynx as adx

    top = 3 if ctx.tier == "quick" else 5
    # predicates and counts select by comparisons, which are false beside an undefined number
    fns = part([f for f in cat.catalog(adx) if not f.kinky], p)
    for f in fns:
        vals = f.values(ctx.dtype)
        call = jax.jit(jax.vmap(f.call))
        comps, dep, base = dependence(f, vals, call)
        n, C = cat.N, len(comps)
        subs = [s for k in range(1, min(top, C) + 1) for s in itertools.combinations(range(C), k)]
        subs += [tuple(range(C))]
        size = 4096
        for lo in range(0, len(subs), size):
            if ctx.late():
                return
            blk = subs[lo : lo + size]
            big = [np.repeat(v, len(blk), 0) for v in vals]
            D = [np.zeros((n, len(blk)) + d.shape[2:], bool) for d in dep]
            for q, s in enumerate(blk):
                for k in s:
                    j, c = comps[k]
                    big[j].reshape((n, len(blk)) + vals[j].shape[1:])[(slice(None), q) + c] = np.nan
                    for d, e in zip(D, dep):
                        d[:, q] |= e[:, k]
            pad = size - len(blk) if len(subs) > size else 0
            if pad:
                big = [np.concatenate([b, np.repeat(b[:1], pad * n, 0)]) for b in big]
            outs = flat(f, call(*big))
            ctx.count(states=n * len(blk), traces=n * len(blk), transitions=n * len(blk))
            for o, (z, d) in enumerate(zip(outs, D)):
                if z.dtype.kind not in "fc":
                    continue
                z = z[: n * len(blk)].reshape(d.shape)
                bad = d & np.isfinite(z)
                for w in np.argwhere(bad)[:4]:
                    s = [f.args[comps[k][0]][0] + str(list(comps[k][1]) or "") for k in blk[w[1]]]
                    ctx.fail("result of an undefined input is undefined", fn=f.name, undefined=s, row=int(w[0]), output=o, element=str(tuple(w[2:])), got=float(z[tuple(w)]), defined=float(base[o][(w[0],) + tuple(w[2:])]))
        ctx.sample(fn=f.name, subsets=len(subs), components=C)


def run_eager(ctx, p):
    import jax
    import astrodynx as adx

    for f in cat.catalog(adx):
        if ctx.late():
            return
        if f.kinky:
            continue
        vals = f.values(ctx.dtype)
        comps, dep, base = dependence(f, vals, jax.jit(jax.vmap(f.call)))
        for k, (j, c) in enumerate(comps):
            for i in (k % cat.N,) if ctx.tier == "quick" else range(0, cat.N, 3):
                a = [np.array(v[i]) for v in vals]
                a[j][c] = np.nan
                try:
                    out = flat(f, f.call(*[jax.numpy.asarray(z) for z in a]))
                except Exception as ex:
                    ctx.fail("plain call with an undefined number raises", fn=f.name, undefined=f.args[j][0], row=i, error=repr(ex)[:200])
                    continue
                ctx.count(states=1, traces=1, transitions=1)
                for o, z in enumerate(out):
                    if z.dtype.kind not in "fc" or z.shape != base[o].shape[1:]:
                        continue
                    bad = dep[o][i, k] & np.isfinite(z)
                    if bad.any():
                        ctx.fail("result of an undefined input is undefined (plain call)", fn=f.name, undefined=f.args[j][0], component=str(c), row=i, output=o, got=z.tolist())
    ctx.sample(call="plain")


def run_rows(ctx, p):
    """A batch in which some rows are undefined: the other rows are what they are without them."""
    import jax
    import astrodynx as adx

    n = cat.N
    sets = [(i,) for i in range(n)] + [s for s in itertools.combinations(range(n), 2)]
    if ctx.tier != "quick":
        sets += [s for s in itertools.combinations(range(n), 4)] + [tuple(range(n))]
    for f in part(cat.catalog(adx), p):
        vals = f.values(ctx.dtype)
        forms = [("vmap", jax.jit(jax.vmap(f.call)), vals)]
        # direct batches where all arguments take arrays of rows
        if f.bcast and not any(k in "S" for k in f.kinds):
            forms.append(("batch", jax.jit(f.call), [v[:, None] if k == "c" else v for v, k in zip(vals, f.kinds)]))
        elif f.name.startswith("ufunc"):
            forms.append(("batch", jax.jit(f.call), [vals[0], vals[1][0]]))
        for how, call, V in forms:
            base = flat(f, call(*V))
            for j, v in enumerate(V):
                if v.shape[:1] != (n,):
                    continue
                if ctx.late():
                    return
                for s in sets:
                    a = [np.array(z) for z in V]
                    a[j][list(s)] = np.nan
                    out = flat(f, call(*a))
                    keep = np.array([i for i in range(n) if i not in s], int)
                    ctx.count(states=1, traces=1, transitions=len(keep))
                    for o, (z, b) in enumerate(zip(out, base)):
                        if z.shape != b.shape:
                            ctx.fail("shape with undefined rows", fn=f.name, how=how)
                            continue
                        zz, bb = z[keep].astype(float), b[keep].astype(float)
                        with np.errstate(all="ignore"):
                            ok = (zz == bb) | (np.abs(zz - bb) <= 16 * ctx.eps * (np.abs(bb) + np.abs(bb).max(initial=0) * 1e-3)) | (np.isnan(zz) & np.isnan(bb))
                        if not ok.all():
                            w = np.argwhere(~ok)[0]
                            ctx.fail("rows beside an undefined one are unaffected", fn=f.name, how=how, undefined=f.args[j][0], rows=list(s), row=int(keep[w[0]]), output=o, got=float(zz[tuple(w)]), want=float(bb[tuple(w)]))
        ctx.sample(fn=f.name, sets=len(sets))


def run_times(ctx, p):
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from mc import dyn

    P = adx.prop
    r0, v0 = cat.orbit_states()
    r0, v0 = r0.astype(ctx.dtype), v0.astype(ctx.dtype)
    T = np.array([0.0, 0.3, -2.0, 15.0, 1e-6, 4.0], ctx.dtype)
    call = jax.jit(adx.prop.kepler)
    for i in range(cat.N):
        base = [np.asarray(z) for z in call(T, r0[i], v0[i])]
        for s in itertools.product((0, 1, 2, 3), repeat=len(T)):
            # quick: up to three undefined times, every combination of NaN, inf and -inf among them
            k = sum(q > 0 for q in s)
            if k == 0 or (ctx.tier == "quick" and k > 2):
                continue
            t = np.where(np.array(s) == 0, T, np.array([0, np.nan, np.inf, -np.inf])[list(s)]).astype(ctx.dtype)
            out = [np.asarray(z) for z in call(t, r0[i], v0[i])]
            ctx.count(states=1, traces=1, transitions=len(T))
            good = np.array(s) == 0
            for z, b, nm in zip(out, base, ("position", "velocity")):
                if z.shape != b.shape:
                    ctx.fail("shape with undefined times", times=t.tolist())
                    continue
                with np.errstate(all="ignore"):
                    ok = np.abs(z[good] - b[good]) <= 16 * ctx.eps * np.abs(b[good]).max(initial=0)
                ctx.check(ok.all(), "rows of the defined times are unaffected: " + nm, state=i, times=t.tolist())
                ctx.check(np.isnan(z[~good]).any(1).all(), "row of an undefined time is undefined: " + nm, state=i, times=t.tolist(), got=z.tolist())
    ctx.sample(times=T.tolist(), states=cat.N)
    # lanes of a vmapped fixed-step propagation
    x = np.concatenate([r0, v0], 1)
    arc = lambda y, m: P.fixed_steps(P.OrbDynx(terms=adx.diffeq.ODETerm(dyn.field(adx, ("point_mass_grav", "j2_acc"))), args={"mu": m, "J2": 1e-3, "R_eq": 0.5}), y, 1.0, 0.25).ys
    lanes = jax.jit(jax.vmap(arc))
    M = np.linspace(0.8, 1.2, cat.N).astype(ctx.dtype)
    base = np.asarray(lanes(x, M))
    for i in range(cat.N):
        for j in list(range(6)) + ["mu"]:
            y, m = x.copy(), M.copy()
            if j == "mu":
                m[i] = np.nan
            else:
                y[i, j] = np.nan
            out = np.asarray(lanes(y, m))
            keep = np.arange(cat.N) != i
            ctx.count(states=1, traces=1, transitions=cat.N)
            same = (out[keep] == base[keep]) | ~np.isfinite(base[keep]) & ~np.isfinite(out[keep])
            near = np.abs(out[keep] - base[keep]) <= 64 * ctx.eps * np.abs(np.where(np.isfinite(base[keep]), base[keep], 0)).max()
            ctx.check((same | near).all(), "lanes beside an undefined one are unaffected", lane=i, undefined=str(j))
            ctx.check(~np.isfinite(out[i][1:]).all(-1).any(), "propagated states of an undefined problem are undefined", lane=i, undefined=str(j))
