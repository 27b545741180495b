"""C08: gravity accelerations against the complex-step gradient of the zonal potential."""
import itertools

import numpy as np

from mc import ref

BOUNDS = (
    "positions: all 26 axis/diagonal directions, 24 generic directions in all octants, directions within 1e-3 of the pole and the equator and at the "
    "zeros of the Legendre polynomials x 9 radii (0.3 to 1000 equatorial radii) x 7 unit systems x coefficients of both signs x {float32, float64}; "
    "latitude, longitude, radius and coefficient each in fine steps (2800 quick / 14000 thorough points per unit system); for every position: all subsets of irrelevant inputs perturbed (time, velocity, trailing components, unrelated arguments), linearity in mu and J"
)
ASSUMPTIONS = [
    "oracle: numerical complex-step gradient (80-bit) of U = mu/r [1 - sum J_n (R/r)^n P_n(z/r)] evaluated from the potential, not from an acceleration formula",
]
LD = np.longdouble
TERMS = ("point_mass_grav", "j2_acc", "j3_acc", "j4_acc")
KEY = {"j2_acc": "J2", "j3_acc": "J3", "j4_acc": "J4"}
DEG = {"j2_acc": 2, "j3_acc": 3, "j4_acc": 4}

# label, R_eq, mu
UNITS = [
    ("canonical", 1.0, 1.0),
    ("earth km", 6378.137, 398600.4418),
    ("earth m", 6378137.0, 3.986004418e14),
    ("moon km", 1737.4, 4902.8),
    ("au-day", 4.2635e-5, 8.997e-10),
    ("small", 2.0**-9, 3.0),
    ("jupiter km", 71492.0, 1.26686534e8),
]


def legendre(n, u):
    if n == 2:
        return (3 * u * u - 1) / 2
    if n == 3:
        return (5 * u**3 - 3 * u) / 2
    return (35 * u**4 - 30 * u * u + 3) / 8


def potential(term, x, mu, J, R):
    r = np.sqrt((x * x).sum(-1))
    if term == "point_mass_grav":
        return mu / r
    n = DEG[term]
    return -mu / r * J * (R / r) ** n * legendre(n, x[..., 2] / r)


def gradient(term, x, mu, J, R):
    """x: (N,3) longdouble.  Complex step relative to the radius."""
    r = ref.norm(x)
    out = []
    for k in range(3):
        h = r * LD(1e-40)
        xc = x.astype(np.clongdouble)
        xc[:, k] += 1j * h
        out.append(potential(term, xc, mu, J, R).imag / h)
    return np.stack(out, -1)


def scale(term, x, mu, J, R):
    r = ref.norm(x)
    if term == "point_mass_grav":
        return np.abs(mu) / r**2
    n = DEG[term]
    return {2: 12, 3: 30, 4: 90}[n] * np.abs(mu * J) * (R / r) ** n / r**2


def directions(tier):
    d = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)]
    d += [(sx * a, sy * b, sz * c) for a, b, c in ((1.0, 0.37, 0.81), (0.23, 0.9, 2.1), (1.3, 1.1, 0.17)) for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)]
    d += [(1e-3, 0, 1), (1e-3, -2e-3, -1), (0, 1e-3, 1), (1, 0.2, 1e-3), (-1, 0.5, -1e-3), (1e-6, 0, -1), (1, 1, 1e-6)]
    for u2 in (1 / 3, 1 / 5, 3 / 5, 3 / 7, (15 + 2 * 30**0.5) / 35, (15 - 2 * 30**0.5) / 35, 1 / 7, (7 + 28**0.5) / 21, (7 - 28**0.5) / 21):
        u, c = u2**0.5, (1 - u2) ** 0.5
        d += [(c * 0.6, c * 0.8, u), (-c * 0.28, c * 0.96, -u)]
    if tier != "quick":
        g = np.linspace(-1, 1, 41)
        for u in g:
            for lon in np.arange(0, 360, 15.0):
                c = (1 - u * u) ** 0.5
                d.append((c * np.cos(np.radians(lon)), c * np.sin(np.radians(lon)), u))
    d = np.array(d, float)
    return d / np.sqrt((d**2).sum(1))[:, None]


RADII = [0.3, 0.7, 1.0, 1.001, 1.05, 2.0, 6.6, 60.0, 1000.0]
JS = {"point_mass_grav": [0.0], "j2_acc": [1.0826e-3, -0.02], "j3_acc": [-2.53e-6, 0.01], "j4_acc": [-1.62e-6, 0.005]}


def jobs(tier):
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        out += [(f"values-{s}-{t}", x, dict(kind="values", term=t)) for t in TERMS]
        out += [(f"fine-{s}", x, dict(kind="fine"))]
        out += [(f"dependence-{s}", x, dict(kind="dependence"))]
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def run_values(ctx, p):
    import jax
    import astrodynx as adx

    term = p["term"]
    fn = getattr(adx.gravity, term)
    keys = ("mu",) if term == "point_mass_grav" else ("mu", KEY[term], "R_eq")
    call = jax.jit(jax.vmap(lambda x, a: fn(0.0, x, a), in_axes=(0, None)))
    D = directions(ctx.tier)
    for lab, R, mu in UNITS:
        for J in JS[term]:
            for rho in RADII:
                x = (D * rho * R).astype(ctx.dtype)
                m, j, q = ctx.dtype(mu), ctx.dtype(J), ctx.dtype(R)
                a = dict(zip(keys, (m, j, q)))
                got = np.asarray(call(x, a))
                want = gradient(term, x.astype(LD), LD(m), LD(j), LD(q))
                sc = scale(term, x.astype(LD), LD(m), LD(j), LD(q))
                tol = 24 * ctx.eps * sc[:, None]
                big = np.finfo(ctx.dtype).max
                r = ref.norm(x.astype(LD))
                rep = (sc > 1e4 * np.finfo(ctx.dtype).tiny / ctx.eps) & (sc < big / 1e4) & (r**3 < big / 1e3)

                def keyf(row, got=got, x=x, r=r, lab=lab, rho=rho, rep=rep):
                    if not ctx.x64 and term in ("j3_acc", "j4_acc"):
                        i = np.flatnonzero(rep)[row]
                        if r[i] ** 7 >= big and not got[i].any():
                            return f"{term} float32 zero: units={lab} r/R_eq={rho}"
                        if r[i] ** 7 >= big and np.isnan(got[i]).all():
                            return f"{term} float32 nan: units={lab} r/R_eq={rho} J={J}"
                    return None

                ctx.close(f"{term} is the gradient of its potential", got[rep], want[rep], tol[rep], keyf=keyf, x=x[rep], args=str({k: float(v) for k, v in a.items()}), units=lab, rho=rho)
                ctx.count(states=rep.sum(), traces=rep.sum())
                if rho == 2.0 and lab == "canonical":
                    ctx.sample(x=x[30], mu=mu, J=J, got_acc=got[30], exact=want[30])


def run_fine(ctx, p):
    """Fine steps of latitude, longitude, radius and coefficient, one at a time."""
    import jax
    import astrodynx as adx

    m = 1 if ctx.tier == "quick" else 5
    u = np.linspace(-1, 1, 401 * m)
    lon = (np.arange(240 * m) + 0.5) * np.pi / (120 * m)
    rho = 10.0 ** np.linspace(-0.6, 3, 240 * m)
    pol = lambda u, l: np.stack([np.sqrt(np.maximum(0, 1 - u * u)) * np.cos(l), np.sqrt(np.maximum(0, 1 - u * u)) * np.sin(l), u + 0 * l], -1)
    X = [pol(u, l + 0 * u) * r for l, r in ((0.9, 1.1), (-2.2, 1.1), (2.9, 8.3))]
    X += [pol(lon * 0 + v, lon) * r for v, r in ((0.31, 1.1), (-0.62, 1.1), (0.0, 8.3))]
    X += [pol(rho * 0 + v, rho * 0 + l) * rho[:, None] for v, l in ((0.31, 0.9), (-0.62, -2.2))]
    X = np.concatenate(X)
    fam = ["position"] * len(X)
    k = 10.0 ** np.linspace(-7, 2, 180 * m)
    k = np.concatenate([k, -k])
    J = np.concatenate([np.full(len(X), 2.3e-3), k])
    X = np.concatenate([X, np.broadcast_to(pol(np.array([0.31]), np.array([0.9])) * 1.3, (len(k), 3))])
    fam = np.array(fam + ["coefficient"] * len(k))
    for lab, R, mu in (UNITS[0], UNITS[1], UNITS[4]):
        for term in TERMS:
            fn = getattr(adx.gravity, term)
            keys = ("mu",) if term == "point_mass_grav" else ("mu", KEY[term], "R_eq")
            x, j = (X * R).astype(ctx.dtype), J.astype(ctx.dtype)
            a = dict(zip(keys, (np.full(len(x), mu, ctx.dtype), j, np.full(len(x), R, ctx.dtype))))
            got = np.asarray(jax.jit(jax.vmap(lambda x, a: fn(0.0, x, a)))(x, a))
            xl = x.astype(LD)
            args = [LD(ctx.dtype(mu)), j.astype(LD), LD(ctx.dtype(R))]
            want, sc, r = gradient(term, xl, *args), scale(term, xl, *args), ref.norm(xl)
            big = np.finfo(ctx.dtype).max
            rep = (sc > 1e4 * np.finfo(ctx.dtype).tiny / ctx.eps) & (sc < big / 1e4) & (r**3 < big / 1e3) & (np.abs(r**7 * 1e4) < big) & (r**7 > 1e6 * np.finfo(ctx.dtype).tiny)
            if term in ("point_mass_grav", "j2_acc"):
                rep = (sc > 1e4 * np.finfo(ctx.dtype).tiny / ctx.eps) & (r**3 < big / 1e3)
            ctx.close(f"{term} is the gradient of its potential, fine steps", got[rep], want[rep], (24 * ctx.eps * sc[:, None])[rep], x=x[rep], J=j[rep], units=lab, family=fam[rep])
            ctx.count(states=rep.sum(), traces=rep.sum())


def run_dependence(ctx, p):
    """Only the position and the named parameters matter; linear in mu and J."""
    import jax
    import jax.numpy as jnp
    import astrodynx as adx

    D = directions("quick")[::5]
    vals = {"mu": 1.7, "J2": 1e-3, "J3": -2.5e-4, "J4": 3e-4, "R_eq": 0.9}
    other = {"mu": 3.3, "J2": 0.5, "J3": 0.7, "J4": -0.9, "R_eq": 2.5, "rmin": 0.2, "cd": 2.2}
    for term in TERMS:
        fn = getattr(adx.gravity, term)
        own = ("mu",) if term == "point_mass_grav" else ("mu", KEY[term], "R_eq")
        base_args = {k: vals[k] for k in own}
        unrelated = [k for k in other if k not in own]
        # -- trailing state components, time, unrelated arguments: every subset perturbed
        tails = {"none": [], "vel": [0.3, -0.8, 0.5], "vel big": [1e8, -1e8, 3.0], "nan vel": [np.nan] * 3, "long": [0.1, 0.2, 0.3, 4.0, -5.0, 1e6]}
        times = [0.0, -3.7, 1e9, 5]
        extras = [(), tuple(unrelated)] + [(k,) for k in unrelated]
        f = {}
        ref_out = np.asarray(jax.vmap(lambda x: fn(0.0, x, base_args))((D * 1.3).astype(ctx.dtype)))
        want = gradient(term, (D * 1.3).astype(ctx.dtype).astype(LD), *[LD(ctx.dtype(v)) for v in (vals["mu"], vals.get(KEY.get(term), 0.0), vals["R_eq"])])
        tol = 30 * ctx.eps * scale(term, (D * 1.3).astype(LD), LD(1.7), LD(vals.get(KEY.get(term), 0)), LD(0.9))[:, None]
        for (tn, tail), t, ex in itertools.product(tails.items(), times, extras):
            x = np.concatenate([D * 1.3, np.tile(np.array(tail, float), (len(D), 1))], 1).astype(ctx.dtype)
            args = dict(base_args)
            args.update({k: other[k] for k in ex})
            if (len(tail), len(ex)) not in f or True:
                got = np.asarray(jax.vmap(lambda x: fn(t, x, args))(x))
            case = dict(term=term, tail=tn, t=t, extra=str(ex))
            ctx.check(got.shape == (len(D), 3), "acceleration has three components", shape=got.shape, **case)
            if got.shape == want.shape:
                ctx.close("acceleration depends only on position and its own parameters", got, want, tol, x=x, **case)
                ctx.close("same bits whatever the irrelevant inputs", got, ref_out.astype(LD), 4 * ctx.eps * scale(term, (D * 1.3).astype(LD), LD(1.7), LD(vals.get(KEY.get(term), 0)), LD(0.9))[:, None], x=x, **case)
            ctx.count(states=len(D), traces=len(D))
        # -- linearity (powers of two are exact, signs are exact)
        x = (D * 1.3).astype(ctx.dtype)
        for k in own:
            if k == "R_eq":
                continue
            for s in (0.0, -1.0, 2.0, 0.5, 64.0, 3.0):
                a = dict(base_args)
                a[k] = vals[k] * s
                got = np.asarray(jax.vmap(lambda x: fn(0.0, x, a))(x))
                ctx.close(f"linear in {k}", got, ref_out.astype(LD) * s, (tol * abs(s)) + (0 if s else 1e-300), term=term, factor=s, x=x)
                ctx.count(states=len(D), traces=len(D))
        if "R_eq" in own:
            for s in (2.0, 0.25):
                a = dict(base_args, R_eq=vals["R_eq"] * s)
                got = np.asarray(jax.vmap(lambda x: fn(0.0, x, a))(x))
                n = DEG[term]
                ctx.close("degree of R_eq", got, ref_out.astype(LD) * s**n, tol * s**n, term=term, factor=s, x=x)
                ctx.count(states=len(D), traces=len(D))
        # -- input kinds: plain floats, numpy and jax scalars, numpy and jax positions
        for xa in (np.asarray, jnp.asarray):
            for sa in (float, np.float32, jnp.asarray, lambda v: jnp.asarray(v, jnp.float32)):
                a = {k: sa(v) for k, v in base_args.items()}
                got = np.stack([np.asarray(fn(0.0, xa(x[i]), a)) for i in range(3)])
                ctx.close("input kinds", got, want[:3], tol[:3] * (1 if sa is not np.float32 and ctx.x64 is False else 1) + 8 * 2.0**-23 * np.abs(want[:3]).max() * 4, term=term)
                ctx.count(states=3, traces=3)
    # documented defaults
    x = jnp.asarray(np.array([0.8, -0.6, 1.1, 0.0, 1.0, 0.2], ctx.dtype))
    ctx.close("default args: point mass with mu=1", adx.gravity.point_mass_grav(0.0, x), gradient("point_mass_grav", np.asarray(x)[None, :3].astype(LD), LD(1), LD(0), LD(1))[0], 30 * ctx.eps)
    for term in TERMS[1:]:
        got = np.asarray(getattr(adx.gravity, term)(0.0, x))
        ctx.check(not got.any(), "default args: zonal terms vanish", term=term, out=got)
