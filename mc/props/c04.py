"""C04: the elliptic and hyperbolic Kepler solvers over the whole (mean anomaly, eccentricity) lattice."""
import numpy as np

from mc import ref

BOUNDS = (
    "elliptic: eccentricities 0..1-1e-6 (25 quick / 60 thorough) x mean anomalies over 1 turn at fine resolution, up to +-2000 turns, "
    "log-spaced to 1e-9 around every multiple of pi; hyperbolic: eccentricities 1+1e-6..1000 x mean anomalies 0, +-1e-9..1e7; "
    "fine one-parameter families (steps of 0.004 in e and 0.01 in the mean anomaly, thorough a fifth of that); tolerances {default, 1e-2, 1e-4, 1e-8, 1e-12}; float32 and float64; compiled and eager; all words of the symmetry group "
    "generated by negation and +-1 turn up to length 4"
)
ASSUMPTIONS = [
    "the residual of the returned anomaly is evaluated in 80-bit arithmetic; a residual within 2*tol plus a few ulps of the terms is a root",
    "mean anomalies larger than 2^23 ulps per radian (float32) carry no phase information and are bounded by their own rounding",
]
TOLS = [None, 1e-2, 1e-4, 1e-8, 1e-12]


def jobs(tier):
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        for k in ("elps", "hypb", "fine", "symmetry", "equations", "eager"):
            out.append((f"{k}-{s}", x, dict(kind=k)))
    return out


def ell_ecc(tier):
    e = [0, 1e-9, 1e-4, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.85, 0.9, 0.93, 0.96, 0.98, 0.99, 0.995, 0.999, 0.9995, 0.9999, 1 - 1e-6]
    if tier != "quick":
        e += list(np.linspace(0.025, 0.975, 20)) + list(1 - np.logspace(-1.1, -6.5, 25))
    return np.array(sorted(e))


def ell_M(tier):
    n = 721 if tier == "quick" else 7201
    b = np.linspace(-np.pi, np.pi, n)
    sm = np.logspace(-9, -0.5, 30 if tier == "quick" else 120)
    near = np.concatenate([s * sm + k * np.pi for s in (1, -1) for k in (-2, -1, 0, 1, 2)])
    far = np.concatenate([b[::9] + 2 * np.pi * k for k in (-2000, -300, -33, -7, -2, -1, 1, 2, 5, 16, 40, 101, 1000)])
    return np.concatenate([[0.0, np.pi, -np.pi, 2 * np.pi], b, near, far])


def hyp_ecc(tier):
    e = [1 + 1e-6, 1.0001, 1.001, 1.005, 1.01, 1.03, 1.1, 1.2, 1.4, 1.7, 2, 2.7, 4, 7, 10, 20, 50, 100, 1000]
    if tier != "quick":
        e += list(1 + np.logspace(-6, 3, 40))
    return np.array(sorted(e))


def hyp_N(tier):
    p = np.logspace(-9, 7, 161 if tier == "quick" else 1601)
    q = np.linspace(0.05, 60, 300 if tier == "quick" else 2000)
    return np.concatenate([[0.0], p, -p, q, -q])


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def _solver(fn, tol):
    import jax

    g = (lambda M, e: fn(M, e)) if tol is None else (lambda M, e: fn(M, e, tol=tol))
    return jax.jit(jax.vmap(g))


def _bound(ctx, tol):
    return 2 * (1e-6 if tol is None else tol)


def run_elps(ctx, p):
    import astrodynx as adx

    e, M = [a.ravel().astype(ctx.dtype) for a in np.meshgrid(ell_ecc(ctx.tier), ell_M(ctx.tier), indexing="ij")]
    e = np.minimum(e, ctx.dtype(1) - ctx.dtype(2.0**-20))
    root = ref.solve_elps(M, e)
    for tol in TOLS:
        E = np.asarray(_solver(adx.solve_kepler_elps, tol)(M, e))
        El, Ml, el = [a.astype(np.longdouble) for a in (E, M, e)]
        res = El - el * np.sin(El) - Ml
        fl = 12 * ctx.eps * (np.abs(Ml) + 1)
        case = dict(M=M, e=e, tolerance=str(tol))
        ctx.close("elliptic residual", res, 0 * Ml, _bound(ctx, tol) + fl, E=E, **case)
        slope = 1 - el * np.cos(root)
        # a residual of size b moves the root by at most b/slope, or (6 b/e)^(1/3) at the flat point
        ctx.close("elliptic root", El, root, _bound(ctx, tol) + 4 * np.minimum(fl / slope, np.cbrt(6 * fl) + fl), **case)
        ctx.count(states=len(M), traces=len(M))
    ctx.sample(M=float(M[777]), e=float(e[777]), E=float(E[777]), root=float(root[777]))


def run_hypb(ctx, p):
    import astrodynx as adx

    e, N = [a.ravel().astype(ctx.dtype) for a in np.meshgrid(hyp_ecc(ctx.tier), hyp_N(ctx.tier), indexing="ij")]
    root = ref.solve_hypb(N, e)
    for tol in TOLS:
        H = np.asarray(_solver(adx.solve_kepler_hypb, tol)(N, e))
        Hl, Nl, el = [a.astype(np.longdouble) for a in (H, N, e)]
        with np.errstate(all="ignore"):
            res = el * np.sinh(Hl) - Hl - Nl
        fl = 16 * ctx.eps * ((np.abs(root) + 1) * (np.abs(Nl) + np.abs(root)) + np.abs(root))
        case = dict(N=N, e=e, tolerance=str(tol))
        ctx.close("hyperbolic residual", res, 0 * Nl, _bound(ctx, tol) + fl, H=H, **case)
        slope = el * np.cosh(root) - 1
        b = _bound(ctx, tol) + fl
        ctx.close("hyperbolic root", Hl, root, 2 * np.minimum(b / slope, np.cbrt(6 * b)), **case)
        ctx.count(states=len(N), traces=len(N))
    ctx.sample(N=float(N[400]), e=float(e[400]), H=float(H[400]), root=float(root[400]))


def run_fine(ctx, p):
    """Fine steps of one variable while the other takes representative values; default tolerance."""
    import astrodynx as adx

    k = 1 if ctx.tier == "quick" else 5
    es = np.arange(0, 0.99, 0.004 / k)
    m1 = np.array([0.02, 0.3, 0.7, 1.0, 1.6, 2.2, 2.9, 3.1, 3.14159, 4.0, 5.5, 6.2, 6.283, 9.0, 30.0])
    m2 = np.arange(0, 40, 0.01 / k)
    e2 = np.array([0.004, 0.15, 0.45, 0.65, 0.92, 0.993])
    far = np.geomspace(40, 2e4, 400 * k)
    parts = [np.meshgrid(es, np.concatenate([m1, -m1]), indexing="ij"), np.meshgrid(e2, np.concatenate([m2, -m2, far, -far]), indexing="ij")]
    e, M = [np.concatenate([q[i].ravel() for q in parts]).astype(ctx.dtype) for i in (0, 1)]
    root = ref.solve_elps(M, e)
    El = np.asarray(_solver(adx.solve_kepler_elps, None)(M, e)).astype(np.longdouble)
    Ml, el = M.astype(np.longdouble), e.astype(np.longdouble)
    fl = 12 * ctx.eps * (np.abs(Ml) + 1)
    ctx.close("elliptic residual along a family", El - el * np.sin(El) - Ml, 0 * Ml, _bound(ctx, None) + fl, M=M, e=e, E=El)
    ctx.close("elliptic root along a family", El, root, _bound(ctx, None) + 4 * np.minimum(fl / (1 - el * np.cos(root)), np.cbrt(6 * fl) + fl), M=M, e=e)
    ctx.count(states=len(M), traces=len(M))
    es = np.concatenate([np.arange(1.004, 4, 0.004 / k), np.geomspace(4, 1000, 300 * k)])
    n1 = np.array([0.02, 0.3, 0.7, 1.0, 1.6, 2.2, 3.1, 4.0, 5.5, 9.0, 30.0, 300.0])
    n2 = np.concatenate([np.arange(0.004, 40, 0.01 / k), np.geomspace(40, 1e6, 600 * k), np.geomspace(1e-6, 0.004, 300 * k)])
    e2 = np.array([1.0005, 1.02, 1.3, 1.8, 3.0, 15.0, 300.0])
    parts = [np.meshgrid(es, np.concatenate([n1, -n1]), indexing="ij"), np.meshgrid(e2, np.concatenate([n2, -n2]), indexing="ij")]
    e, N = [np.concatenate([q[i].ravel() for q in parts]).astype(ctx.dtype) for i in (0, 1)]
    root = ref.solve_hypb(N, e)
    Hl = np.asarray(_solver(adx.solve_kepler_hypb, None)(N, e)).astype(np.longdouble)
    Nl, el = N.astype(np.longdouble), e.astype(np.longdouble)
    fl = 16 * ctx.eps * ((np.abs(root) + 1) * (np.abs(Nl) + np.abs(root)) + np.abs(root))
    b = _bound(ctx, None) + fl
    ctx.close("hyperbolic residual along a family", el * np.sinh(Hl) - Hl - Nl, 0 * Nl, b, N=N, e=e, H=Hl)
    ctx.close("hyperbolic root along a family", Hl, root, 2 * np.minimum(b / (el * np.cosh(root) - 1), np.cbrt(6 * b)), N=N, e=e)
    ctx.count(states=len(N), traces=len(N))
    ctx.sample(M=float(M[0]) if len(M) else 0, families=4)


def run_symmetry(ctx, p):
    """Group words in {negate, +turn, -turn} applied to M; and negation for N: the solution follows the action."""
    import itertools
    import astrodynx as adx

    depth = 4 if ctx.tier == "quick" else 7
    tau = 2 * ref.PI
    e, M = [a.ravel() for a in np.meshgrid(ell_ecc(ctx.tier)[::2], np.linspace(-3.1, 3.1, 41), indexing="ij")]
    e = np.minimum(e.astype(ctx.dtype), ctx.dtype(1) - ctx.dtype(2.0**-20))
    S = _solver(adx.solve_kepler_elps, None)
    M = M.astype(ctx.dtype)
    E0 = np.asarray(S(M, e)).astype(np.longdouble)
    seen = {}
    for k in range(depth + 1):
        for w in itertools.product("n+-", repeat=k):
            s, t = 1, 0
            for a in w:
                s, t = (-s, -t) if a == "n" else (s, t + (1 if a == "+" else -1))
            if (s, t) in seen:
                continue
            seen[(s, t)] = "".join(w)
            Mw = (s * M.astype(np.longdouble) + t * tau).astype(ctx.dtype)
            E = np.asarray(S(Mw, e)).astype(np.longdouble)
            want = s * E0 + t * tau
            slope = 1 - e.astype(np.longdouble) * np.cos(E0)
            b = 16 * ctx.eps * (np.abs(Mw) + 2)
            ctx.close("elliptic solution follows negation and turns", E, want, 4e-6 + 2 * np.minimum(b / slope, 2 * np.cbrt(6 * b)), M=M, e=e, word="".join(w))
            ctx.count(states=len(M), traces=1)
    # increasing in M
    for ei in ell_ecc(ctx.tier):
        m = np.sort(ell_M(ctx.tier)).astype(ctx.dtype)
        ee = np.full(len(m), min(ctx.dtype(ei), ctx.dtype(1) - ctx.dtype(2.0**-20)), ctx.dtype)
        E = np.asarray(S(m, ee)).astype(np.longdouble)
        d, dm = np.diff(E), np.diff(m.astype(np.longdouble))
        need = dm / 2 - 4e-6 - 32 * ctx.eps * (np.abs(m[1:]) + 1) * 50
        ctx.close("elliptic solution increases with M", (d >= np.minimum(need / 2, 0) - 4 * np.cbrt(16 * ctx.eps * (np.abs(m[1:]) + 1)) * (ei > 0.9)).astype(float), np.ones(len(d)), 0, M=m[1:], e=ei)
    T = _solver(adx.solve_kepler_hypb, None)
    e, N = [a.ravel().astype(ctx.dtype) for a in np.meshgrid(hyp_ecc(ctx.tier), hyp_N(ctx.tier), indexing="ij")]
    Ha, Hb = np.asarray(T(N, e)).astype(np.longdouble), np.asarray(T(-N, e)).astype(np.longdouble)
    b = 2e-6 + 16 * ctx.eps * (np.abs(N) + 1) * (np.abs(Ha) + 1)
    slope = e.astype(np.longdouble) * np.cosh(Ha) - 1
    ctx.close("hyperbolic solution is odd", Hb, -Ha, 4 * np.minimum(b / slope, np.cbrt(6 * b)), N=N, e=e)
    ctx.count(states=len(N), traces=len(N))
    ctx.extra["group_elements"] = len(seen)


def run_equations(ctx, p):
    """Residual and derivative functions (array arguments), default offset argument."""
    import astrodynx as adx

    LD = np.longdouble
    e, X = [a.ravel().astype(ctx.dtype) for a in np.meshgrid(ell_ecc(ctx.tier), np.concatenate([np.linspace(-15, 15, 61), [1e-8, 1e-3, 500.0]]), indexing="ij")]
    el, Xl = e.astype(LD), X.astype(LD)
    for m in (None, 0.0, 0.7, -9.25):
        got = adx.kepler_equ_elps(X, e) if m is None else adx.kepler_equ_elps(X, e, ctx.dtype(m))
        want = Xl - el * np.sin(Xl) - LD(m or 0.0)
        ctx.close("kepler_equ_elps", got, want, 8 * ctx.eps * (np.abs(Xl) + 1 + abs(m or 0)), E=X, e=e, M=str(m))
    ctx.close("dE", adx.dE(X, e), 1 - el * np.cos(Xl), 8 * ctx.eps, E=X, e=e)
    ctx.count(states=len(X), traces=len(X))
    e, X = [a.ravel().astype(ctx.dtype) for a in np.meshgrid(hyp_ecc(ctx.tier), np.concatenate([np.linspace(-15, 15, 61), [1e-8, 1e-3]]), indexing="ij")]
    el, Xl = e.astype(LD), X.astype(LD)
    for m in (None, 0.0, 0.7, -900.0):
        got = adx.kepler_equ_hypb(X, e) if m is None else adx.kepler_equ_hypb(X, e, ctx.dtype(m))
        want = el * np.sinh(Xl) - Xl - LD(m or 0.0)
        ctx.close("kepler_equ_hypb", got, want, 16 * ctx.eps * (el * np.abs(np.sinh(Xl)) + np.abs(Xl) + abs(m or 0)), H=X, e=e, N=str(m))
    ctx.close("dH", adx.dH(X, e), el * np.cosh(Xl) - 1, 16 * ctx.eps * el * np.cosh(Xl), H=X, e=e)
    ctx.count(states=len(X), traces=len(X))


def run_eager(ctx, p):
    """Plain scalar calls, with Python numbers and with arrays of rank 0; tolerance and iteration limit by keyword and position."""
    import jax.numpy as jnp
    import astrodynx as adx

    LD = np.longdouble
    Ms = [0, 0.0, 1e-6, 0.5, -2.0, 3.0, 3.141592653589793, -6.5, 40.0, 250.0]
    es = [0.0, 0.2, 0.7, 0.95, 0.999] if ctx.tier == "quick" else [0.0, 0.05, 0.2, 0.5, 0.7, 0.9, 0.95, 0.99, 0.999]
    for M in Ms:
        for e in es:
            for form in range(3):
                a = [M, jnp.asarray(M, ctx.dtype), M][form], [e, jnp.asarray(e, ctx.dtype), e][form]
                E = adx.solve_kepler_elps(*a) if form < 2 else adx.solve_kepler_elps(*a, 1e-9, 40)
                ctx.check(np.shape(E) == (), "scalar result", shape=np.shape(E))
                El = LD(np.asarray(E))
                ctx.close("eager elliptic residual", El - LD(ctx.dtype(e)) * np.sin(El), LD(ctx.dtype(M)), 2e-6 + 16 * ctx.eps * (abs(M) + 1), M=M, e=e, form=form)
                ctx.count(states=1, traces=1)
    for N in [0, 0.0, 1e-5, 0.5, -3.0, 40.69, -2000.0, 1e6]:
        for e in [1.001, 1.05, 1.5, 2.7696, 30.0]:
            for form in range(3):
                a = [N, jnp.asarray(N, ctx.dtype), N][form], [e, jnp.asarray(e, ctx.dtype), e][form]
                H = adx.solve_kepler_hypb(*a) if form < 2 else adx.solve_kepler_hypb(*a, 1e-9, 60)
                Hl = LD(np.asarray(H))
                ctx.close("eager hyperbolic residual", LD(ctx.dtype(e)) * np.sinh(Hl) - Hl, LD(ctx.dtype(N)), 2e-6 + 32 * ctx.eps * (abs(N) + 1) * (abs(Hl) + 1), N=N, e=e, form=form)
                ctx.count(states=1, traces=1)
