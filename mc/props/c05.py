"""C05: universal functions against their defining series, across the parabolic limit."""
import numpy as np

from mc import ref

BOUNDS = (
    "alpha in {0} and +-(log lattice from 1e-300 (float64) / 1e-30 (float32) to 1e4) x chi in {0} and +-(log lattice, dense around the values "
    "where alpha*chi^2 is 0.1..10, and up to 20 (hyperbolic) / 60 (elliptic) radians of sqrt|alpha|*chi, and alpha*chi^2 in steps of 0.005 up to 3 and of 0.2 radians up to 60 for three sizes of alpha); U0..U5; identities on every point; array and scalar chi"
)
ASSUMPTIONS = [
    "error bound: the rounding of the natural closed form for |alpha chi^2| >= 1 (terms of size chi^(n-2)/alpha), and of the series below",
    "reference: series / recurrence in 80-bit arithmetic",
]


def jobs(tier):
    out = []
    for x in (False, True):
        s = "f64" if x else "f32"
        for k in ("values", "derivative", "eager"):
            out.append((f"{k}-{s}", x, dict(kind=k)))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def lattice(ctx):
    q = ctx.tier == "quick"
    lo = -300 if ctx.x64 else -30
    al = np.concatenate([[lo, lo // 2, lo // 4, -20, -16, -14], np.linspace(-12, 4, 33 if q else 129)])
    al = 10.0 ** np.unique(al)
    al = np.concatenate([[0.0], al, -al])
    pts = []
    y = np.concatenate([np.logspace(-6, 1.3, 50 if q else 300), [0.9999, 1.0, 1.0001, 0.5, 2.0, np.pi, 2 * np.pi, 0.31, 0.32]])
    y_el = np.concatenate([y, np.linspace(20, 60, 15)])
    c = np.concatenate([np.logspace(-6, 4, 31), [1.0, 2.0]])
    for a in al:
        s = np.sqrt(abs(a))
        chi = list(c[c * s < (60 if a > 0 else 20)])
        if s > 0:
            z = (y_el if a > 0 else y) / s
            chi += list(z[(z < 1e6) & (z > 1e-7)])
        chi = np.array(chi)
        pts += [(x, a) for x in np.concatenate([[0.0], chi, -chi])]
    # fine steps through every window of alpha chi^2
    z = np.concatenate([(np.arange(600 if q else 2400) + 0.5) / (200 if q else 800), (np.arange(290 if q else 2900) * (0.2 if q else 0.02) + 1.73) ** 2])
    for a in (0.013, 1.7, 240.0):
        for s in (1, -1):
            c = np.sqrt(z / a)
            c = c[(s > 0) | (z < 400)]
            pts += [(x, s * a) for x in np.concatenate([c, -c])]
    P = np.array(pts)
    P = np.unique(P.astype(ctx.dtype), axis=0)
    return P[:, 0], P[:, 1]


def bound(ctx, n, chi, al, U):
    """Forward error of a sane evaluation."""
    c, a = np.abs(chi.astype(np.longdouble)), np.abs(al.astype(np.longdouble))
    z = a * c * c
    y = np.sqrt(z)
    K = 12 * ctx.eps
    fact = [1, 1, 2, 6, 24, 120][n]
    nat = c**n / fact  # size of the leading term
    hyp = al < 0
    growth = np.where(hyp, np.cosh(np.minimum(y, 100)), 1)
    with np.errstate(all="ignore"):
        # |U_n| scale of the closed form: chi^k/alpha^m terms plus the (co)sine one
        terms = np.zeros_like(c)
        k = n
        m = 0
        while k >= 2:
            k -= 2
            m += 1
            terms += np.where(z >= 0.5, c**k / np.maximum(a, 1e-4000) ** m, 0)
        last = np.where(z >= 0.5, growth / np.maximum(a, np.longdouble(1e-4000)) ** (np.longdouble(n) / 2), 0)
    return K * (np.where(z < 1.5, nat * 2, 0) + (terms + last) * (1 + y)) + K * np.abs(U) * (1 + y)


def run_values(ctx, p):
    import jax
    import astrodynx as adx

    chi, al = lattice(ctx)
    U = ref.ufuncs(chi, al)
    tb = adx.twobody
    fs = [tb.ufunc0, tb.ufunc1, tb.ufunc2, tb.ufunc3, tb.ufunc4, tb.ufunc5]
    got = [np.asarray(jax.jit(jax.vmap(f))(chi, al)) for f in fs]
    tol = [bound(ctx, n, chi, al, U[n]) for n in range(6)]
    tiny = np.finfo(ctx.dtype).tiny
    big = np.finfo(ctx.dtype).max
    for n in range(6):
        rep = (np.abs(U[n]) < big / 16) & ((np.abs(U[n]) > 16 * tiny) | (U[n] == 0))
        # intermediate quantities of the closed form must be representable as well
        with np.errstate(all="ignore"):
            a = np.abs(al.astype(np.longdouble))
            c = np.abs(chi.astype(np.longdouble))
            big_ok = (a**2 * c**3 < big / 64) & (c**n < big / 64) & ((a**3 > 64 * tiny) | (a * c * c < 0.9) | (n < 5))
        k = rep & big_ok
        ctx.close(f"U{n} equals its series", got[n][k], U[n][k], tol[n][k], chi=chi[k], alpha=al[k])
        # parity
        neg = np.asarray(jax.jit(jax.vmap(fs[n]))(-chi, al))
        ctx.close(f"U{n} parity", neg[k], ((-1) ** n * got[n][k]).astype(np.longdouble), 2 * tol[n][k], chi=chi[k], alpha=al[k])
        ctx.count(states=k.sum(), traces=k.sum())
    L = [g.astype(np.longdouble) for g in got]
    A, C = al.astype(np.longdouble), chi.astype(np.longdouble)
    fin = np.all([np.isfinite(g) & (np.abs(g) < 1e30) for g in L], axis=0) & (np.abs(C) < 1e5) & (np.abs(A) > 1e-9)
    f = [1, 1, 2, 6]
    for n in range(4):
        lhs = L[n] + A * L[n + 2]
        t = tol[n] + np.abs(A) * tol[n + 2] + 4 * ctx.eps * np.abs(C) ** n
        ctx.close(f"U{n} + alpha U{n+2} = chi^{n}/{n}!", lhs[fin], (C**n / f[n])[fin], t[fin], chi=chi[fin], alpha=al[fin])
    t = 2 * np.abs(L[0]) * tol[0] + np.abs(A) * 2 * np.abs(L[1]) * tol[1] + 8 * ctx.eps * (L[0] ** 2 + np.abs(A) * L[1] ** 2)
    ctx.close("U0^2 + alpha U1^2 = 1", (L[0] ** 2 + A * L[1] ** 2)[fin], np.ones(fin.sum()), t[fin], chi=chi[fin], alpha=al[fin])
    # doubling
    d = [np.asarray(jax.jit(jax.vmap(g))(2 * chi, al)).astype(np.longdouble) for g in fs[:3]]
    U2 = ref.ufuncs(2 * C, A)
    w = fin & (np.abs(U2[0]) < 1e25)
    for n, rhs, tt in (
        (0, L[0] ** 2 - A * L[1] ** 2, 2 * np.abs(L[0]) * tol[0] + 2 * np.abs(A * L[1]) * tol[1]),
        (1, 2 * L[0] * L[1], 2 * np.abs(L[0]) * tol[1] + 2 * np.abs(L[1]) * tol[0]),
        (2, 2 * L[1] ** 2, 4 * np.abs(L[1]) * tol[1]),
    ):
        ctx.close(f"doubling formula of U{n}", d[n][w], rhs[w], (2 * tt + 2 * bound(ctx, n, 2 * chi, al, U2[n]))[w], chi=chi[w], alpha=al[w])
    ctx.sample(chi=float(chi[99]), alpha=float(al[99]), U=[float(g[99]) for g in got])


def run_derivative(ctx, p):
    """d U_(n+1)/d chi = U_n and d U_n/d alpha, by forward differentiation of the implementation."""
    import jax
    import astrodynx as adx

    chi, al = lattice(ctx)
    C, A = chi.astype(np.longdouble), al.astype(np.longdouble)
    z = np.abs(A) * C * C
    k = (np.abs(C) < 1e3) & (np.abs(C) > 1e-4) & (z < 100) & ((np.abs(A) > 1e-25) | (al == 0))
    chi, al, C, A, z = chi[k], al[k], C[k], A[k], z[k]
    U = ref.ufuncs(C, A)
    U7 = None
    tb = adx.twobody
    fs = [tb.ufunc0, tb.ufunc1, tb.ufunc2, tb.ufunc3, tb.ufunc4, tb.ufunc5]
    g = np.where(A < 0, np.cosh(np.sqrt(np.minimum(z, 400))), 1)
    for n in range(6):
        dchi = np.asarray(jax.jit(jax.vmap(lambda c, a: jax.jvp(lambda x: fs[n](x, a), (c,), (jax.numpy.ones_like(c),))[1]))(chi, al))
        want = -A * U[1] if n == 0 else U[n - 1]
        m = max(n - 1, 0)
        tol = bound(ctx, m, chi, al, want) * (np.abs(A) ** 1 if n == 0 else 1) * 4 + 60 * ctx.eps * np.abs(C) ** abs(n - 1) * g
        if n == 0:
            tol = 60 * ctx.eps * (np.abs(A * C) * 2 + np.sqrt(np.abs(A)) * (1 + np.sqrt(z))) * g
        ctx.close(f"d U{n}/d chi", dchi, want, tol, chi=chi, alpha=al)
        ctx.count(states=len(chi), traces=len(chi))
    # d U_n/d alpha = (n U_{n+2} - chi U_{n+1})/2   (Battin)
    for n in range(4):
        da = np.asarray(jax.jit(jax.vmap(lambda c, a: jax.jvp(lambda x: fs[n](c, x), (a,), (jax.numpy.ones_like(a),))[1]))(chi, al))
        want = (n * U[n + 2] - C * U[n + 1]) / 2
        t = bound(ctx, n + 1, chi, al, U[n + 1]) * np.abs(C) + bound(ctx, n + 2, chi, al, U[n + 2]) * 4
        cancel = np.where(z > 0.5, bound(ctx, n, chi, al, U[n]) / np.maximum(np.abs(A), 1e-30) * (2 + np.sqrt(z)), 0)
        ctx.close(f"d U{n}/d alpha", da, want, 8 * (t + cancel), chi=chi, alpha=al)


def run_eager(ctx, p):
    """Plain calls: Python scalars, vectors and matrices of chi, with one alpha."""
    import jax.numpy as jnp
    import astrodynx as adx

    tb = adx.twobody
    fs = [tb.ufunc0, tb.ufunc1, tb.ufunc2, tb.ufunc3, tb.ufunc4, tb.ufunc5]
    chis = np.array([0.0, 1e-3, -0.4, 0.9, 1.1, -2.0, 3.7, 6.0, -7.5])
    for a in [0.0, 1.0, -1.0, 0.04, -0.04, 1e-6, -1e-6, 1e-12, 2.5, -1.7]:
        ad = ctx.dtype(a)
        U = ref.ufuncs(chis.astype(ctx.dtype), np.full(len(chis), ad))
        for n, f in enumerate(fs):
            tol = bound(ctx, n, chis.astype(ctx.dtype), np.full(len(chis), ad), U[n])
            c = jnp.asarray(chis, ctx.dtype)
            case = dict(chi=chis, alpha=a)
            ctx.close(f"eager U{n} of a vector", f(c, a), U[n], tol, **case)
            ctx.close(f"eager U{n} of a matrix", np.asarray(f(c.reshape(3, 3), ad)).ravel(), U[n], tol, **case)
            ctx.close(f"eager U{n} of a column", np.asarray(f(c.reshape(9, 1), jnp.asarray(a))).ravel(), U[n], tol, **case)
            for i, x in enumerate(chis):
                y = f(float(x), a)
                ctx.check(np.shape(y) == (), f"U{n} of a scalar is a scalar", shape=np.shape(y))
                ctx.close(f"eager U{n} of a scalar", y, U[n][i], tol[i], chi=float(x), alpha=a)
            ctx.count(states=len(chis), traces=4)
