"""Independent reference model of two-body mechanics (extended precision).

Everything here is written from the textbook definitions, in numpy's 80-bit
``longdouble`` (64-bit mantissa), without importing the code under test: it is
the oracle, so it is kept boring.  All functions are elementwise/vectorised
over leading axes; vectors have their components in the last axis.
"""
import numpy as np

LD = np.longdouble
CLD = np.clongdouble
PI = LD("3.14159265358979323846264338327950288")
TWOPI = 2 * PI


def ld(x):
    x = np.asarray(x)
    return x.astype(CLD) if np.iscomplexobj(x) else x.astype(LD)


def dot(a, b):
    return (a * b).sum(-1)


def norm(a):
    return np.sqrt(dot(a, a))


def cross(a, b):
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    return np.stack([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0], -1)


# ---------------------------------------------------------------- universal fns
_FACT = [LD(1)]
for _k in range(1, 80):
    _FACT.append(_FACT[-1] * LD(_k))


def _series(n, chi, z, terms=24):
    """chi**n * sum_k (-z)^k/(n+2k)!   with z = alpha*chi^2 (|z| <= 2)."""
    s = np.zeros_like(z)
    for k in range(terms - 1, -1, -1):
        s = s * (-z) + 1 / _FACT[n + 2 * k]
    return chi**n * s


def ufuncs(chi, alpha):
    """[U0..U5] by definition U_n = chi^n sum (-alpha chi^2)^k/(n+2k)!."""
    chi, alpha = np.broadcast_arrays(ld(chi), ld(alpha))
    if np.iscomplexobj(chi) or np.iscomplexobj(alpha):
        chi, alpha = chi.astype(CLD), alpha.astype(CLD)
    z = alpha * chi * chi
    small = np.abs(z) <= 2
    zs = np.where(small, z, 0)
    out = []
    with np.errstate(all="ignore"):
        a_ = np.where(small, 1, alpha)
        pos = a_.real > 0
        s = np.sqrt(np.where(pos, a_, -a_))
        y = s * np.where(small, 1, chi)
        U0 = np.where(pos, np.cos(y), np.cosh(np.where(pos, 0, y)))
        U1 = np.where(pos, np.sin(y), np.sinh(np.where(pos, 0, y))) / s
        big = [U0, U1]
        for n in range(2, 6):
            big.append((chi ** (n - 2) / _FACT[n - 2] - big[n - 2]) / a_)
    for n in range(6):
        out.append(np.where(small, _series(n, chi, zs), big[n]))
    return out


# ---------------------------------------------------------------- universal eqn
def solve_uni(dt, alpha, r0, sig0, mu):
    """Root chi of r0 U1 + sig0 U2 + U3 = sqrt(mu) dt  (real, safeguarded Newton)."""
    dt, alpha, r0, sig0, mu = [
        np.array(a) for a in np.broadcast_arrays(*map(ld, (dt, alpha, r0, sig0, mu)))
    ]
    s = np.sqrt(mu) * dt

    def f(chi):
        U = ufuncs(chi, alpha)
        return r0 * U[1] + sig0 * U[2] + U[3] - s, r0 * U[0] + sig0 * U[1] + U[2]

    with np.errstate(all="ignore"):
        ell = alpha > 0
        # ellipse: chi = alpha*s + sigma - sigma0, |sigma| <= e*sqrt(a)
        a = np.where(ell, 1 / np.where(ell, alpha, 1), 1)
        e2 = np.maximum((1 - r0 / a) ** 2 + sig0**2 / a, 0)
        w = 2.01 * np.sqrt(e2 * a) + LD(1e-15) * (np.sqrt(a) + np.abs(alpha * s))
        lo = np.where(ell, alpha * s - w, 0)
        hi = np.where(ell, alpha * s + w, 0)
        # otherwise grow a bracket from 0 in the direction of dt
        sgn = np.where(s >= 0, LD(1), LD(-1))
        step = np.where(
            ell, 1, np.minimum(np.abs(s) / r0, 1 / np.sqrt(np.maximum(-alpha, LD("1e-4000")))) + LD(1e-30)
        )
        far = sgn * step
        grow = ~ell
        for _ in range(200):
            v, _d = f(np.where(grow, far, 0))
            ok = v * sgn >= 0
            if np.all(ok | ~grow):
                break
            far = np.where(ok | ~grow, far, far * 2)
        lo = np.where(grow, np.where(sgn > 0, 0, far), lo)
        hi = np.where(grow, np.where(sgn > 0, far, 0), hi)
        x = (lo + hi) / 2
        for _ in range(90):
            v, d = f(x)
            lo = np.where(v <= 0, x, lo)
            hi = np.where(v >= 0, x, hi)
            xn = x - v / d
            bad = ~((xn >= lo) & (xn <= hi))
            xn = np.where(bad, (lo + hi) / 2, xn)
            if np.all(np.abs(xn - x) <= LD(1e-18) * np.abs(x)):
                x = xn
                break
            x = xn
    return x


def conic(r0v, v0v, mu):
    r0v, v0v, mu = ld(r0v), ld(v0v), ld(mu)
    r0 = norm(r0v)
    alpha = 2 / r0 - dot(v0v, v0v) / mu
    sig0 = dot(r0v, v0v) / np.sqrt(mu)
    return alpha, r0, sig0


def _apply(chi, alpha, r0, sig0, r0v, v0v, mu):
    U = ufuncs(chi, alpha)
    r = r0 * U[0] + sig0 * U[1] + U[2]
    sm = np.sqrt(mu)
    F = 1 - U[2] / r0
    G = (r0 * U[1] + sig0 * U[2]) / sm
    Ft = -sm / (r * r0) * U[1]
    Gt = 1 - U[2] / r
    e = lambda q: q[..., None]
    return e(F) * r0v + e(G) * v0v, e(Ft) * r0v + e(Gt) * v0v


def kepler(dt, r0v, v0v, mu, with_chi=False):
    """Exact two-body flow.  dt (...,), r0v/v0v (...,3), mu (...,)."""
    r0v, v0v, mu, dt = ld(r0v), ld(v0v), ld(mu), ld(dt)
    alpha, r0, sig0 = conic(r0v, v0v, mu)
    chi = solve_uni(dt, alpha, r0, sig0, mu)
    alpha, r0, sig0, mu = np.broadcast_arrays(alpha, r0, sig0, mu)
    r, v = _apply(chi, alpha, r0, sig0, r0v, v0v, mu)
    return (r, v, chi) if with_chi else (r, v)


def kepler_stm(dt, r0v, v0v, mu):
    """6x6 Jacobian of the flow by the complex-step method (exact to eps)."""
    r0v, v0v, mu, dt = ld(r0v), ld(v0v), ld(mu), ld(dt)
    alpha, r0, sig0 = conic(r0v, v0v, mu)
    chi0 = solve_uni(dt, alpha, r0, sig0, mu)
    h = LD(1e-40)
    cols = []
    for j in range(6):
        rc, vc = r0v.astype(CLD), v0v.astype(CLD)
        (rc if j < 3 else vc)[..., j % 3] += 1j * h
        al, rr, sg = conic(rc, vc, mu)
        chi = chi0.astype(CLD)
        for _ in range(3):
            U = ufuncs(chi, al)
            f = rr * U[1] + sg * U[2] + U[3] - np.sqrt(mu) * dt
            d = rr * U[0] + sg * U[1] + U[2]
            # keep the (exact) real part, correct the imaginary part
            chi = chi0 + 1j * (chi - f / d).imag
        r, v = _apply(chi, al, rr, sg, rc, vc, mu)
        cols.append(np.concatenate([r.imag, v.imag], -1) / h)
    return np.stack(cols, -1)


# ---------------------------------------------------------------- Kepler eqns
def solve_elps(M, e):
    M, e = [np.array(x) for x in np.broadcast_arrays(ld(M), ld(e))]
    lo, hi = M - e, M + e
    x = M + e * np.sin(M)
    for _ in range(90):
        v, d = x - e * np.sin(x) - M, 1 - e * np.cos(x)
        lo = np.where(v <= 0, x, lo)
        hi = np.where(v >= 0, x, hi)
        with np.errstate(all="ignore"):
            xn = x - v / d
        xn = np.where((xn >= lo) & (xn <= hi), xn, (lo + hi) / 2)
        if np.all(np.abs(xn - x) <= LD(1e-18) * np.abs(x)):
            return xn
        x = xn
    return x


def solve_hypb(N, e):
    N, e = [np.array(x) for x in np.broadcast_arrays(ld(N), ld(e))]
    s, n = np.where(N < 0, LD(-1), LD(1)), np.abs(N)
    # e sinh H - H >= (e-1) sinh H and  >= H^3/6*... : bracket by growth
    lo, hi = np.zeros_like(n), np.arcsinh(n / (e - 1)) + LD(1e-30)
    x = np.arcsinh(n / e)
    for _ in range(90):
        v, d = e * np.sinh(x) - x - n, e * np.cosh(x) - 1
        lo = np.where(v <= 0, x, lo)
        hi = np.where(v >= 0, x, hi)
        xn = x - v / d
        xn = np.where((xn >= lo) & (xn <= hi), xn, (lo + hi) / 2)
        if np.all(np.abs(xn - x) <= LD(1e-18) * np.abs(x)):
            x = xn
            break
        x = xn
    return s * x


# ---------------------------------------------------------------- elements
def rot(axis, ang):
    ang = ld(ang)
    c, s = np.cos(ang), np.sin(ang)
    R = np.zeros(ang.shape + (3, 3), LD)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    R[..., axis, axis] = 1
    R[..., i, i] = c
    R[..., j, j] = c
    R[..., i, j] = -s
    R[..., j, i] = s
    return R


def coe2rv(p, e, i, O, w, f, mu):
    p, e, i, O, w, f, mu = np.broadcast_arrays(*map(ld, (p, e, i, O, w, f, mu)))
    r = p / (1 + e * np.cos(f))
    u = w + f
    # textbook componentwise form (Vallado/Bate), not a matrix product
    cO, sO, ci, si = np.cos(O), np.sin(O), np.cos(i), np.sin(i)
    cu, su, cw, sw = np.cos(u), np.sin(u), np.cos(w), np.sin(w)
    R = np.stack(
        [r * (cO * cu - sO * su * ci), r * (sO * cu + cO * su * ci), r * su * si], -1
    )
    k = np.sqrt(mu / p)
    A, B = su + e * sw, cu + e * cw
    V = np.stack(
        [-k * (cO * A + sO * ci * B), -k * (sO * A - cO * ci * B), k * si * B], -1
    )
    return R, V


def angles_close(a, b):
    """Distance between two angles on the circle."""
    d = np.abs(np.asarray(a, LD) - np.asarray(b, LD)) % TWOPI
    return np.minimum(d, TWOPI - d)
