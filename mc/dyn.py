"""Shared pieces for the numerical-propagation explorers: lattices, reference integration, force-term subsets."""
import itertools

import numpy as np

from mc import domains as dom
from mc import ref
from mc.props.c08 import potential

LD = np.longdouble
TERMS = ("point_mass_grav", "j2_acc", "j3_acc", "j4_acc")
JKEY = {"j2_acc": "J2", "j3_acc": "J3", "j4_acc": "J4"}


def subsets():
    """All force models: point mass with every subset of the zonal terms."""
    return [("point_mass_grav",) + s for n in range(4) for s in itertools.combinations(TERMS[1:], n)]


def name(sub):
    return "+".join({"point_mass_grav": "pm", "j2_acc": "j2", "j3_acc": "j3", "j4_acc": "j4"}[s] for s in sub)


def field(adx, sub):
    import jax.numpy as jnp

    fns = [getattr(adx.gravity, s) for s in sub]

    def vf(t, x, args):
        acc = fns[0](t, x, args)
        for f in fns[1:]:
            acc = acc + f(t, x, args)
        return jnp.concatenate([x[3:6], acc])

    return vf


def accel(sub, x, a):
    """Complex-step gradient of the total potential; x (N,3) float64, a dict of (N,) arrays."""
    out = np.empty_like(x)
    h = 1e-40
    for k in range(3):
        xc = x.astype(complex)
        xc[:, k] += 1j * h
        u = 0
        for s in sub:
            u = u + potential(s, xc, a["mu"], a.get(JKEY.get(s), 0.0), a.get("R_eq", 1.0))
        out[:, k] = u.imag / h
    return out


def total_potential(sub, x, a):
    """Force function (energy = v^2/2 - U), longdouble."""
    u = 0
    for s in sub:
        u = u + potential(s, x, a["mu"], a.get(JKEY.get(s), 0.0), a.get("R_eq", 1.0))
    return u


def integrate(sub, x0, a, tmax):
    """Independent high-accuracy integration on [-tmax, tmax] -> callable(i, t) -> (len(t), 6)."""
    from scipy.integrate import solve_ivp

    n = len(x0)
    a = {k: np.asarray(v, float) for k, v in a.items()}

    def f(t, y):
        y = y.reshape(n, 6)
        return np.concatenate([y[:, 3:], accel(sub, y[:, :3], a)], 1).ravel()

    sols = {}
    for s in (1.0, -1.0):
        r = solve_ivp(f, (0.0, s * tmax), np.asarray(x0, float).ravel(), method="DOP853", rtol=3e-14, atol=1e-15, dense_output=True)
        assert r.success, r.message
        sols[s] = r.sol

    def at(i, t):
        t = np.atleast_1d(np.asarray(t, float))
        out = np.empty((len(t), 6))
        for s in (1.0, -1.0):
            k = (t >= 0) if s > 0 else (t < 0)
            if k.any():
                out[k] = sols[s](t[k]).reshape(n, 6, -1)[i].T
        return out

    return at


def states(eccs, fs, orients, L=1.0, mu=1.0):
    """Initial states (N,6) longdouble with labels, periapsis radius L."""
    rows, lab = [], []
    R = dom.rotations()
    for e, f, o in itertools.product(eccs, fs, orients):
        if e >= 1 and abs(f) > 0.9 * float(np.arccos(-1 / max(e, 1.0001))):
            continue
        r, v = ref.coe2rv(LD(1 + e) * L, LD(e), LD(0), LD(0), LD(0), LD(f), LD(mu))
        rows.append(np.concatenate([R[o] @ r, R[o] @ v]))
        lab.append((e, f, o))
    return np.array(rows, LD), np.array(lab)


def cond(x0, t, mu):
    """Amplification of state errors along the two-body flow, per sample: absolute position/velocity error for unit relative error."""
    x0 = np.asarray(x0, LD)
    t = np.asarray(t, LD)
    S = ref.kepler_stm(t, x0[:, :3], x0[:, 3:], np.asarray(mu, LD))
    n0, w0 = ref.norm(x0[:, :3]), ref.norm(x0[:, 3:])
    nr = lambda A: np.sqrt((A * A).sum((-1, -2)))
    return nr(S[:, :3, :3]) * n0 + nr(S[:, :3, 3:]) * w0, nr(S[:, 3:, :3]) * n0 + nr(S[:, 3:, 3:]) * w0
