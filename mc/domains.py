"""The finite alphabets that the explorers enumerate.

All problems are built once in canonical form (perifocal frame, periapsis radius
1, mu = 1) in extended precision, together with the exact solution and its
conditioning, and are then embedded in every orientation and unit system.
"""
import functools

import numpy as np

from mc import ref

LD = np.longdouble
D2R = ref.PI / 180

# ---------------------------------------------------------------- eccentricities
ECC_Q = [0.0, 1e-7, 1e-3, 0.05, 0.3, 0.6, 0.85, 0.95, 0.99, 0.999, 1 - 1e-6, 1.0, 1 + 1e-6, 1.001, 1.02, 1.2, 2.0, 5.0, 30.0]
ECC_T = [0.0, 1e-9, 1e-7, 1e-5, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.85, 0.9, 0.93, 0.95, 0.97,
         0.98, 0.99, 0.995, 0.999, 0.9999, 1 - 1e-6, 1 - 1e-9, 1.0, 1 + 1e-9, 1 + 1e-6, 1.0001, 1.001, 1.005, 1.01,
         1.02, 1.05, 1.1, 1.2, 1.35, 1.5, 1.75, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, 20.0, 30.0, 100.0]


def ecc(tier):
    return ECC_Q if tier == "quick" else ECC_T


def anomalies(e, tier):
    """True anomalies [rad] that the conic reaches, both legs, apsides included."""
    if e < 1 - 1e-4:
        step = 45 if tier == "quick" else 20
        a = [LD(k) for k in range(-180 + step, 181, step)]
        a += [LD(1), LD(-1), LD(179), LD(-179)]
    else:
        fm = np.arccos(-1 / LD(max(e, 1.0))) / D2R
        fm = min(fm, LD(165)) if e < 1.01 else fm
        fr = [0, 0.02, 0.3, 0.6, 0.9] if tier == "quick" else [0, 0.005, 0.1, 0.2, 0.3, 0.45, 0.6, 0.75, 0.9, 0.97]
        a = [fm * LD(x) for x in fr] + [-fm * LD(x) for x in fr[1:]]
    return np.array(sorted(set(a)), LD) * D2R


def offsets(e, tier):
    """Time offsets in units of sqrt(rp^3/mu), both signs and zero."""
    q = tier == "quick"
    out = set()
    if e < 0.9999:
        P = float(2 * np.pi / (1 - e) ** 1.5)
        fr = [1e-6, 1e-3, 0.05, 0.25, 0.4999, 0.5, 0.77, 0.999, 1.0, 1.3, 2.5, 7.9, 40.1] if q else [
            1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.4999, 0.5, 0.5001, 0.6, 0.77, 0.9, 0.999,
            1.0, 1.001, 1.3, 1.5, 2.0, 2.5, 3.3, 5.0, 7.9, 12.6, 20.2, 40.1, 150.7]
        out |= {x * P for x in fr}
    if e > 0.9:
        ab = [1e-4, 0.02, 0.3, 1.0, 3.0, 10.0, 40.0, 200.0, 3000.0] if q else [
            1e-7, 1e-4, 1e-3, 0.02, 0.1, 0.3, 0.6, 1.0, 1.7, 3.0, 5.5, 10.0, 20.0, 40.0, 90.0, 200.0, 600.0, 3000.0, 2e4]
        out |= set(ab)
    out = np.array(sorted(out), LD)
    return np.concatenate([-out[::-1], [LD(0)], out])


ORIENT = [  # (inclination, node, argument of periapsis) degrees
    (0, 0, 0),
    (90, 0, 0),
    (180, 0, 30),
    (40, 65, 130),
    (137, 230, 315),
    (75, 190, 20),
    (90, 90, 90),
    (5, 300, 200),
    (165, 110, 250),
    (60, 345, 170),
]


def rotations(n=None):
    out = []
    for i, O, w in ORIENT[: n or len(ORIENT)]:
        out.append(ref.rot(2, O * D2R) @ ref.rot(0, i * D2R) @ ref.rot(2, w * D2R))
    out = np.array(out, LD)
    return np.where(np.abs(out) < 1e-17, LD(0), np.where(np.abs(np.abs(out) - 1) < 1e-18, np.sign(out), out))  # quarter turns are exact


# (label, length unit of rp, mu)
UNITS = [
    ("canonical", 1.0, 1.0),
    ("earth km", 7000.0, 398600.4418),
    ("earth m", 7.0e6, 3.986004418e14),
    ("au day", 1.0, 2.9591220828e-4),
    ("helio m", 1.5e11, 1.32712440018e20),
    ("small", 2.0**-9, 3.0),
    ("moon km", 1900.0, 4902.8),
    ("rp=40,mu=.02", 40.0, 0.02),
]


@functools.lru_cache(None)
def table(eccs, tier, stm=True, nf=None, ndt=None):
    """Canonical problems of the given eccentricities with their exact solution."""
    E, F, T = [], [], []
    for e in eccs:
        fs, ts = anomalies(e, tier), offsets(e, tier)
        if nf:
            fs = fs[np.unique(np.linspace(0, len(fs) - 1, nf).round().astype(int))]
        if ndt:
            ts = ts[np.unique(np.linspace(0, len(ts) - 1, ndt).round().astype(int))]
        f, t = np.meshgrid(fs, ts, indexing="ij")
        E.append(np.full(f.size, e, LD))
        F.append(f.ravel())
        T.append(t.ravel())
    E, F, T = map(np.concatenate, (E, F, T))
    return solve(E, F, T, stm)


def solve(E, F, T, stm=True):
    r0, v0 = ref.coe2rv(1 + E, E, 0 * E, 0 * E, 0 * E, F, 1 + 0 * E)
    d = dict(e=E, f=F, dt=T, r0=r0, v0=v0)
    r1, v1, chi = ref.kepler(T, r0, v0, LD(1), with_chi=True)
    al, rr, sg = ref.conic(r0, v0, LD(1))
    U = ref.ufuncs(chi, al)
    n0, n1 = ref.norm(r0), ref.norm(r1)
    w0 = ref.norm(v0)
    Fc, G = 1 - U[2] / n0, rr * U[1] + sg * U[2]
    Ft, Gt = -U[1] / (n0 * n1), 1 - U[2] / n1
    d.update(r1=r1, v1=v1, chi=chi, alpha=al, sigma0=sg, F=Fc, G=G, Ft=Ft, Gt=Gt)
    if stm:
        S = ref.kepler_stm(T, r0, v0, LD(1))
        d["stm"] = S
        nrm = lambda A: np.sqrt((A * A).sum((-1, -2)))
        d["cr"] = nrm(S[:, :3, :3]) * n0 + nrm(S[:, :3, 3:]) * w0 + np.abs(Fc) * n0 + np.abs(G) * w0
        d["cv"] = nrm(S[:, 3:, :3]) * n0 + nrm(S[:, 3:, 3:]) * w0 + np.abs(Ft) * n0 + np.abs(Gt) * w0
        d["cr"] += ref.norm(v1) * np.abs(T)  # rounding of the requested time itself
        d["cv"] += np.abs(T) / n1**2
    return d


def embed(d, R, L, mu):
    """Rotate by R and express with length unit L and gravitational parameter mu."""
    Tu = np.sqrt(LD(L) ** 3 / LD(mu))
    o = dict(d)
    rot = lambda x: x @ R.T if R.ndim == 2 else np.einsum("nij,nj->ni", R, x)
    o["r0"], o["r1"] = rot(d["r0"]) * L, rot(d["r1"]) * L
    o["v0"], o["v1"] = rot(d["v0"]) * (L / Tu), rot(d["v1"]) * (L / Tu)
    o["dt"] = d["dt"] * Tu
    o["mu"], o["L"], o["T"] = LD(mu), LD(L), Tu
    return o


def flow_tol(o, eps, K, soltol=1e-6):
    """Tolerance on position and velocity of an embedded problem."""
    L, T = o["L"], o["T"]
    n0, n1 = ref.norm(o["r0"]), ref.norm(o["r1"])
    dts = 2 * soltol * np.minimum(1, n0**1.5) / np.sqrt(o["mu"])
    tr = K * eps * o["cr"] * L + ref.norm(o["v1"]) * dts
    tv = K * eps * o["cv"] * (L / T) + o["mu"] / n1**2 * dts
    return tr[:, None], tv[:, None]


@functools.lru_cache(None)
def sweeps(tier):
    """One-parameter families with a fine step: eccentricity, epoch anomaly, time offset and each
    orientation angle in turn, the others at generic values.  Returns (problems, rotations, labels)."""
    m = 1 if tier == "quick" else 4
    E, F, T, A, lab = [], [], [], [], []

    def add(name, e, f, t, ang=(0.7, 4.1, 5.3)):
        e, f, t, a, b, c = np.broadcast_arrays(*[np.asarray(x, LD) for x in (e, f, t, *ang)])
        E.append(e.ravel()), F.append(f.ravel()), T.append(t.ravel()), A.append(np.stack([a, b, c], -1).reshape(-1, 3))
        lab.extend([name] * e.size)

    per = lambda e: 2 * ref.PI / np.abs(1 - LD(1) * e) ** LD(1.5)
    ee = (np.arange(100 * m) + LD(0.37)) / (100 * m)
    eh = 1 + (np.arange(60 * m) + LD(0.37)) / (12 * m)
    near = np.concatenate([1 - LD(10) ** np.linspace(-8, -2, 24 * m), 1 + LD(10) ** np.linspace(-8, -1, 24 * m)])
    for f in (0.4, 2.0, -1.3):
        for q in (0.37, -1.21):
            add("eccentricity", ee, f, q * per(ee))
        for t in (1.7, -6.3):
            add("eccentricity", eh, f * np.arccos(-1 / eh) / ref.PI, t)
            add("eccentricity", near, f, t)
    ff = (np.arange(180 * m) + LD(0.5)) / (90 * m) * ref.PI - ref.PI
    for e in (0.23, 0.71):
        for q in (0.61, -0.83):
            add("anomaly", e, ff, q * per(e))
    for e in (1.0, 1.7):
        g = ff * LD(0.95) * np.arccos(LD(-1) / LD(e)) / ref.PI
        for t in (2.3, -2.3):
            add("anomaly", e, g, t)
    tt = (np.arange(240 * m) + LD(0.5)) / (40 * m) - 3
    for e, f in ((0.0, 0.0), (0.23, 1.1), (0.71, -2.4)):
        add("time", e, f, tt * per(e))
    lg = LD(10) ** np.linspace(-5, 3.5, 120 * m)
    for e, f in ((0.71, 2.0), (1.0, 0.8), (1.0, -0.8), (1.7, 1.1), (1.7, -1.1)):
        add("time", e, f, np.concatenate([-lg, lg]))
    full = (np.arange(120 * m) + LD(0.25)) / (60 * m) * ref.PI
    for e in (0.23, 1.4):
        for k in range(3):
            ang = [LD(0.7), LD(4.1), LD(5.3)]
            ang[k] = full / 2 if k == 0 else full
            add(("inclination", "node", "argument of periapsis")[k], e, 0.9, -2.9, ang)
    E, F, T, A = map(np.concatenate, (E, F, T, A))
    R = np.array([ref.rot(2, b) @ ref.rot(0, a) @ ref.rot(2, c) for a, b, c in A], LD)
    return solve(E, F, T), R, np.array(lab)
