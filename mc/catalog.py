"""Catalogue of the public computations: call, argument kinds, valid argument values.

Argument kinds
  s  number, broadcasts with the others        S  single number
  v  vector (..., 3)                           c  number per vector, (..., 1) or single
  x  state (6,)                                t  vector of times (n,)
Every combination of one value per argument is a valid call.
"""
import numpy as np

N = 12


def lin(lo, hi, salt=0):
    k = np.arange(N)
    fr = (0.37 + 0.6180339887498949 * k + 0.31 * salt) % 1.0
    return lo + (hi - lo) * fr


def vec(base, spread, salt=0):
    return np.stack([base[j] + spread * (lin(-1, 1, salt + 3 * j + 1)) for j in range(3)], -1)


class Fn:
    def __init__(self, name, call, args, core, bcast=True, opt=0, kinky=False):
        self.name, self.call, self.args, self.core, self.bcast, self.opt = name, call, args, core, bcast, opt
        self.kinds = "".join(a[1] for a in args)
        self.kinky = kinky  # integer or boolean valued: no derivative

    @property
    def multi(self):
        return isinstance(self.core, list)

    def values(self, dtype):
        return [np.asarray(a[2]).astype(dtype) for a in self.args]


def orbit_states():
    """12 elliptic, near-parabolic and hyperbolic states in general orientation."""
    from mc import domains as dom
    from mc import ref

    LD = np.longdouble
    R = dom.rotations()
    r, v = [], []
    for k, (e, f) in enumerate([(0.02, 0.4), (0.1, 2.0), (0.3, -1.0), (0.5, 3.0), (0.7, 0.9), (0.9, -2.4), (0.99, 1.0), (1.0, -1.2), (1.01, 0.7), (1.3, -0.5), (2.0, 1.1), (5.0, 0.2)]):
        a, b = ref.coe2rv(LD(1 + e), LD(e), LD(0), LD(0), LD(0), LD(f), LD(1))
        Q = R[3 + k % 7]
        r.append(Q @ a)
        v.append(Q @ b)
    return np.array(r).astype(float), np.array(v).astype(float)


def catalog(adx):
    tb, g = adx.twobody, adx.gravity
    F = []

    def add(name, call, args, core=(), **kw):
        F.append(Fn(name, call, args, core, **kw))

    s = lambda n, lo, hi, salt=0, kind="s": (n, kind, lin(lo, hi, salt))
    mu = lambda salt=9, kind="s": s("mu", 0.5, 3.0, salt, kind)
    pos = lambda n="r", k="v": (n, k, vec((0.9, 0.5, -0.4), 0.3))
    vel = lambda n="v", k="v": (n, k, vec((-0.5, 0.7, 0.5), 0.2, 5))
    # --- Kepler's equations
    add("kepler_equ_elps", adx.kepler_equ_elps, [s("E", -7, 7), s("e", 0.0, 0.9, 1), s("M", -5, 5, 2)], opt=1)
    add("dE", adx.dE, [s("E", -7, 7), s("e", 0.0, 0.9, 1)])
    add("kepler_equ_hypb", adx.kepler_equ_hypb, [s("H", -3, 3), s("e", 1.1, 4, 1), s("N", -5, 5, 2)], opt=1)
    add("dH", adx.dH, [s("H", -3, 3), s("e", 1.1, 4, 1)])
    alpha = np.array([0.7, -0.9, 0.0, 0.6, 1e-5, -2.0, 0.2, -1e-5, 0.85, -0.3, 0.05, 0.8])
    add("kepler_equ_uni", adx.kepler_equ_uni, [s("chi", -3, 3), ("alpha", "S", alpha), s("r0", 0.8, 2, 1), s("sigma0", -0.5, 0.5, 2), s("deltat", -3, 3, 3), mu()], opt=5)
    add("generalized_anomaly", adx.generalized_anomaly, [s("alpha", -1, 1), s("sigma", -2, 2, 1), s("sigma0", -2, 2, 2), s("deltat", -5, 5, 3), mu()], opt=2)
    add("mean_anomaly_elps", adx.mean_anomaly_elps, [s("a", 0.5, 4), s("deltat", -9, 9, 1), mu()], opt=1)
    add("mean_anomaly_hypb", adx.mean_anomaly_hypb, [s("a", -4, -0.5), s("deltat", -9, 9, 1), mu()], opt=1)
    add("solve_kepler_elps", lambda M, e: adx.solve_kepler_elps(M, e), [("M", "S", np.array([0.0, 1e-9, 0.5, -2.0, 3.1, 6.0, 20.0, -40.0, 1.0, np.pi, -0.1, 9.42])), ("e", "S", np.array([0.0, 0.5, 0.9, 0.99, 0.1, 0.3, 0.95, 0.7, 0.999, 0.2, 0.6, 0.01]))], bcast=False)
    add("solve_kepler_hypb", lambda N_, e: adx.solve_kepler_hypb(N_, e), [("N", "S", np.array([0.0, 1e-9, 0.5, -2.0, 50.0, 6.0, 1e4, -40.0, 1.0, -1e-3, -0.1, 9.0])), ("e", "S", np.array([1.001, 1.5, 1.9, 3.0, 1.1, 1.3, 10.0, 1.7, 1.01, 5.0, 1.6, 1.05]))], bcast=False)
    add("solve_kepler_uni", lambda t, a, r, s0, m: adx.solve_kepler_uni(t, a, r, s0, m), [("deltat", "S", np.array([0.0, 1.0, -1.0, 10.0, 0.01, -30.0, 4.0, 2.0, -0.3, 60.0, 1e-6, -7.0])), ("alpha", "S", alpha), s("r0", 0.8, 2, 1, "S"), s("sigma0", -0.5, 0.5, 2, "S"), mu(9, "S")], bcast=False)
    # --- integrals and conversions
    add("orb_period", adx.orb_period, [s("a", 0.5, 4), mu()], opt=1)
    add("a_from_period", adx.a_from_period, [s("P", 1, 20), mu()], opt=1)
    add("angular_momentum", adx.angular_momentum, [pos(), vel()], (3,))
    add("semimajor_axis", adx.semimajor_axis, [s("r", 0.8, 2), s("v", 0.2, 0.6, 1), mu()], opt=1)
    add("eccentricity_vector", adx.eccentricity_vector, [pos(), vel(), mu(9, "c")], (3,), opt=1)
    add("semiparameter", adx.semiparameter, [s("h", 0.5, 3), mu()], opt=1)
    add("mean_motion", adx.mean_motion, [s("P", 1, 20)])
    add("equ_of_orbit", adx.equ_of_orbit, [s("p", 0.5, 3), s("e", 0, 0.9, 1), s("f", -3, 3, 2)])
    add("equ_of_orb_uvi", adx.equ_of_orb_uvi, [s("U0", -1, 1), s("U1", -2, 2, 1), s("U2", 0, 2, 2), s("r0", 0.5, 2, 3), s("sigma0", -1, 1, 4)])
    add("radius_periapsis", adx.radius_periapsis, [s("p", 0.5, 3), s("e", 0, 2, 1)])
    add("radius_apoapsis", adx.radius_apoapsis, [s("p", 0.5, 3), s("e", 0, 0.9, 1)])
    add("semipara_from_ae", adx.semipara_from_ae, [s("a", 0.5, 3), s("e", 0, 0.9, 1)])
    add("a_from_pe", adx.a_from_pe, [s("p", 0.5, 3), s("e", 0, 0.9, 1)])
    # --- elements
    add("rv2coe", adx.rv2coe, [pos(), vel(), mu(9, "c")], [()] * 6, opt=1)
    add("coe2rv", adx.coe2rv, [s("p", 0.5, 3), s("e", 0, 0.9, 1), s("incl", 0.2, 3, 2), s("raan", 0, 6, 3), s("argp", 0, 6, 4), s("f", -3, 3, 5), mu()], [(3,), (3,)], opt=1)
    add("inclination", adx.inclination, [pos("h")], (1,))
    add("true_anomaly", adx.true_anomaly, [pos(), vel("e_vec")], (1,))
    add("right_ascension", adx.right_ascension, [("N", "v", vec((0.3, -0.2, 0.0), 0.9, 2) * [1, 1, 0])], (1,))
    add("argument_of_periapsis", adx.argument_of_periapsis, [("N", "v", vec((0.3, -0.6, 0.0), 0.2, 2) * [1, 1, 0]), vel("e_vec")], (1,))
    # --- two-body building blocks
    add("sigma_fn", tb.sigma_fn, [pos(), vel(), mu(9, "c")], (1,), opt=1)
    for i in range(6):
        add(f"ufunc{i}", getattr(tb, f"ufunc{i}"), [s("chi", -3, 3), ("alpha", "S", alpha)])
    add("lagrange_F", tb.lagrange_F, [s("U2", 0, 2), s("r0", 0.5, 2, 1)], opt=1)
    add("lagrange_G", tb.lagrange_G, [s("U1", -2, 2), s("U2", 0, 2, 1), s("sigma0", -1, 1, 2), s("r0", 0.5, 2, 3), mu()], opt=3)
    add("lagrange_Ft", tb.lagrange_Ft, [s("U1", -2, 2), s("r", 0.5, 2, 1), s("r0", 0.5, 2, 3), mu()], opt=2)
    add("lagrange_Gt", tb.lagrange_Gt, [s("U2", 0, 2), s("r", 0.5, 2, 1)])
    add("C_func", tb.C_func, [s("chi", -2, 2), s("U2", 0, 2, 1), s("U4", 0, 1, 2), s("U5", -1, 1, 3), s("deltat", -3, 3, 4), mu()], opt=2)
    r0, v0 = orbit_states()
    r1, v1 = np.roll(r0, 5, 0), np.roll(v0, 5, 0)
    four = [("r", "v", r1), ("v", "v", v1), ("r0", "v", r0), ("v0", "v", v0)]
    S = lambda n, lo, hi, salt: s(n, lo, hi, salt, "S")
    add("prpr0", tb.prpr0, four + [S("F", -1, 1, 1), S("C", -1, 1, 2), mu(9, "S")], (3, 3), bcast=False, opt=1)
    add("prpv0", tb.prpv0, four + [S("F", -1, 1, 1), S("G", -1, 1, 3), S("C", -1, 1, 2), mu(9, "S")], (3, 3), bcast=False, opt=1)
    add("pvpr0", tb.pvpr0, four + [S("Ft", -1, 1, 1), S("C", -1, 1, 2), mu(9, "S")], (3, 3), bcast=False, opt=1)
    add("pvpv0", tb.pvpv0, four + [S("F", -1, 1, 1), S("Gt", -1, 1, 3), S("C", -1, 1, 2), mu(9, "S")], (3, 3), bcast=False, opt=1)
    add("dxdx0", tb.dxdx0, four + [S("deltat", -3, 3, 1), mu(9, "S")], (6, 6), bcast=False, opt=2)
    add("nmax_by_periapsis", tb.nmax_by_periapsis, [S("rp_min", 0.1, 0.5, 0), S("r1", 0.6, 2, 1), S("r2", 0.6, 2, 2), S("tof", 1, 90, 3), mu(9, "S")], (), bcast=False, opt=5, kinky=True)
    add("is_short_way", tb.is_short_way, [("r1", "v", r0), ("v1", "v", v0), ("r2", "v", r1 + 0.1)], (), bcast=False, kinky=True)
    add("pass_perigee", tb.pass_perigee, [("r1", "v", r0), ("v1", "v", v0), ("r2", "v", r1 + 0.1), mu(9, "S")], (), bcast=False, opt=1, kinky=True)
    add("rp_islower_rmin", tb.rp_islower_rmin, [S("rmin", 0.2, 1.8, 0), ("r", "v", r0), ("v", "v", v0), mu(9, "S")], (), bcast=False, opt=1, kinky=True)
    # --- forces, events, rotations, propagation
    x = np.concatenate([r0, v0], 1)
    add("point_mass_grav", lambda x_, m: g.point_mass_grav(0.0, x_, {"mu": m}), [("x", "x", x), mu(9, "S")], (3,), bcast=False)
    for n, J in (("j2_acc", "J2"), ("j3_acc", "J3"), ("j4_acc", "J4")):
        add(n, lambda x_, m, j, R, n=n, J=J: getattr(g, n)(0.0, x_, {"mu": m, J: j, "R_eq": R}), [("x", "x", x), mu(9, "S"), S(J, -0.02, 0.03, 1), S("R_eq", 0.6, 1.1, 2)], (3,), bcast=False)
    add("radius_islow", lambda x_, m: adx.events.radius_islow(0.0, x_, {"rmin": m}), [("x", "x", x), S("rmin", 0.5, 2, 1)], (), bcast=False)
    for a in "xyz":
        add("rotmat3d" + a, getattr(adx.utils, "rotmat3d" + a), [s("angle", -4, 4)], (3, 3))
    times = np.stack([lin(-4, 4, k) for k in range(3)], -1)
    times[3] = 0
    times[4] = [0.0, 1e-8, 25.0]
    add("kepler", adx.prop.kepler, [("ts", "t", times), ("r0", "v", r0), ("v0", "v", v0), mu(9, "S")], [(3, 3), (3, 3)], bcast=False, opt=1)
    return F
