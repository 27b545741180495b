"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=["src/astrodynx/" + f for f in files],
                state=state or [],
                mechanism=[dict(name=n, where="src/astrodynx/" + w) for n, w in mech],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


prop(
    "C01",
    "Kepler propagation returns the exact two-body state for every conic",
    "For every non-degenerate initial state (circular, elliptic, near-parabolic, parabolic or hyperbolic, any orientation, inbound or outbound), every time offset (zero, tiny, forward, backward, many revolutions, long hyperbolic arcs), every consistent unit system, in float32 and float64, the Kepler propagator returns the position and velocity of the unique two-body trajectory at each requested time, to within the working precision times the conditioning of the problem plus the Kepler solver's default tolerance. The i-th output row belongs to the i-th requested time whatever the number, order and repetition of the times, and a scalar time gives exactly one row.",
    ["inputs", "configurations"],
    "all (conic type, eccentricity, anomaly, orientation, time offset, unit system, precision, layout of the time vector)",
    "The tests propagate three orbits at a handful of times with canonical units; the failure modes are regional (high eccentricity, long hyperbolic arcs, near-parabolic cancellation, negative times, small units), so no handful of samples settles them.",
    ["prop/_kepler.py", "twobody/_kep_equ.py", "twobody/_uniformulas.py", "twobody/_lagrange.py", "twobody/_orb_integrals.py"],
    [("universal-variable Kepler solver", "twobody/_kep_equ.py:solve_kepler_uni"), ("Lagrange coefficients from universal functions", "prop/_kepler.py:kepler")],
    ["astrodynx.prop.kepler return value"],
)
prop(
    "C02",
    "Kepler propagation is a flow: hops compose, invert and conserve the integrals",
    "Propagating through any sequence of forward and backward hops ends in the state obtained by one propagation over the sum of the hops, and a closed sequence of hops returns to the start. Along every such sequence the specific energy (semimajor axis), the angular momentum vector and the eccentricity vector reported by the library stay constant.",
    ["histories", "inputs"],
    "all hop sequences up to the depth bound over an alphabet of incommensurable time steps of both signs, from every orbit of the lattice",
    "It is a statement about all histories of propagator calls (starting from any state reached so far), while each test makes one call from one initial state.",
    ["prop/_kepler.py", "twobody/_kep_equ.py", "twobody/_orb_integrals.py"],
    [("propagator", "prop/_kepler.py:kepler"), ("integrals of motion", "twobody/_orb_integrals.py:angular_momentum, eccentricity_vector, semimajor_axis")],
    ["astrodynx.prop.kepler", "astrodynx.angular_momentum", "astrodynx.eccentricity_vector", "astrodynx.semimajor_axis"],
)
prop(
    "C03",
    "Classical elements and Cartesian states convert into each other exactly",
    "Converting classical elements to a state gives the position and velocity of the textbook definition for every semiparameter, eccentricity (elliptic, parabolic, hyperbolic), inclination in [0, pi], node, argument of periapsis, anomaly and gravitational parameter. Converting a state to elements gives every element in its proper quadrant (angles within [0, 2 pi], inclination within [0, pi]), so that the round trip in either direction restores the input wherever the element is defined; for circular or equatorial orbits the elements that remain defined are still right.",
    ["inputs"],
    "all combinations of a lattice of elements covering every quadrant of every angle and every conic, several gravitational parameters, both precisions",
    "The tests convert a few states in the first quadrants; a wrong branch in one quadrant of one angle, or a wrong factor for one kind of conic, is invisible to them.",
    ["twobody/_orb_elements.py", "twobody/_orb_integrals.py", "utils/_rot_mat.py"],
    [("element extraction with quadrant resolution", "twobody/_orb_elements.py:rv2coe"), ("perifocal to inertial rotation", "twobody/_orb_elements.py:coe2rv")],
    ["astrodynx.rv2coe", "astrodynx.coe2rv", "astrodynx.inclination", "astrodynx.right_ascension", "astrodynx.argument_of_periapsis", "astrodynx.true_anomaly"],
)
prop(
    "C04",
    "The elliptic and hyperbolic Kepler solvers return the root to tolerance",
    "For every mean anomaly (any sign, any number of revolutions) and every eccentricity below one, respectively above one, the elliptic and hyperbolic solvers terminate with default settings and return the unique root of Kepler's equation to within the requested tolerance (or the working precision, if that is coarser), for loose and tight tolerances alike. The solution is odd, increasing, and for ellipses advances by one turn per turn of the mean anomaly; the residual and derivative functions offered for root finding are those of the same equation.",
    ["inputs", "configurations"],
    "all (mean anomaly, eccentricity, tolerance, precision) of a lattice with boundary values",
    "Convergence of Newton's method is a regional property of (M, e); the tests sample a few dozen benign pairs.",
    ["twobody/_kep_equ.py"],
    [("elliptic Newton iteration", "twobody/_kep_equ.py:solve_kepler_elps"), ("hyperbolic Newton iteration", "twobody/_kep_equ.py:solve_kepler_hypb")],
    ["astrodynx.solve_kepler_elps", "astrodynx.solve_kepler_hypb", "astrodynx.kepler_equ_elps", "astrodynx.kepler_equ_hypb", "astrodynx.dE", "astrodynx.dH"],
)
prop(
    "C05",
    "Universal functions equal their defining series for every conic",
    "For every anomaly of either sign and every reciprocal semimajor axis (positive, negative, zero and arbitrarily close to zero) the universal functions U0 to U5 equal chi^n sum_k (-alpha chi^2)^k/(n+2k)! to working precision, with no loss of accuracy across the parabolic limit. They therefore satisfy U_n + alpha U_(n+2) = chi^n/n!, the parity (-1)^n, the doubling formulas and d U_(n+1)/d chi = U_n.",
    ["inputs"],
    "all (chi, alpha) of a lattice that crosses alpha = 0 logarithmically, scalar and array chi, both precisions",
    "The tests evaluate a few points at alpha = 1, 0, -1; cancellation and branch errors live near the parabolic limit and at large arguments.",
    ["twobody/_uniformulas.py"],
    [("closed forms per conic and series near the parabola", "twobody/_uniformulas.py:ufunc0..ufunc5")],
    ["astrodynx.twobody.ufunc0", "astrodynx.twobody.ufunc1", "astrodynx.twobody.ufunc2", "astrodynx.twobody.ufunc3", "astrodynx.twobody.ufunc4", "astrodynx.twobody.ufunc5"],
)
prop(
    "C06",
    "Elliptic, hyperbolic and universal formulations describe the same motion",
    "For every orbit and time offset (in units in which the cube of the semimajor axis is representable), the universal Kepler solver, the generalized anomaly computed from sigma, and the classical route (mean anomaly, elliptic or hyperbolic Kepler equation, eccentric anomaly difference) give the same anomaly, and the universal Kepler equation vanishes there and only there. The radius from the orbit equation, from the universal functions and from the propagated position agree, and the Lagrange coefficients map the initial state to the propagated one with F Gt - Ft G = 1.",
    ["inputs", "configurations"],
    "all (orbit, epoch anomaly, time offset, unit system) of a lattice, every pair of formulations that applies",
    "Each formulation is tested alone on a few numbers; their agreement for every orbit and unit system is a relation between functions that no single-function test states.",
    ["twobody/_kep_equ.py", "twobody/_orb_integrals.py", "twobody/_lagrange.py", "twobody/_uniformulas.py"],
    [("universal solver and residual", "twobody/_kep_equ.py:solve_kepler_uni, kepler_equ_uni, generalized_anomaly"), ("mean anomalies", "twobody/_kep_equ.py:mean_anomaly_elps, mean_anomaly_hypb"), ("Lagrange coefficients", "twobody/_lagrange.py")],
    ["the named functions' return values"],
)
prop(
    "C07",
    "The state transition matrix is the true, symplectic Jacobian of the flow",
    "For every pair of states on one two-body trajectory separated by any time (zero, forward, backward, several revolutions), the state transition matrix and its four blocks equal the derivative of the final state with respect to the initial state for every conic and gravitational parameter. Hence it is symplectic, is the identity at zero separation, composes along the trajectory and is inverted by exchanging the endpoints; automatic differentiation of the Kepler propagator and of the numerical propagator gives the same matrix.",
    ["inputs", "histories"],
    "all (orbit, separation, mu) of a lattice and all compositions of hops up to the depth bound",
    "The tests compare a few matrices at benign points; sign, sqrt(mu) or secular-term errors appear only for other conics, units, directions of time or multi-revolution arcs.",
    ["twobody/_state_trans.py", "prop/_kepler.py", "prop/_cowell_method.py"],
    [("closed-form partial derivatives", "twobody/_state_trans.py:prpr0, prpv0, pvpr0, pvpv0, C_func, dxdx0"), ("traceable propagators", "prop/_kepler.py:kepler, prop/_cowell_method.py:to_final")],
    ["astrodynx.twobody.dxdx0 and its blocks", "jax.jacfwd of astrodynx.prop.kepler", "jax.jacrev of astrodynx.prop.to_final"],
)
prop(
    "C08",
    "Gravity accelerations are the exact gradients of their potentials",
    "At every position outside the origin (any octant, on the axis, in the equatorial plane, near or far, in any unit system, float32 or float64) the point-mass, J2, J3 and J4 accelerations equal the gradient of the corresponding zonal potential. They depend only on the position and on their own named parameters: not on time, velocity, trailing state components or unrelated arguments; they are linear in mu and in the zonal coefficient and vanish with it.",
    ["inputs", "configurations"],
    "all (position, parameter set, time, velocity, state length, extra arguments) of a lattice with axis, equator and far-field points",
    "The tests check a few positions; a wrong polynomial coefficient can vanish at those latitudes, and independence from the unrelated inputs is universally quantified.",
    ["gravity/_general.py"],
    [("closed-form zonal accelerations", "gravity/_general.py:point_mass_grav, j2_acc, j3_acc, j4_acc")],
    ["return values of the gravity functions"],
)
prop(
    "C09",
    "Numerical propagation solves the configured equations of motion",
    "For every initial state, final time and set of force terms, all numerical propagation entry points return states of the same trajectory: the solution of the configured equations of motion started from the given state at time zero. With point-mass gravity this is the two-body trajectory of the Kepler propagator, with zonal terms it is the solution of the same perturbed equations obtained by an independent integrator, to within the integrator's tolerance.",
    ["inputs", "configurations"],
    "all (entry point, orbit, final time, subset of force terms, gravitational parameter, solver) of a lattice",
    "The tests run each entry point on one or two orbits; agreement between entry points and with the exact solution over orbits, force terms and configurations is never stated.",
    ["prop/_cowell_method.py", "gravity/_general.py"],
    [("entry points over the ODE solver", "prop/_cowell_method.py:cowell_method, fixed_steps, adaptive_steps, custom_steps, to_final")],
    ["Solution.ts and Solution.ys"],
)
prop(
    "C10",
    "Numerical propagation honours the requested sampling and configuration",
    "Each numerical entry point returns exactly the samples its contract names: the initial state and every step (for fixed stepping the smallest possible number of steps none of which is longer than the given size, hence equal steps of that size whenever it divides the final time), every requested output time in order, or the final state only, always reaching the final time when no event fires. Whatever configuration is passed (force arguments, event, solver, step-size controller, initial step, step limit) is the one that takes effect, and exceeding the step limit is reported, never silently returned as a result.",
    ["configurations", "inputs"],
    "all combinations of entry point with each configuration parameter (present, absent, at its limit) and of time layouts up to the bound",
    "The tests exercise default configurations; a dropped or swapped parameter in one entry point, or an off-by-one at a step limit, is visible only in combinations they do not run.",
    ["prop/_cowell_method.py", "diffeq/__init__.py"],
    [("parameter forwarding to the ODE solver", "prop/_cowell_method.py")],
    ["Solution.ts, ys, stats, result; raised errors"],
)
prop(
    "C11",
    "A radius event stops the propagation at the first crossing and only there",
    "With the minimum-radius event attached and the initial radius above the threshold, every numerical entry point stops with the first integration step at whose end the radius is below the threshold (so the crossing lies within the last step, or at the last sample when the event locates the root), reports that an event ended the propagation and returns no sample after it; it runs to the final time, with the same samples as without the event, when the radius stays above. The event value is radius minus threshold whatever the time, the velocity and the other arguments.",
    ["inputs", "histories", "configurations"],
    "all (orbit, epoch anomaly, threshold relative to periapsis, final time relative to the crossing, entry point) of a lattice",
    "The tests attach one event to one decaying arc; whether the event fires at the right step of every history, or spuriously, is a property of all trajectories.",
    ["events/radius.py", "prop/_cowell_method.py"],
    [("event condition", "events/radius.py:radius_islow"), ("event forwarding", "prop/_cowell_method.py:OrbDynx")],
    ["Solution.ts/ys/event_mask", "astrodynx.events.radius_islow"],
)
prop(
    "C12",
    "Transfer-path predicates agree with the actual path",
    "For every orbit and every two points on it, the short-way test is true exactly when the arc flown from the first to the second point is shorter than half a turn, and the perigee test is true exactly when that arc contains the periapsis, for prograde and retrograde, elliptic and hyperbolic orbits in any plane. The periapsis test is true exactly when the orbit's periapsis is below the threshold, and the revolution bound is the largest number of whole periods of the smallest admissible orbit that fit in the time of flight.",
    ["inputs"],
    "all (orbit, orientation, departure anomaly, arrival anomaly, threshold, time of flight) of a lattice, excluding only exact ties",
    "Predicates are piecewise constant: each test covers one cell, while errors sit in particular cells (long way, retrograde, inbound, half-turn, other units).",
    ["twobody/_path_check.py"],
    [("geometric predicates", "twobody/_path_check.py:is_short_way, pass_perigee, rp_islower_rmin, nmax_by_periapsis")],
    ["return values of the predicates"],
)
prop(
    "C13",
    "Rotation matrices form the rotation group about each axis",
    "For every angle the three elementary rotation matrices are proper orthogonal, leave their own axis fixed and rotate the other two axes by that angle in the documented right-handed sense; angles add under multiplication and the opposite angle gives the transpose. Every product of quarter turns about the three axes equals the corresponding element of the octahedral rotation group, and an array of angles gives the array of the individual matrices.",
    ["inputs", "histories"],
    "all words of quarter turns up to the depth bound (until the whole group of 24 elements is reached and closed) and all angles and array shapes of a lattice",
    "The tests check individual angles and axes; the group laws quantify over all products and all angles.",
    ["utils/_rot_mat.py"],
    [("elementary rotations", "utils/_rot_mat.py:rotmat3dx, rotmat3dy, rotmat3dz")],
    ["astrodynx.utils.rotmat3dx/y/z"],
)
prop(
    "C14",
    "Orbit size, shape, period and integral conversions are mutually consistent",
    "For every elliptic or hyperbolic orbit and gravitational parameter (in units in which the cube of the semimajor axis is representable), the quantities the library computes from a state (angular momentum, eccentricity vector, semiparameter, semimajor axis, sigma) and the conversions between semimajor axis, semiparameter, eccentricity, periapsis and apoapsis radius, period and mean motion all describe one and the same orbit. Following any chain of conversions back to a quantity already known returns the same value, and the orbit equation gives the periapsis radius at zero anomaly, the apoapsis radius at half a turn, and the actual radius elsewhere.",
    ["inputs", "histories"],
    "all orbits of a lattice and all chains of conversions up to the depth bound",
    "Each conversion is tested alone on one or two numbers; consistency over all chains, conics and units is not.",
    ["twobody/_orb_integrals.py"],
    [("conversion formulas", "twobody/_orb_integrals.py")],
    ["return values of the conversion functions"],
)
prop(
    "C15",
    "Batched calls equal elementwise calls for every broadcastable shape",
    "For every function that documents array or broadcast arguments, and every combination of compatible argument shapes (scalars, Python numbers, arrays of vectors, leading batch axes, singleton axes), the result has the broadcast shape and each element equals the result for the corresponding individual inputs. The floating-point precision of the inputs is the precision of the result.",
    ["inputs", "configurations"],
    "all shape assignments to the arguments within the deviation bound, for every such function, both precisions",
    "The tests use one batch shape per function; the number of shape combinations is exponential in the number of arguments and errors affect single combinations.",
    ["twobody/_orb_integrals.py", "twobody/_orb_elements.py", "twobody/_kep_equ.py", "twobody/_lagrange.py", "twobody/_uniformulas.py", "utils/_rot_mat.py"],
    [("keepdims/last-axis conventions", "twobody/_orb_integrals.py, twobody/_orb_elements.py, utils/_rot_mat.py")],
    ["shape, dtype and value of the results"],
)
prop(
    "C16",
    "Every function gives the same result under jit and vmap, with right derivatives",
    "Every public computation can be compiled (jit), vectorised (vmap) over any subset of its numeric arguments, nested in either order, and, except the numerical propagator, differentiated in forward mode; compiled and vectorised results equal the plain call on every input, and derivatives equal the true derivatives. This includes inputs for which the iterative solvers need no iteration, many iterations, or different numbers of iterations within one batch.",
    ["inputs", "configurations"],
    "all (function, transformation, subset of mapped arguments, input of the lattice) within the bound on nesting",
    "The tests call the functions eagerly; tracing takes different code paths (masked loops, both branches evaluated) for every function and argument subset.",
    ["twobody/_kep_equ.py", "twobody/_uniformulas.py", "prop/_kepler.py", "twobody/_state_trans.py", "twobody/_path_check.py", "gravity/_general.py", "prop/_cowell_method.py"],
    [("traceable control flow (lax.cond, lax.while_loop)", "twobody/_kep_equ.py, twobody/_uniformulas.py")],
    ["results of jax.jit, jax.vmap, jax.jvp of the public functions"],
)
prop(
    "C17",
    "Calls are pure: results do not depend on the history of earlier calls",
    "The result of any call depends only on its arguments: it is the same whatever calls were made before (with other values, shapes, precisions, units, default arguments, under tracing, or calls that failed). No call modifies its arguments, the shared default arguments or the library's configuration objects.",
    ["histories"],
    "all call sequences up to the depth bound over an alphabet that covers every module, every default-argument path, traced calls and failing calls",
    "Tests run each call once in one order; state leaking between calls shows up only in particular sequences.",
    ["gravity/_general.py", "events/radius.py", "prop/_cowell_method.py", "prop/_kepler.py", "twobody/_kep_equ.py"],
    [("no module-level mutable state; immutable configuration", "prop/_cowell_method.py:OrbDynx, gravity/_general.py default args")],
    ["return values, arguments and defaults before and after each call"],
    [dict(name="default args dictionaries", meaning="shared mutable defaults of force and event functions", where="src/astrodynx/gravity/_general.py, src/astrodynx/events/radius.py, src/astrodynx/prop/_cowell_method.py")],
)
prop(
    "C18",
    "Concurrent calls from several threads do not disturb each other",
    "When calls are made from several threads at once, on the same or on different inputs, every call returns what it returns alone, whatever the interleaving of their execution.",
    ["schedules"],
    "all interleavings with at most the stated number of preemptions of two or three concurrent calls at the granularity of the library's source lines",
    "The tests are single-threaded, and free-running threads sample almost none of the interleavings.",
    ["prop/_kepler.py", "twobody/_kep_equ.py", "twobody/_state_trans.py", "gravity/_general.py", "prop/_cowell_method.py"],
    [("no shared scratch state", "src/astrodynx")],
    ["return values of concurrent calls"],
)
prop(
    "C19",
    "Results do not depend on the choice of units",
    "Expressing the same problem in other consistent units of length and time (with the gravitational parameter and any equatorial radius, threshold or step converted accordingly) gives the same physical result from every function: propagated states, elements, transition matrices, anomalies, conversions, predicates, accelerations and fixed-step numerical propagation.",
    ["inputs", "configurations"],
    "all (problem of the lattice, length unit, time unit) with unit factors over many orders of magnitude",
    "The tests use canonical units almost everywhere; a missing or doubled gravitational parameter, an absolute tolerance or a hidden default of one only shows when the units change.",
    ["prop/_kepler.py", "twobody/_kep_equ.py", "twobody/_state_trans.py", "twobody/_orb_elements.py", "twobody/_orb_integrals.py", "twobody/_path_check.py", "gravity/_general.py", "prop/_cowell_method.py"],
    [("explicit gravitational parameter argument", "every function with mu")],
    ["return values in both unit systems"],
)
prop(
    "C20",
    "Results are invariant under rotation, reflection and time reversal",
    "Rotating or reflecting the coordinate frame rotates or reflects every propagated state, transition matrix, acceleration and vector integral and leaves every scalar and predicate unchanged; zonal accelerations have exactly the symmetries of their axisymmetric potential. Reversing the velocity and the time retraces the same trajectory.",
    ["inputs", "configurations"],
    "all 48 signed axis permutations (the whole octahedral group, proper and improper) and general rotations, all orbits of a lattice",
    "The tests place orbits mostly in the x-y plane in one orientation; a component mix-up in any other orientation is not seen.",
    ["prop/_kepler.py", "twobody/_state_trans.py", "twobody/_orb_integrals.py", "twobody/_path_check.py", "gravity/_general.py", "prop/_cowell_method.py"],
    [("vector algebra on the last axis", "twobody/_orb_integrals.py, gravity/_general.py")],
    ["return values before and after the symmetry"],
)
prop(
    "C21",
    "Zonal numerical propagation conserves energy and the polar angular momentum",
    "For every combination of the point-mass, J2, J3 and J4 terms, every initial state and every sampling mode, numerical propagation conserves the total energy including the zonal potentials and the angular momentum about the polar axis to within the integrator's tolerance, at every returned sample. Propagating to the end and back again with the velocity reversed restores the initial state.",
    ["inputs", "configurations", "histories"],
    "all subsets of the force terms, all orbits of a lattice, all sampling modes and hop sequences up to the depth bound",
    "The tests check one perturbed orbit's shape; conservation laws must hold at every sample of every trajectory for every combination of terms.",
    ["gravity/_general.py", "prop/_cowell_method.py"],
    [("conservative zonal force terms", "gravity/_general.py"), ("propagation of summed terms", "prop/_cowell_method.py")],
    ["Solution.ys"],
)
prop(
    "C22",
    "Results agree across CPU, GPU and TPU back ends",
    "Every computation gives the same result, to working precision, on each back end the array library supports (CPU, GPU, TPU).",
    ["configurations"],
    "all back ends and all computations",
    "CI runs on CPU only.",
    ["__init__.py"],
    [("no back-end specific code", "__init__.py")],
    ["results per back end"],
)
prop(
    "C23",
    "Undefined inputs stay undefined and do not leak into other results",
    "When an input number of a call is undefined (not a number), the call still returns, and every real-valued result (all but predicates and counts) that depends on that number is undefined too, never a plausible finite value. Nothing else is affected: the other rows of a batch, the other requested times of a Kepler propagation (also beside an infinite time) and the other lanes of a vectorised call or fixed-step propagation are exactly what they are without it.",
    ["inputs"],
    "all subsets of the input numbers of every function up to a size, all base inputs, all subsets of rows and times up to a size",
    "The tests only pass valid numbers; a guard, fallback or shared convergence test that swallows one undefined number is invisible to them, and the result looks valid.",
    ["twobody/_kep_equ.py", "twobody/_uniformulas.py", "twobody/_orb_elements.py", "twobody/_orb_integrals.py", "twobody/_path_check.py", "twobody/_state_trans.py", "prop/_kepler.py", "gravity/_general.py", "prop/_cowell_method.py"],
    [("per-element convergence of the iterative solvers", "twobody/_kep_equ.py:solve_kepler_*"), ("selection between conics without a default that hides NaN", "twobody/_uniformulas.py:ufunc0..5"), ("one independent solve per requested time", "prop/_kepler.py:kepler")],
    ["return values"],
)
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
