"""Per-property notes for DESIGN.md: oracle and cost."""
NOTES = {
    "C01": dict(cost="40-50 s", oracle="Exact two-body flow in 80-bit arithmetic (mc/ref.py, universal variables with a bracketed root). Every state returned by `prop.kepler` is compared componentwise with a bound from the exact transition matrix (rounding of the inputs) and the residual tolerance of the solver. Time-vector layouts are a small word language of their own: each word must give the rows of the single-time calls."),
    "C02": dict(cost="12 s", oracle="Explicit-state: a node is (orbit, net time); the model value is the exact state there. Each transition calls the real propagator from the state the implementation itself reached. Checked in every node: energy, angular momentum, eccentricity vector, agreement of all words with the same net time, closure of closed words."),
    "C03": dict(cost="9 s", oracle="Textbook formulas in 80-bit arithmetic; angles compared on the circle; round trips in both directions on every tuple."),
    "C04": dict(cost="18 s", oracle="The residual of the returned anomaly is evaluated in 80-bit arithmetic and must be within the requested tolerance (or a few ulps); the root itself is compared with the reference root; oddness and the turn symmetry by words of the symmetry group."),
    "C05": dict(cost="30 s", oracle="Defining series / recurrences in 80-bit arithmetic, and the identities between the functions, on the same points."),
    "C06": dict(cost="9 s", oracle="All formulations are evaluated by the library on the same problem and compared pairwise (differential), plus with the exact root."),
    "C07": dict(cost="25 s", oracle="Complex-step Jacobian of the exact flow; symplecticity, composition and inversion as identities; JAX derivatives of both propagators."),
    "C08": dict(cost="9 s", oracle="Numerical complex-step gradient of the zonal potential written from Legendre polynomials; independence from irrelevant inputs; linearity."),
    "C09": dict(cost="60-110 s", oracle="Exact flow for point-mass problems, DOP853 on the gradient of the potential otherwise; every returned sample."),
    "C10": dict(cost="100-140 s", oracle="A small model of the sampling contract (sample times of fixed stepping, requested times, step limit) and, for each configuration, the plain integrator call with that configuration: a parameter that does not take effect differs from it."),
    "C11": dict(cost="115 s", oracle="First crossing on the reference trajectory (grid with refinement); the run with the event must equal the run without it when there is no crossing, and stop at the step end after, or the located root of, the first crossing otherwise."),
    "C12": dict(cost="7 s", oracle="The arc that is actually flown, from the exact anomalies of departure and arrival; revolution bounds from the exact extremal semimajor axis."),
    "C13": dict(cost="8 s", oracle="80-bit sine and cosine; the group table of the 24 rotations; addition law, orthogonality, determinant."),
    "C14": dict(cost="9 s", oracle="Exact orbit quantities in 80-bit arithmetic; each walk carries an a-priori rounding bound edge by edge."),
    "C15": dict(cost="75 s", oracle="One-by-one calls at the broadcast indices; dtype table of the documented precision rules."),
    "C16": dict(cost="140 s", oracle="Single compiled calls (metamorphic), plain calls; derivatives from the implicit function theorem in 80-bit arithmetic for the solvers and 4th-order differences elsewhere."),
    "C17": dict(cost="150 s", oracle="The value of each call in a fresh process; every history must reproduce it bit for bit; deep snapshot of arguments, default arguments and module state before and after."),
    "C18": dict(cost="190-210 s", oracle="The value of each call run alone."),
    "C19": dict(cost="45 s", oracle="Metamorphic: the result of the scaled problem, scaled back, must equal the result in canonical units. The bound is measured, not guessed: machine precision times the amplification of a relative change of every single input component (finite differences on the canonical problem), plus the residual at which the iterative solvers stop in each unit system. Numerical propagation is compared with fixed steps and with purely relative step control, where the whole step sequence is unit-free."),
    "C20": dict(cost="36 s", oracle="Metamorphic: results for the transformed problem equal the transformed results, for every element of the group (signed permutations are exact in binary arithmetic, so only summation order differs); elements of the 16 symmetries of the axis act on the classical elements by a composed rule (mirror, turn, velocity reversal); the transition matrix of the reversed arc must invert the forward one; measured rounding bounds as in C19."),
    "C21": dict(cost="80-90 s", oracle="Energy with the zonal potential from the reference model (80-bit) and polar angular momentum at every returned sample, against the integrator tolerance carried by the envelope of the two-body transition matrix; return to the start by negative time and by reversed velocity; all words of hops."),
    "C23": dict(cost="65 s", oracle="Dependence is measured on the code itself: an output element depends on an input number if exchanging it for one of 11 other valid values changes the element; then NaN in any subset containing it must give a non-finite element. Confinement: the same compiled batch without the fault, element by element."),
}
