"""Writes known_findings.json (committed; never written by a check)."""
import json
import os

R = {"canonical": 1.0, "earth km": 6378.137, "earth m": 6378137.0, "moon km": 1737.4, "au-day": 4.2635e-5, "small": 2.0**-9, "jupiter km": 71492.0}
RADII = [0.3, 0.7, 1.0, 1.001, 1.05, 2.0, 6.6, 60.0, 1000.0]
FLT_MAX = 3.4028235e38


def keys(term):
    return [f"{term} float32 zero: units={u} r/R_eq={rho}" for u in R for rho in RADII if (R[u] * rho) ** 7 >= FLT_MAX * 0.99]


findings = [
    dict(
        id=f"{t}-float32-overflow",
        property="C08",
        keys=keys(t),
        text=f"{t} returns 0 (or NaN, when its numerator overflows as well) in float32 where r**7 overflows (r > 3.2e5 in the caller's length unit: every Earth orbit in metres, beyond the Moon's distance in km); "
        f"not repaired because tests/test_gravity.py::test_earth_{t[:2]} expects the overflowed value",
    )
    for t in ("j3_acc", "j4_acc")
]
findings[1]["keys"] += [f"j4_acc float32 nan: units=earth m r/R_eq={rho} J=0.005" for rho in RADII]  # numerator overflows too
fixed = [
    "fixed: property=C05 10341fc U2..U5 (and through them C01, C06, C07) lost all accuracy near the parabola, e.g. ufunc3(1.0, 1e-6) in float32",
    "fixed: property=C04 06f7d78 solve_kepler_elps left its bracket for e > 0.99 and returned its starting guess when that was already within tolerance",
    "fixed: property=C04 458e900 solve_kepler_hypb diverged from H0 = N for large N and skipped the iteration for tolerances above the first residual",
    "fixed: property=C04 3b50675 solve_kepler_hypb diverged for e - 1 < 1e-4, e.g. e=1.000001, N=1e-4",
    "fixed: property=C01 23d34ab solve_kepler_uni failed to converge for long hyperbolic arcs and many revolutions of eccentric orbits (also C06)",
    "fixed: property=C16 55cbb48 prop.kepler raised under jit, vmap and grad (float conversion of traced values)",
    "fixed: property=C03 f4f266c rv2coe returned argument of periapsis and true anomaly in the wrong half turn",
    "fixed: property=C15 c8d7a44 coe2rv did not broadcast an array of anomalies against a scalar eccentricity",
    "fixed: property=C12 ad7511d pass_perigee was wrong for a transfer angle of exactly 180 degrees",
    "fixed: property=C08 3780ef6 j2_acc returned 0 in float32 beyond 5e7 length units (GPS orbits in metres)",
    "fixed: property=C03 de1f793 inclination was NaN for equatorial orbits when rounding pushed the cosine beyond 1",
]
fixed.append("fixed: property=C07 @@KEPLERAD the derivative of prop.kepler was NaN on exactly parabolic orbits (1 / semimajor_axis)")
fixed.append("fixed: property=C11 189e680 an Event with a root finder raised TypeError because radius_islow did not accept the state as keyword y")
fixed.append("fixed: property=C15 ce0c78e dxdx0 and its blocks returned float64 for float32 inputs when 64-bit is enabled")
fixed.append("fixed: property=C15 fcd0ea3 ufunc0..5, kepler_equ_uni and solve_kepler_uni raised when a Python number met a float32 array with 64-bit enabled (and ufunc0, ufunc1 for integer chi)")
fixed.append("fixed: property=C16 e80b6ce the derivative of solve_kepler_elps with respect to e was wrong at e = 0 (ties of the clip bounds)")
fixed.append("fixed: property=C23 @@UFUNC0 ufunc0(chi, nan) returned 1 (the branch of the parabola) instead of NaN")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import subprocess

h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
for line in h.splitlines():
    if "differentiable on parabolic" in line:
        fixed = [f.replace("@@KEPLERAD", line.split()[0]) for f in fixed]
    if "undefined alpha" in line:
        fixed = [f.replace("@@UFUNC0", line.split()[0]) for f in fixed]
json.dump(dict(findings=findings, fixed=fixed), open(os.path.join(here, "known_findings.json"), "w"), indent=1)
print({f["id"]: len(f["keys"]) for f in findings}, len(fixed))
