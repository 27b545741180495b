"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
LATTICE = "explicit-state enumeration of a bounded input lattice on the real code, checked against an independent reference model at every state"
TECH = {
    "C02": "exhaustive enumeration of hop sequences (all words up to a depth) on the real propagator, state by state against the reference flow",
    "C09": "exhaustive enumeration of (initial state, force subset, entry point, sampling) runs of the real integrator against exact / independent trajectories",
    "C10": "exhaustive enumeration of entry point x configuration histories on the real code against a model of the sampling contract",
    "C11": "exhaustive enumeration of (orbit, threshold, entry point) runs with the event on the real code against the exact crossing",
    "C13": "exhaustive word enumeration over the octahedral group (explicit-state) on the real matrices, plus angle lattice",
    "C14": "exhaustive walks of the conversion graph (all paths up to a depth) on the real code",
    "C15": "exhaustive enumeration of broadcastable shape combinations on the real code against elementwise calls",
    "C16": "exhaustive enumeration of transformation words (jit, vmap over every argument subset, jvp) on the real code",
    "C17": "explicit-state exploration of call histories (all operation sequences up to a depth) on the real code",
    "C18": "stateless model checking: all thread interleavings up to a preemption bound under a controlled line-level scheduler",
    "C19": "exhaustive enumeration of unit systems x problems x functions on the real code (metamorphic relation at every state)",
    "C20": "exhaustive enumeration of the 48-element signed-permutation group and time reversal on the real code",
    "C21": "exhaustive enumeration of (state, force subset, sampling mode) runs with invariants checked at every returned sample",
    "C23": "exhaustive enumeration of fault patterns (every subset of the input numbers, rows and times up to a size replaced by NaN) injected into the real code",
}
NOTE = (
    "Exhaustive within the bounds stated in the evidence file (coverage.bounds); every state is an execution of the code in /repo's working tree, "
    "so no separate model has to be bound to it. Trusted: numpy longdouble arithmetic of the reference (mc/ref.py), JAX, diffrax, the tolerance model."
)
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", "props", i.lower() + ".py")):
        checks.append(
            dict(
                property=i,
                quick_cmd=f"bash run.sh {i} quick",
                thorough_cmd=f"bash run.sh {i} thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH.get(i, LATTICE),
                level="model_checking",
                level_note=NOTE,
            )
        )
    elif i == "C22":
        na.append(dict(property=i, reason="Only the CPU back end of the array library is installed; the other back ends' behaviours cannot be executed or enumerated here."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=checks,
    not_applicable=na,
    notes="No hooks were added to /repo. Defects repaired and findings recorded: known_findings.json. Bounds and oracles: DESIGN.md.",
)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
