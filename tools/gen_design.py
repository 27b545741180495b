"""Writes DESIGN.md."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
from design_notes import NOTES  # noqa: E402

out = [open(os.path.join(here, "tools", "design_head.md")).read()]
out.append("## Properties\n")
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    n = NOTES.get(i, {})
    if i == "C22":
        out.append("Not applicable: only the CPU back end of the array library is installed here, so the other back ends' behaviours can be neither executed nor enumerated.\n")
        continue
    path = os.path.join(here, "mc", "props", i.lower() + ".py")
    if os.path.exists(path):
        m = importlib.import_module("mc.props." + i.lower())
        out.append(f"- *Enumerated.* {m.BOUNDS}.")
    out.append(f"- *Oracle and decision.* {n.get('oracle', '')}")
    out.append(f"- *Beyond the tests.* {p['why_tests_cant']}")
    if os.path.exists(path):
        out.append("- *Assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append(f"- *Cost (quick, 8 cores).* {n.get('cost', '')}\n")
out.append(open(os.path.join(here, "tools", "design_tail.md")).read())
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
# table of planted bugs
t = open(os.path.join(here, "DESIGN.md")).read()
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(here, "tools", "caught.json")))
sd = os.path.join(here, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, 'not run')} |")
open(os.path.join(here, "DESIGN.md"), "w").write(t.replace("@@SEEDED@@", "\n".join(rows)))
