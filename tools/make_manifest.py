#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "property-based testing: random affine models against the exact joint normal density",
    "C02": "property-based testing: differential against a reference unscented filter",
    "C03": "property-based testing: metamorphic panel-layout transformations",
    "C04": "property-based testing: fault injection of missings, differential and metamorphic",
    "C05": "property-based testing: derivatives against finite differences, modes against each other",
    "C06": "property-based testing: debug tables against reference filter at their labels",
    "C07": "property-based testing: differential and metamorphic on filtered/anchored states",
    "C08": "property-based testing: independent enumeration, permutations and faults of params",
    "C09": "property-based testing: constraint interpreter against specification, fault injection",
    "C10": "property-based testing: invariant over generated models and adversarial names",
    "C11": "property-based testing: differential against documented formulas",
    "C12": "property-based testing: grammar-generated programs, differential against built-ins",
    "C13": "property-based testing: valid and fault-injected specifications against a rule oracle",
    "C14": "property-based testing: fault-injected datasets against an exact expected report",
    "C15": "property-based testing: reference simulator on noise-free models",
    "C16": "property-based testing: statistical goodness-of-fit of generated models, fixed seeds",
    "C17": "stateful property-based testing: sequences of edits against a model editor",
    "C18": "stateful property-based testing: sequences of edits with params against a model",
    "C19": "property-based testing: differential against per-individual reference tables",
    "C20": "property-based testing: figure contents against a reference mask",
    "C21": "property-based testing: figure contents against reference transition curves",
    "C22": "property-based testing: figure contents against reference densities",
    "C23": "property-based testing: grid contents against individual figures",
    "C24": "stateful property-based testing: call histories against isolated calls",
    "C25": "property-based testing: analytic invariants of clipping and differential",
    "C26": "property-based testing: updates against Bayes' rule, permuted sequences",
    "C27": "property-based testing: predictions against a reference unscented transform",
    "C28": "property-based testing: metamorphic model symmetries",
    "C29": "property-based testing: extreme scales against 70-digit decimal arithmetic",
    "C30": "property-based testing: conditioning of the joint normal, calibration on simulated data",
}
NOTE = (
    "Seeded random search with shrinking over generated models, parameters and data "
    "(counts and samples in the evidence file); shows the absence of counterexamples "
    "among the explored cases only. Trusts numpy/scipy/pandas and the oracle in "
    "/verif/vlib and /verif/checks."
)

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"python3 run_check.py {pid} --tier quick",
                "thorough_cmd": f"python3 run_check.py {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH[pid],
                "level": "exploration",
                "level_note": NOTE,
            }
        )
    else:
        na.append({"property": pid, "reason": "check not built yet"})
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m vlib.boot",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all observations go through public functions.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
