#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))}
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults, "
CHECKS = {
    "C09": ("crashes injected at every generator word / predicate call, compared with crash-free forked processes", ""),
    "C10": ("identity-tracked values under preempted clients and crashing predicates", ""),
    "C11": ("admission decisions in random histories, bursts, crashes and interleavings against reference predicates", ""),
    "C12": ("formatting into sinks and streams that fail at chosen bytes", ""),
    "C13": ("storing and restoring through short, interrupted, full and failing streams", ""),
    "C14": ("restoring from truncated, torn, flipped, reordered and wrong-length data with failing and crashing elements", ""),
    "C16": ("real linear algebra helpers over simulated BLAS/LAPACK backends and interleaved clients", ""),
}
if os.path.exists(os.path.join(here, "tools/full_checks.json")):
    CHECKS.update({k: tuple(v) for k, v in json.load(open(os.path.join(here, "tools/full_checks.json"))).items()})
NOTE = ("Seeded exploration, not exhaustive: assurance is that no counterexample was found in the runs counted in the evidence. "
        "Trusts the simulator's reference models and that one seed is one execution (re-run and compared for a sample of runs). ")
NA = {
    "C18": "Closed-form cdf/pdf/quantile identities are pure arithmetic at a point: no randomness, scheduling, I/O or fault can affect them, so simulation has nothing to decide (where they must agree with draws they are decided under C04/C05/C08).",
    "C19": "Entropy and Fisher information are pure functions of the parameters with no nondeterminism to control.",
    "C20": "Probability operators are pure single-step arithmetic: no history, schedule or fault to simulate.",
    "C21": "Combinatorial helpers are pure integer/float functions of one argument: no nondeterminism to control.",
    "C22": "These distributions' samplers are unimplemented!() upstream: there is no behaviour to simulate yet.",
}
checks = []
for k in sorted(CHECKS):
    t, n = CHECKS[k]
    checks.append({
        "property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
        "technique": TECH + t, "level": "exploration", "level_note": NOTE + n,
    })
na = [{"property": k, "reason": NA[k]} for k in sorted(NA)]
for k in sorted(props):
    if k not in CHECKS and k not in NA:
        na.append({"property": k, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam the simulation needs is a public trait (RngCore, Constraint, fmt::Write, serde) or a link-time symbol (BLAS/LAPACK). ./replay.sh FILE re-executes a replay file."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
