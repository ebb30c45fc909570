"""Writes /verif/MANIFEST.json from the table below (one line per claimed property)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "numeric oracle (independent DH product) over monitored forward-kinematics runs of catalogue, pool and random arms",
 "C02": "monitor of the matrix equations of real runs, evaluated at true configurations",
 "C03": "trace monitor on every transform tick of full solves plus hostile leaf fuzzing; equations evaluated at true configurations",
 "C04": "online monitor of every equation scan against an independent recount, plus random matrix equations",
 "C05": "randomised differential monitoring of the algebra leaf against a numeric root oracle, plus full-solve observation",
 "C06": "randomised monitoring of the arcsine/arccosine leaf against numeric roots, plus full-solve observation",
 "C07": "randomised monitoring of the sine-and-cosine leaf against numeric roots, plus full-solve observation",
 "C08": "randomised monitoring of the two-argument-arctangent leaf against numeric roots, plus full-solve observation",
 "C09": "randomised monitoring of the simultaneous-equation leaf against numeric roots, plus full-solve observation",
 "C10": "randomised monitoring of the sum-of-squares transform against an independent numeric search",
 "C11": "online monitor of set_solved and end-of-run bookkeeping in full solves, plus randomised synthetic solves",
 "C12": "numeric oracle: completeness of the reported solution vectors at true configurations of full solves",
 "C13": "independent enumeration of branch combinations compared with full solves and synthetic solved robots",
 "C14": "generated module executed and compared with independently evaluated symbolic solutions",
 "C15": "generated C++ compiled with ASan/UBSan, executed and compared with independently evaluated symbolic solutions",
 "C16": "structural monitor of the generated LaTeX against the recorded run",
 "C17": "numeric oracle: Jacobian columns against differentiated true kinematics",
 "C18": "model-based monitoring of tick traces over exhaustive small and random trees",
 "C19": "round-trip and model-based monitoring of saved trees and blackboards",
 "C20": "fault injection: every write/crash point of the FK store, differential runs with and without the store",
 "C21": "randomised monitoring of the sum-of-angles step against an independent definition",
 "C22": "exhaustive check of the catalogue at run time",
 "C23": "randomised and singular-case monitoring of the kinematics utilities against independent definitions",
 "C24": "randomised algebraic-law monitoring of ==, hash and set membership",
 "C25": "differential monitoring of runs under several hash seeds and directories",
 "C26": "exhaustive small and randomised monitoring of the ranking leaf against a reference ranking",
 "C27": "termination/exception/honesty monitor over catalogue, pool and generated arms",
 "C28": "randomised monitoring of the helper functions against independent definitions",
 "C29": "generated FK module executed and compared with an independent DH product",
 "C31": "model-based monitoring of node counters, costs and logs over random trees and tick histories",
 "C32": "solver leaves ticked on random lists holding equations of their form; oracle: the unknown ends up solved",
 "C33": "trace monitor over full runs; equations left at the end read by an independent matcher",
 "C34": "substitution transform ticked on random matrix equations; oracle: values, unknown counts and replacements recomputed",
 "C35": "schedule injection (random orders of offering unknowns in full runs, random histories of offers); numeric oracle at true configurations",
 "C30": "numeric oracle: every real solution vector put back into an independent forward kinematics",
}
FAULT = {"C20"}
PENDING = "the check for this property is not written yet"
checks, na = [], []
for pid, tech in T.items():
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        cmd = f"/opt/venv/bin/python checks/{pid.lower()}.py"
        checks.append(dict(property=pid, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, evidence_file=f"evidence/{pid}.json",
                           technique="runtime monitoring: " + tech, level="fault_enumeration" if pid in FAULT else "exploration",
                           level_note="Holds on the executions observed (counts in the evidence file); trusts sympy/numpy evaluation and the "
                                      "oracle in the check file; no claim beyond the workloads described in DESIGN.md."))
    else:
        na.append(dict(property=pid, reason=PENDING))
doc = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
           hooks=dict(guard="IKBT_VERIF (no hook is needed: the monitors attach from outside at run time, so nothing in /repo is guarded)",
                      enable="nothing to enable; the checks import /repo's working tree directly", source_commits=[]),
           notes="Runtime monitors over the real solver; see DESIGN.md. Genuine defects repaired or recorded: known_findings.txt.")
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
