"""The workload: which robots are solved by the checks, and how their records are interpreted."""
import json
import os
import random

import vk

# robots of the catalogue (slowest first, so that the parallel runs end together)
HEAVY_UNSOLVED = ["Raven-II", "Issue4", "KawasakiRS05L", "ArmRobo"]   # no closed form is found; the run must still end
VACUOUS = ["UR5", "JennyGuoSp24", "Arm_3"]                            # see known_findings.txt
SOLVED = ["Pumaoffset", "Khat6DOF", "KawasakiRS007L", "KR16", "Puma", "DZhang", "Mackler13", "Stanford", "Craig417",
          "Parkman13", "MiniDD", "Wachtveitl", "Frei13", "Olson13", "Chair_Helper", "Srisuan11", "Sims11", "Palm13",
          "Brad", "Wrist", "ICP5p5_A21", "Bartell", "Axtman13", "Minder13"]
CATALOG = HEAVY_UNSOLVED + VACUOUS + SOLVED
# six independent joints (or a regular arm) for which every returned vector reproduces the pose
EXACT = ["Bartell", "Brad", "Frei13", "KR16", "KawasakiRS007L", "Khat6DOF", "Minder13", "Olson13", "Puma", "Pumaoffset",
         "Srisuan11", "Stanford", "Wrist"]

POOL = {p["name"]: p for p in json.load(open(os.path.join(vk.VERIF, "data", "pool.json")))}


def job(name, **kw):
    j = dict(robot=name, spec=POOL.get(name))
    j.update(kw)
    return j


def pool_pick(n, rng, only=None):
    names = sorted(x for x in POOL if only is None or only(POOL[x]))
    rng = random.Random(rng.random())
    rng.shuffle(names)
    return names[:n]


def records(chk, names, timeout=200, budget=240, **kw):
    """Solve every robot and yield the complete records. A run that ends with an exception is a violation of whatever
    end-to-end property is being checked (it delivers nothing); a run that does not finish in time is only counted."""
    for j, rec in vk.solve_many([job(n, **kw) for n in names], timeout=timeout, budget=budget):
        chk.count("solver_runs")
        if rec["exit"] in ("timeout", "skipped"):
            chk.count("runs_" + rec["exit"])
            continue
        if rec["exit"] != "normal" or "unknowns" not in rec or "mech" not in rec:
            last = (rec.get("error") or "").strip().split("\n")[-1][:300]
            chk.violation("run-ended-abnormally:" + rec["robot"], dict(robot=rec["robot"], exit=rec["exit"], error=last,
                                                                      trace=(rec.get("error") or "")[-1500:]))
            continue
        chk.count("runs_complete")
        yield rec


def regular(rec, arm, vals, jo, rel=1e-6):
    """Numeric rank of the pose with respect to the joints at this configuration = number of joints?"""
    import numpy as np
    J = []
    for s in jo:
        e = 1e-6
        a, b = dict(vals), dict(vals)
        a[s] += e
        b[s] -= e
        J.append(((arm.T(a) - arm.T(b)) / (2 * e))[:3].ravel())
    sv = np.linalg.svd(np.array(J), compute_uv=False)
    return len(sv) == len(jo) and sv[-1] > rel * max(1, sv[0])


# reference arms (data/pool.json) which the tool solves completely at the pinned revision
POOL_SOLVED = [f"S{n:03d}" for n in (
    1, 4, 10, 11, 13, 14, 15, 18, 21, 22, 23, 24, 25, 27, 29, 33, 34, 35, 39, 40, 42, 43, 44, 51, 54, 56, 57, 59, 62, 63, 66, 67, 68, 69,
    78, 84, 87, 89, 90, 92, 93, 98, 99, 100, 101, 103, 104, 107, 108)]
POOL_VACUOUS = ["S017", "S041", "S045", "S048", "S079", "S096"]   # solved through an equation which says 0 = 0: see known_findings.txt
