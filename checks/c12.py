import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C12: completeness of full solves. The oracle is the true configuration: the pose of a random regular configuration is put
into the reported symbolic solutions, and the configuration must come back."""
import random

import cases
import sol
import vk

if __name__ == "__main__":
    chk = vk.Check("C12", rule="one evaluation = one regular configuration of one completely solved arm whose pose was put into every branch of the reported "
                   "solutions (and into the reported solution vectors); distinct = arm")
    n = 300 if vk.THOROUGH else 25
    pool = cases.POOL_SOLVED + cases.POOL_VACUOUS
    if not vk.THOROUGH:
        pool = sorted(chk.rng.sample(cases.POOL_SOLVED, 24)) + cases.POOL_VACUOUS[:2]
    names = cases.VACUOUS + cases.SOLVED + pool
    for rec in cases.records(chk, names, budget=800 if vk.THOROUGH else 300, timeout=200, trace=0):
        name = rec["robot"]
        left = [u["name"] for u in rec["unknowns"] if not u["solved"]]
        if left:
            chk.violation("no-longer-solved:" + name, dict(robot=name, unsolved=left))
            continue
        chk.count("arms_solved")
        S = sol.Solved(rec)
        rng = random.Random(f"{name}/{vk.SEED}")
        nrows, done, tries = 0, 0, 0
        while done < n and tries < 4 * n:
            tries += 1
            vals, base, T = S.config(rng, signs=tries % 3 == 0)
            if not cases.regular(rec, S.arm, vals, S.joints, rel=1e-3):
                chk.count("singular_configurations_skipped")
                continue
            done += 1
            rows, und = S.rows(base)
            chk.ev(name, sample=f"{name}: {len(rows)} vectors at pose of {({str(s): round(vals[s], 3) for s in S.joints})}, true configuration among them")
            chk.count("vectors_evaluated", len(rows))
            if any(S.is_truth(r, vals, 1e-4) for r in rows):
                chk.count("true_configuration_found")
                fr = S.final_rows(base)
                if not any(r and S.is_truth(r, vals, 1e-4) for r in fr):
                    chk.violation("missing-from-the-vectors", dict(robot=name, joints={str(s): vals[s] for s in S.joints},
                                                                   vectors=[{k: v for k, v in r.items()} if r else None for r in fr][:16]))
                continue
            vac = S.vacuous(vals, base)
            key = ("vacuous-equation:" if vac else "true-configuration-missing:") + name
            chk.violation(key, dict(robot=name, values={str(k): v for k, v in vals.items()}, solved_from_0_equals_0=vac,
                                    vectors=[{str(k): v for k, v in r.items()} for r in rows][:16]))
    chk.finish(minimum=500, need=dict(arms_solved=35, true_configuration_found=500, vectors_evaluated=1000))
