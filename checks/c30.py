import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C30: soundness of full solves. Every real solution vector is put back into (a) the equations its unknowns were solved from,
(b) for six independent joints, the forward kinematics."""
import random

import sympy as sp

import cases
import sol
import vk

EXACT6 = ["KR16", "KawasakiRS007L", "Khat6DOF", "Olson13", "Puma", "Pumaoffset", "Srisuan11", "Stanford", "UR5"]

if __name__ == "__main__":
    chk = vk.Check("C30", rule="one evaluation = one real solution vector at the pose of one configuration, put back into the forward kinematics (six-joint arms) "
                   "and into the recorded equations of its unknowns; distinct = (arm, unknown) whose equations were evaluated")
    n = 120 if vk.THOROUGH else 10
    pool = sorted(cases.POOL) if vk.THOROUGH else sorted(chk.rng.sample(sorted(cases.POOL), 36))
    names = cases.CATALOG if vk.THOROUGH else cases.VACUOUS + cases.SOLVED
    for rec in cases.records(chk, names + pool, budget=800 if vk.THOROUGH else 300, timeout=200, trace=0):
        name = rec["robot"]
        S = sol.Solved(rec)
        rng = random.Random(f"{name}/{vk.SEED}")
        six = len(S.joints) == 6 and S.joints_solved
        done = tries = 0
        while done < n and tries < 4 * n:
            tries += 1
            vals, base, T = S.config(rng, signs=tries % 3 == 0)
            if six and not cases.regular(rec, S.arm, vals, S.joints, rel=1e-3):
                continue
            done += 1
            rows, und = S.rows(base, cap=256)
            if done <= (20 if vk.THOROUGH else 2):      # the reported vectors as well as the combinations they stand for
                out = [r for r in S.final_rows(base) if r]
                chk.count("reported_vectors", len(out))
                rows += [{sp.Symbol(k): v for k, v in r.items()} for r in out[:256]]
            for r in rows:
                chk.ev()
                for u in S.order:
                    d = S.equation_residual(u, r, base)
                    if d is None:
                        chk.count("equations_not_applicable")
                        continue
                    chk.ev((name, u["name"]), sample=f"{name} {u['name']}: {u['solvemethod']} satisfies its equation, residual {d:.1e}", n=0)
                    chk.count("equations_evaluated")
                    if d > 1e-5:
                        chk.violation("equation-not-satisfied:" + name, dict(
                            robot=name, unknown=u["name"], method=u["solvemethod"], equation=str(u["eqn"]), second=str(u["eqn2"]), residual=d,
                            solutions=[str(x) for x in u["solutions"]], vector={str(k): v for k, v in r.items()},
                            values={str(k): v for k, v in base.items()}))
                if six and name in EXACT6 and all(s in r for s in S.joints):
                    chk.count("poses_reproduced")
                    d = abs(S.arm.T({**base, **r}) - T).max()
                    if d > 1e-4 * (1 + abs(T).max()):
                        vac = S.vacuous(vals, base)
                        chk.violation(("vacuous-equation:" if vac else "pose-not-reproduced:") + name,
                                      dict(robot=name, deviation=d, vector={str(k): v for k, v in r.items()}, values={str(k): v for k, v in vals.items()}))
    chk.finish(minimum=800, need=dict(reported_vectors=200, equations_evaluated=3000, poses_reproduced=300))
