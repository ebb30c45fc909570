import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import random
import numpy as np, sympy as sp
import vk, num, cases, fkwork

chk = vk.Check("C17", rule="one evaluation = one Jacobian column (real joint) of one arm at one configuration, compared with the tool-frame twist obtained by "
               "central differences of the independent numeric forward kinematics; distinct = (arm, joint)")
names = cases.CATALOG + cases.pool_pick(109 if vk.THOROUGH else 60, chk.rng)
K = 10 if vk.THOROUGH else 4
ev = num.Ev()
for rec in fkwork.run(chk, names, nrand=60 if vk.THOROUGH else 12, odd=True, maxdof=6 if vk.THOROUGH else 5, limit=200 if vk.THOROUGH else 40, unusual=60 if vk.THOROUGH else 16,
                      budget=800 if vk.THOROUGH else 200):
    dh, J = rec["dh0"], rec["mech"]["J66"]
    arm = num.Arm(dh, sorted(dh.free_symbols, key=str))
    rng = random.Random(rec["name"] + str(vk.SEED))
    if J is None or tuple(J.shape) != (6, 6):
        chk.violation("no-jacobian", dict(arm=rec["name"], J=str(J)[:200]))
        continue
    for k in range(K):
        vals, joints = fkwork.values(rec, rng)
        T = arm.T(vals)
        for s in joints:
            row = [i for i in range(6) if sp.sympify(dh[i, 2]).has(s) or sp.sympify(dh[i, 3]).has(s)]
            if len(row) != 1:
                continue
            def slope(h):
                a, b = dict(vals), dict(vals)
                a[s] += h
                b[s] -= h
                return (arm.T(a) - arm.T(b)) / (2 * h)

            D = (4 * slope(2e-3) - slope(4e-3)) / 3        # Richardson: error about 1e-11
            sk = T[:3, :3].T @ D[:3, :3]
            twist = np.concatenate([T[:3, :3].T @ D[:3, 3], [(sk[2, 1] - sk[1, 2]) / 2, (sk[0, 2] - sk[2, 0]) / 2, (sk[1, 0] - sk[0, 1]) / 2]])
            col = [ev(sp.sympify(J[i, row[0]]), vals) for i in range(6)]
            chk.ev((rec["name"], str(s)), sample=f"{rec['name']} joint {s}: column {[round(x, 4) if x is not None else None for x in col]}")
            if any(c is None for c in col) or np.abs(np.array(col) - twist).max() > 1e-8 * (1 + np.abs(twist).max()):
                chk.violation("wrong-column", dict(arm=rec["name"], dh=dh.tolist(), vv=rec["mech"]["vv"], joint=str(s), got=col, want=twist.tolist()))
            chk.count("columns_compared")
chk.finish(minimum=500, need=dict(arms=40))
