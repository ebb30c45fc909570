import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import random
import numpy as np, sympy as sp
import vk, num, cases, fkwork

chk = vk.Check("C02", rule="one evaluation = one matrix equation of one arm at one (configuration, parameter values): both sides evaluated with the pose "
               "symbols taken from an independently computed pose (and, for the splits, with a pose unrelated to the joints); distinct = (arm, equation number)")
names = cases.CATALOG + cases.pool_pick(109 if vk.THOROUGH else 60, chk.rng)
K = 10 if vk.THOROUGH else 4
TOL = 1e-6
SPLITS = [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (1, 1), (2, 2)]
ev = num.Ev()


def mat(M, vals):
    """numeric upper 3x4 part, nan where undefined"""
    return np.array([[(lambda v: float("nan") if v is None else v)(ev(sp.sympify(M[i, j]), vals)) for j in range(4)] for i in range(3)])


def rigid(rng):
    a = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)])
    q, _ = np.linalg.qr(a)
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    T = np.eye(4)
    T[:3, :3] = q
    T[:3, 3] = [rng.uniform(-2, 2) for _ in range(3)]
    return T


def close(A, B):
    return np.all(np.abs(A - B) <= TOL * (1 + np.abs(A)))


for rec in fkwork.run(chk, names, nrand=40 if vk.THOROUGH else 10, odd=True, soa=1, maxdof=6 if vk.THOROUGH else 4, limit=200 if vk.THOROUGH else 40,
                      budget=800 if vk.THOROUGH else 200):
    dh = rec["dh0"]
    arm = num.Arm(dh, sorted(dh.free_symbols, key=str))
    rng = random.Random(rec["name"] + str(vk.SEED))
    stages = [("initial", rec["init"], []), ("sum-of-angles", rec["soa"]["meqs"], rec["soa"]["aux"])]
    for stage, meqs, aux in stages:
        chk.count("matrix_equations_" + stage, len(meqs))
        for k in range(K):
            vals, joints = fkwork.values(rec, rng)
            T = arm.T(vals)
            full = dict(vals)
            full.update(num.pose_vals(T))
            num.add_sums(full, aux)
            for L, Rr in aux:     # the defining equations themselves
                a, b = ev(sp.sympify(L), full), ev(sp.sympify(Rr), full)
                if a is None or b is None or num.angdiff(a, b) > 1e-9:
                    chk.violation("sum-definition-undefined", dict(arm=rec["name"], eqn=[str(L), str(Rr)]))
            links = arm.links(vals)
            seen = set()
            G = rigid(rng)
            generic = dict(full)
            generic.update(num.pose_vals(G))
            for n, (Td, Ts, more) in enumerate(meqs):
                A, B = mat(Td, full), mat(Ts, full)
                chk.ev((rec["name"], stage, n), sample=f"{rec['name']} {stage} equation {n}: [1,4] {Td[0,3]} = {Ts[0,3]}")
                if not close(A, B):
                    bad = np.argwhere(~(np.abs(A - B) <= TOL * (1 + np.abs(A))))[0]
                    chk.violation(f"equation-false:{stage}", dict(arm=rec["name"], dh=dh.tolist(), equation=n, entry=bad.tolist(),
                                  Td=str(Td[int(bad[0]), int(bad[1])])[:400], Ts=str(Ts[int(bad[0]), int(bad[1])])[:400], lhs=A.tolist(), rhs=B.tolist()))
                Ag = mat(Td, generic)
                for l, r in SPLITS:
                    W = G.copy()
                    for i in range(l):
                        W = np.linalg.inv(links[i]) @ W
                    for i in range(r):
                        W = W @ np.linalg.inv(links[5 - i])
                    Bw = np.eye(4)
                    for i in range(l, 6 - r):
                        Bw = Bw @ links[i]
                    if close(Ag, W[:3]) and close(B, Bw[:3]):
                        seen.add((l, r))
            miss = [s for s in SPLITS if s not in seen]
            if miss:
                chk.violation(f"split-missing:{stage}", dict(arm=rec["name"], dh=dh.tolist(), missing=miss))
            chk.count("splits_confirmed", len(seen))
chk.assumptions.append("truth at random configurations is taken as truth of the analytic identity")
chk.finish(minimum=1000, need=dict(arms=40))
