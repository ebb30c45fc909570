import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import math, random
import numpy as np, sympy as sp
import vk, num, cases, fkwork

chk = vk.Check("C01", rule="one evaluation = one (arm, configuration, parameter values) at which the transforms computed by the real forward "
               "kinematics are compared with an independent numpy product of DH link matrices; distinct = different DH tables")
names = cases.CATALOG + cases.pool_pick(110 if vk.THOROUGH else 40, chk.rng)
K = 12 if vk.THOROUGH else 5


def fkn_cases(item):
    """numeric interface: values for joints and parameters by name"""
    rng = random.Random(item["name"] + str(vk.SEED))
    spec = item.get("spec")
    if not spec:
        return None
    out = []
    for _ in range(2):
        q = {}
        for u in spec["unknowns"]:
            q[u] = rng.choice([rng.uniform(-3, 3), 0.0, math.pi / 2, 30 * math.pi / 180]) if u.startswith("th") else rng.uniform(-2, 2)
        p = {s: rng.uniform(0.2, 1.4) if s.startswith("al") else rng.uniform(0.3, 3) for s in spec["params"]}
        loc = {k: sp.Symbol(k) for k in p}
        for i, row in enumerate(spec["dh"]):
            al = float(sp.sympify(row[0], locals=loc).subs({loc[k]: v for k, v in p.items() if k in loc}))
            p[f"ca{i}"], p[f"sa{i}"] = math.cos(al), math.sin(al)
        out.append(dict(q=q, p=p))
    return out


ev = num.Ev()
for rec in fkwork.run(chk, names, nrand=120 if vk.THOROUGH else 40, odd=True, soa=0, fkn=fkn_cases, unusual=100 if vk.THOROUGH else 24, limit=120 if vk.THOROUGH else 40,
                      budget=600 if vk.THOROUGH else 200):
    dh = rec["dh0"]
    key = str(dh.tolist())
    rng = random.Random(rec["name"] + str(vk.SEED))
    arm = num.Arm(dh, sorted(dh.free_symbols, key=str))
    mats = [("T06", rec["mech"]["T_06"]), ("T06-of-equations", rec["T_06b"])] + [(f"link{i+1}", t) for i, t in enumerate(rec["mech"]["Ts"])]
    for k in range(K):
        vals, joints = fkwork.values(rec, rng)
        want = [arm.T(vals)] * 2 + arm.links(vals)
        for (nm, M), W in zip(mats, want):
            for i in range(4):
                for j in range(4):
                    g = ev(sp.sympify(M[i, j]), vals)
                    if g is None or abs(g - W[i, j]) > 1e-10 * (1 + abs(W[i, j])):
                        chk.violation("wrong-transform:" + nm, dict(arm=rec["name"], dh=dh.tolist(), entry=[i, j], got=g, want=W[i, j],
                                                                    values={str(a): b for a, b in vals.items()}))
            chk.count("matrices_compared")
        chk.ev(key, sample=f"{rec['name']} {dh.tolist()}")
    for c, (T, untouched) in zip(fkn_cases(rec) or [], rec.get("fkn") or []):
        vals = {sp.Symbol(a): b for a, b in {**c["q"], **c["p"]}.items()}
        W = arm.T(vals)
        chk.count("numeric_interface_poses")
        if not untouched:
            chk.violation("numeric-interface-modifies-arguments", dict(arm=rec["name"]))
        if abs(np.array(T) - W).max() > 1e-10 * (1 + abs(W).max()):
            chk.violation("numeric-interface-wrong-pose", dict(arm=rec["name"], dh=dh.tolist(), got=T, want=W.tolist(), case=c))
        chk.ev()
chk.assumptions.append("agreement at random real values of all symbols is taken as agreement of the analytic expressions")
chk.finish(minimum=200, need=dict(arms=30, numeric_interface_poses=40))
