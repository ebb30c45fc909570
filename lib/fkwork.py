"""Shared workload of the forward-kinematics checks."""
import random

import cases
import gen
import vk


UNUSUAL = ["0.001", "-0.004", "0.02", "0.35", "-1.2", "2.5", "pi + 0.002", "pi/2 - 0.003", "3*pi/2", "2*pi", "-pi", "0.00001", "1/1000", "-3*pi/4"]


def run(chk, names, nrand=0, odd=True, soa=None, twice=0, fkn=None, limit=60, budget=240, timeout=300, maxdof=6, unusual=0):
    items = []
    for n in names:
        items.append(dict(name=n, spec=cases.POOL.get(n), soa=soa, twice=twice, limit=limit))
    for i in range(nrand):
        dof = chk.rng.choice([d for d in (2, 3, 3, 4, 4, 5, 6) if d <= maxdof])
        sp_ = gen.random_spec(chk.rng, dof=dof, name=f"G{vk.SEED}_{i}", odd=odd)
        items.append(dict(name=sp_["name"], spec=sp_, soa=soa, twice=twice, limit=limit))
    # arms whose twists are numbers, nearly right angles, or outside (-pi, pi)
    r2 = random.Random(f"twists{vk.SEED}")
    for i in range(unusual):
        sp_ = gen.random_spec(r2, dof=r2.choice([2, 3, 3]), name=f"U{vk.SEED}_{i}")
        rows = r2.sample(range(sp_["dof"]), r2.choice([1, 1, 2]))
        for k in rows:
            sp_["dh"][k][0] = r2.choice(UNUSUAL)
        items.append(dict(name=sp_["name"], spec=sp_, soa=soa, twice=twice, limit=limit))
    if fkn:
        for it in items:
            it["cases"] = fkn(it)
    # one arm per child would pay the import each time; deal them out
    random.Random(vk.SEED).shuffle(items)
    groups = vk.split(items, vk.CORES * 3)
    for j, out in vk.child_map("fk_child.py", [dict(items=g) for g in groups], timeout=timeout, budget=budget):
        if "res" not in out:
            if out.get("timeout"):
                chk.count("groups_timeout")
            else:
                chk.violation("child-crashed", dict(items=[i["name"] for i in j["items"]], error=out.get("error", "")[-1500:]))
            continue
        byname = {i["name"]: i for i in j["items"]}
        for r in out["res"]:
            if r.get("timeout"):
                chk.count("arms_timeout")
                continue
            if r.get("error"):
                spec = byname[r["name"]].get("spec")
                chk.violation("raised", dict(arm=r["name"], dh=spec["dh"] if spec else None, error=r["error"][-1200:]))
                continue
            chk.count("arms")
            r["spec"] = byname[r["name"]].get("spec")
            yield r


def values(rec, rng):
    """Random parameter and joint values for an fk_child record."""
    import math
    import sympy as sp
    import num
    dh = rec["dh0"]
    joints = [s for s, n in rec["unk0"] if s in dh.free_symbols]
    vals = {}
    for s in sorted(dh.free_symbols, key=str):
        if s in joints:
            ang = num.is_angle(str(s), dh)
            vals[s] = rng.uniform(-3.1, 3.1) if ang else rng.uniform(-2, 2)
        elif str(s).startswith("al"):
            vals[s] = rng.uniform(0.2, 1.4)
        else:
            vals[s] = rng.uniform(0.3, 2.5)
    for i in range(dh.shape[0]):
        al = float(sp.sympify(dh[i, 0]).subs(vals))
        vals[sp.Symbol(f"ca{i}")] = math.cos(al)
        vals[sp.Symbol(f"sa{i}")] = math.sin(al)
    return vals, joints
