import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C29: the forward-kinematics module generated by the fkOnly.py script, executed for many joint configurations, against the
independent product of the DH links."""
import contextlib
import io
import math
import os
import random
import re
import shutil
import tempfile

import numpy as np
import sympy as sp

import cases
import gen
import num
import sol
import vk


def with_values(code, values):
    """The user's part: joint values in place of the dummy ones (sums of joints keep their definitions)."""
    missing = []
    for n, v in values.items():
        code, k = re.subn(r"(?m)^(\s*%s\s*=\s*)([-+]?[0-9.]+(?:e[-+]?[0-9]+)?)(?=\s|#|$).*$" % re.escape(n), lambda m: m.group(1) + repr(float(v)), code)
        if k != 1:
            missing.append(n)
    return code, missing


def execute(code):
    """-> 4x4 list or an error text"""
    g = {"__name__": "__main__"}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        exec(compile(code, "FK_equations", "exec"), g)
    T = g.get("T06")
    if T is None:
        return None, out.getvalue(), g
    A = getattr(T, "A", T)
    return np.array(A, dtype=float), out.getvalue(), g


def main():
    chk = vk.Check("C29", rule="one evaluation = one execution of a generated forward-kinematics module with given joint values, its pose compared with the DH link product; "
                   "distinct = (arm, what was varied)")
    rng = chk.rng
    jobs = [cases.job(n, script="fkOnly.py", trace=0) for n in cases.CATALOG + sorted(rng.sample(sorted(cases.POOL), 100 if vk.THOROUGH else 20))]
    for i in range(80 if vk.THOROUGH else 24):
        spec = gen.random_spec(rng, name=f"G{i}", odd=rng.random() < .5, dof=rng.choice([2, 3, 3, 4] if not vk.THOROUGH else [2, 3, 4, 5, 6]))
        if rng.random() < .3 and spec["params"]:           # numerical values may be missing altogether
            spec["pvals"] = {}
        elif rng.random() < .4 and spec["pvals"]:          # and a value may be zero
            spec["pvals"][rng.choice(sorted(spec["pvals"]))] = rng.choice([0, 0.0])
        jobs.append(dict(robot=spec["name"], spec=spec, script="fkOnly.py", trace=0))
    K = 12 if vk.THOROUGH else 5
    for j, rec in vk.solve_many(jobs, timeout=120, budget=700 if vk.THOROUGH else 240):
        name = rec["robot"]
        spec = j.get("spec")
        wit = dict(arm=name, dh=spec["dh"] if spec else None, params=spec["params"] if spec else None)
        if rec["exit"] in ("timeout", "skipped"):
            chk.count("runs_" + rec["exit"])
            continue
        if rec["exit"] != "normal" or "mech" not in rec:
            chk.violation("run-ended-abnormally", dict(wit, exit=rec["exit"], error=(rec.get("error") or "")[-1200:]))
            continue
        chk.count("fk_runs")
        if not any(k.startswith("LaTex/fk_equations_") for k in rec["files"]):
            chk.violation("report-missing", wit)
        code = rec["files"].get(f"CodeGen/Python/FK_equations{name}.py")
        if code is None:
            chk.violation("module-missing", dict(wit, files=sorted(rec["files"])))
            continue
        S = sol.Solved(rec)
        pv = S.pvals()
        if spec is not None and not spec["pvals"] and spec["params"]:
            # nothing known: the user fills in all the values
            full = {p: rng.uniform(.3, 2) for p in spec["params"]}
            for p, v in full.items():
                code, k = re.subn(r"(?m)^(%s\s*=\s*)XXXXX.*$" % re.escape(p), lambda m: m.group(1) + repr(v), code)
                if k != 1:
                    chk.violation("parameter-not-declared", dict(wit, parameter=p))
            for i in range(6):      # parameters the forward kinematics adds for odd twist angles
                al = sp.sympify(S.dh[i, 0])
                a = float(al.subs({sp.Symbol(p): v for p, v in full.items()}))
                for q, v in ((f"ca{i}", math.cos(a)), (f"sa{i}", math.sin(a))):
                    code = re.sub(r"(?m)^(%s\s*=\s*)XXXXX.*$" % q, lambda m: m.group(1) + repr(v), code)
            pv = {sp.Symbol(p): v for p, v in full.items()}
            chk.count("modules_without_values")
        prng = random.Random(f"c29/{name}/{vk.SEED}")
        for k in range(K):
            vals = dict(pv)
            for s in S.joints:
                ang = num.is_angle(str(s), S.dh)
                vals[s] = prng.uniform(-3.1, 3.1) if ang else prng.uniform(-2, 2)
                if k == 1 and ang:
                    vals[s] = prng.choice([0.0, math.pi / 2, -math.pi / 2, math.pi])
            for s in S.dh.free_symbols:
                if s not in vals:
                    chk.violation("parameter-without-value", dict(wit, parameter=str(s)))
                    vals[s] = 1.0
            c, missing = with_values(code, {str(s): vals[s] for s in S.joints})
            if missing:
                chk.violation("joint-not-declared", dict(wit, joints=missing))
                break
            try:
                T, out, g = execute(c)
            except BaseException as e:
                chk.violation("not-executable", dict(wit, error=repr(e)[:400]))
                break
            want = S.arm.T(vals)
            chk.ev((name, k == 1), sample=f"{name}: executed with {len(S.joints)} joint values, pose equals the DH product")
            if T is None or T.shape != (4, 4):
                chk.violation("no-pose", dict(wit, got=str(T)))
                break
            if np.abs(T - want).max() > 1e-9 * (1 + np.abs(want).max()):
                chk.violation("wrong-pose", dict(wit, joints={str(s): vals[s] for s in S.joints}, got=T.tolist(), want=want.tolist()))
                break
            # what it prints is that matrix
            nums = [[float(x) for x in ln.split()] for ln in out.split("\n") if re.match(r"^\s*-?\d+\.\d+(\s+-?\d+\.\d+){3}\s*$", ln)]
            if len(nums) != 4 or np.abs(np.array(nums) - want).max() > 6e-4 * (1 + 0 * np.abs(want).max()):
                chk.violation("wrong-print", dict(wit, printed=out[-600:]))
                break
            # sums of joints are declared as such
            for u in rec["unknowns"]:
                if u["symbol"] not in S.joints and u["name"] in g:
                    d = next((sp.sympify(b) for a, b in rec["R"]["aux"] if sp.sympify(a) == u["symbol"]), None)
                    if d is not None:
                        w = float(d.subs(vals))
                        chk.count("sums_compared")
                        if abs(w - g[u["name"]]) > 1e-9:
                            chk.violation("wrong-sum", dict(wit, name=u["name"], got=g[u["name"]], want=str(d)))
    chk.finish(minimum=200, need=dict(fk_runs=50))


if __name__ == "__main__":
    main()
