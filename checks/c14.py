import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C14: the generated Python file, executed on reachable, unreachable and degenerate poses, against an independent evaluation
of the reported symbolic solutions."""
import random
import shutil
import tempfile
import os

import numpy as np

import cases
import poses
import sol
import vk


def work(rec):
    """Synthetic solved robots through the real generator."""
    import builtins
    import os
    import importlib.util
    import numpy as np
    import sympy as sp
    import ikbtfunctions.output_python as op
    import num
    import poses
    import synth
    rng = rec.rng
    os.makedirs("CodeGen/Python", exist_ok=True)
    edge = [num.Ev(num.mods(e)) for e in (1e-7, -1e-7)]
    sharp = [num.Ev(num.mods(0))] * 2
    np.seterr(all="ignore")
    k = 0
    while not rec.over() and rec.evaluations < (60000 if rec.thorough else 5000):
        with rec.guard(30):
            k += 1
            name = rng.choice(["syn", "Syn-2", "test: Syn", "S_y n"]) + str(k)
            exact = rng.random() < .15     # poses exactly on the boundary up to which a solution exists
            if exact:
                R, objs, order, pvals = synth.robot(rng, name=name, cap=8, nmax=3, expression=synth.boundary)
            else:
                R, objs, order, pvals = synth.robot(rng, name=name, cap=24, nmax=10 if rng.random() < .3 else 7)
            wit = dict(solutions=[(n, [str(x) for x in s]) for n, s in order])
            if rng.random() < .3:       # a parameter whose value is zero
                zero = sp.Symbol("l_9")
                R.params.append(zero)
                R.Mech.pvals[zero] = rng.choice([0, 0.0])
            if rng.random() < .1 and pvals:       # a parameter without a value: the user has to fill it in
                gone = rng.choice(sorted(pvals, key=str))
                del R.Mech.pvals[gone]
            else:
                gone = None
            try:
                op.output_python_code(R, R.solutionSet)
            except Exception as e:
                import traceback
                rec.violation(f"generator-raised:{type(e).__name__}", dict(wit, error=traceback.format_exc()[-800:]))
                continue
            p = "CodeGen/Python/IK_equations" + name.replace("test: ", "") + ".py"
            if not os.path.exists(p):
                rec.violation("file-not-written", dict(wit, name=name))
                continue
            code = open(p).read()
            os.remove(p)
            if gone is not None:
                code = code.replace("XXXXX", repr(pvals[gone]))
            rec.count("synthetic_modules")
            try:
                g = {"__name__": "generated"}
                exec(compile(code, "generated", "exec"), g)
                f = next(v for q, v in g.items() if q.startswith("ikin_"))
            except BaseException as e:
                rec.violation("not-importable", dict(wit, error=repr(e)[:300], name=name))
                continue
            cols = sorted((n for n, _ in order), key=lambda n: n + "v")
            pv = {s: float(v) for s, v in pvals.items()}
            todo = [(synth.boundary_pose if exact else synth.pose)(rng)[0] for _ in range(6 if exact else 4)]
            if order and not exact and rng.random() < .5:
                more = poses.at_the_edge(lambda T: len(synth.rows(order, {**pv, **num.pose_vals(T)}, edge[0])), todo[0], rng)
                rec.count("synthetic_poses_at_an_edge", len(more))
                todo += more
            for T in todo:
                base = {**num.pose_vals(T), **pv}
                a, b = (synth.rows(order, base, ev) for ev in (sharp if exact else edge))
                if exact and a:
                    rec.count("synthetic_poses_on_the_boundary", any(abs(x) == 1 for x in T[:3, 3]))
                if not order:
                    a = b = []
                rec.ev((tuple(n for n, _ in order), len(a)), sample=f"synthetic robot solved for {[n for n, _ in order]}: {len(a)} vectors exist")
                try:
                    got = f(T)
                except BaseException as e:
                    rec.violation("raised:" + type(e).__name__, dict(wit, pose=T.tolist(), error=repr(e)))
                    break
                if len(a) != len(b):
                    rec.count("poses_at_a_branch_edge_skipped")
                    continue
                rec.count("synthetic_vectors", len(a))
                if (got is False) != (not a) or not (got is False or isinstance(got, list)):
                    rec.violation("false-when-vectors-exist" if got is False else "vectors-when-none-exist" if isinstance(got, list) else
                                  "neither-vectors-nor-False", dict(wit, pose=T.tolist(), got=repr(got)[:300], want=len(a)))
                    break
                left = [list(map(float, r)) for r in (got or [])]
                bad = [r for r in left if len(r) != len(cols)]
                miss = []
                for r in a:
                    hit = next((q for q in left if len(q) == len(cols) and all(abs(r[n] - q[i]) < 1e-8 * (1 + abs(r[n])) for i, n in enumerate(cols))), None)
                    if hit is None:
                        miss.append(r)
                    else:
                        left.remove(hit)
                if bad or miss or left:
                    if any(abs(v) > 1e6 for r in a for v in r.values()):
                        rec.count("ill_conditioned_skipped")
                        continue
                    rec.violation("synthetic-vectors-differ", dict(wit, pose=T.tolist(), parameters={str(s): v for s, v in pvals.items()}, missing=miss[:3], extra=left[:3], columns=cols))
                    break


def main():
    chk = vk.Check("C14", rule="one evaluation = one call of a generated inverse-kinematics function, its rows compared with the symbolic solutions evaluated "
                   "independently (degenerate poses: it returns at all); distinct = (robot, kind of pose)")
    K = 150 if vk.THOROUGH else 20
    if vk.THOROUGH:
        names = cases.CATALOG + sorted(cases.POOL)
    else:
        names = cases.VACUOUS + cases.SOLVED + ["ArmRobo"] + sorted(chk.rng.sample(cases.POOL_SOLVED, 10)) + ["S002", "S096", "S003"]
    vk.fuzz(chk, __file__, budget=200 if vk.THOROUGH else 10)
    items, info = [], {}
    for rec in cases.records(chk, names, budget=800 if vk.THOROUGH else 300, timeout=200, trace=0):
        name = rec["robot"]
        code = rec["files"].get(f"CodeGen/Python/IK_equations{name}.py", "")
        S = sol.Solved(rec)
        rng = random.Random(f"{name}/{vk.SEED}")
        calls = []
        for kind, vals, base, T in poses.workload(S, rng, K):
            t = "matrix" if rng.random() < .3 else "array"
            if kind == "hostile" and (T == np.rint(T)).all() and abs(T).max() < 100 and rng.random() < .3:
                t = "int"
            calls.append((kind, vals, base, T, t))
        items.append(dict(name=name, code=code, prefix="ikin_", args=[(t, T.tolist()) for _, _, _, T, t in calls]))
        info[name] = (S, calls, rec, code)
    groups = vk.split(items, vk.CORES)
    for j, o in vk.child_map("codepy_child.py", [dict(items=g) for g in groups], timeout=200):
        if "res" not in o:
            chk.violation("generated-code-ends-the-process", dict(robots=[i["name"] for i in j["items"]], error=o.get("error", "timeout")[-800:]))
            continue
        for r in o["res"]:
            name = r["name"]
            S, calls, rec, code = info[name]
            wit = dict(robot=name)
            if r.get("error") or len(r.get("functions", [])) != 1:
                chk.violation("not-importable", dict(wit, functions=r.get("functions"), error=r.get("error", "")))
                continue
            chk.count("modules_imported")
            for (kind, vals, base, T, t), (what, got, intact) in zip(calls, r["results"]):
                w = dict(wit, kind=kind, pose=T.tolist())
                chk.ev((name, kind), sample=f"{name}: {kind} pose -> {what if what != 'rows' else str(len(got)) + ' vectors'}")
                chk.count("calls_" + kind)
                if what == "raised":
                    chk.violation("raised:" + got.strip().split("\n")[-1].split(":")[0], dict(w, error=got))
                    continue
                if what == "other" or (what == "rows" and not got):
                    chk.violation("neither-vectors-nor-False", dict(w, got=got))
                    continue
                if not intact:
                    chk.violation("pose-modified", w)
                if kind == "hostile":
                    continue
                have = [] if what == "False" else got
                if any(len(x) != len(S.order) for x in have):
                    chk.violation("vector-length", dict(w, got=have[:3]))
                    continue
                poses.compare(chk, S, name in cases.VACUOUS + cases.POOL_VACUOUS, w, kind, vals, base, have)
    # the file is also a program: its own demonstration must run
    for name in sorted(info)[:len(info) if vk.THOROUGH else 12]:
        d = tempfile.mkdtemp(dir=vk.scratch())
        p = os.path.join(d, "g.py")
        open(p, "w").write(info[name][3])
        rc, so, se = vk.run([vk.PY, p], d, 60)
        chk.count("programs_run")
        if rc != 0:
            chk.violation("program-fails", dict(robot=name, rc=rc, error=se[-800:]))
        shutil.rmtree(d)
    chk.finish(minimum=400, need=dict(synthetic_modules=60, synthetic_vectors=300, synthetic_poses_on_the_boundary=10, modules_imported=30, vectors_compared=1000, poses_without_solution=20, calls_hostile=60, programs_run=10))


if __name__ == "__main__":
    main()
