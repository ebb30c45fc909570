import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C15: the generated C++ file, compiled with address and undefined-behaviour sanitizers, executed on reachable, unreachable and
degenerate poses, against an independent evaluation of the reported symbolic solutions."""
import concurrent.futures as cf
import math
import random

import numpy as np

import cases
import cppgen
import poses
import sol
import vk


def fixed(T):
    return [[float(x) for x in r] for r in T]


def read(rec_or_chk, w, r, n, width, key=lambda k: k):
    """What one call delivered -> (ret, rows which exist) or None after reporting a violation."""
    ret, changed, L = r
    bad = None
    rows, infinite = [], False
    if changed:
        bad = "pose-modified"
    for i, row in enumerate(L):
        written = [x != cppgen.SENTINEL for x in row]
        if i < n:
            if not all(written[:width]):
                bad = "vector-not-written"
            elif any(written[width:]):
                bad = "written-beyond-the-vector"
        elif any(written):
            bad = "more-vectors-than-reported"
        if i < n and not any(math.isnan(x) for x in row[:width]):
            rows.append(row[:width])
            infinite |= any(math.isinf(x) for x in row[:width])
    if bad is None and bool(ret) != bool(rows) and not infinite:
        bad = "return-value"
    if bad is None and ret not in (0, 1):
        bad = "return-value"
    if bad:
        rec_or_chk.violation(bad, dict(w, returned=ret, vectors=n, exist=len(rows)))
        return None
    return ret, rows


def crash(chk, w, r, npos):
    """Sanitizer reports and crashes."""
    if r["rc"] == 0 and len(r["results"]) == npos:
        return False
    if r["rc"] is None:
        chk.violation("does-not-return", w)
    else:
        key = "address-sanitizer" if "AddressSanitizer" in r["err"] else "undefined-behaviour" if "runtime error" in r["err"] else \
            "uninitialised-value" if "MemorySanitizer" in r["err"] else "crash"
        chk.violation(key, dict(w, rc=r["rc"], report=r["err"]))
    return True


def work(rec):
    """Synthetic solved robots through the real generator."""
    import os
    import ikbtfunctions.output_cpp as oc
    import num
    import synth
    rng = rec.rng
    os.makedirs("CodeGen/Cpp", exist_ok=True)
    edge = [num.Ev(num.mods(e)) for e in (1e-7, -1e-7)]
    sharp = [num.Ev(num.mods(0))] * 2
    np.seterr(all="ignore")
    k = 0
    kinds = ["gcc", "clang", "msan"] if rec.thorough else ["gcc", "gcc", "clang"]
    while not rec.over():
        items, info = [], []
        while len(items) < 8:
            k += 1
            name = rng.choice(["syn", "Syn-2", "test: Syn", "S_y n"]) + str(k)
            with rec.guard(40):
                # now and then a robot with more vectors, or more unknowns, than the usual dimensions of the list
                big = rng.random() < .25
                exact = rng.random() < .15     # poses exactly on the boundary up to which a solution exists
                if exact:
                    R, objs, order, pvals = synth.robot(rng, name=name, cap=8, nmax=3, expression=synth.boundary)
                else:
                    R, objs, order, pvals = synth.robot(rng, name=name, cap=100 if big else 16, nmax=9 if rng.random() < .3 else 7)
                wit = dict(solutions=[(n, [str(x) for x in s]) for n, s in order])
                try:
                    oc.output_cpp_code(R, R.solutionSet)
                except Exception:
                    import traceback
                    rec.violation("generator-raised", dict(wit, error=traceback.format_exc()[-800:]))
                    continue
                p = "CodeGen/Cpp/IK_equations" + name.replace("test: ", "") + ".cpp"
                if not os.path.exists(p):
                    rec.violation("file-not-written", dict(wit, name=name))
                    continue
                code = open(p).read()
                os.remove(p)
                n = 1
                for _, s in order:
                    n *= len(s)
                n = n if order else 0
                ps = [(synth.boundary_pose if exact else synth.pose)(rng) for _ in range(5)]
                if order and not exact and n <= 16:
                    pv = {s: float(v) for s, v in pvals.items()}
                    more = poses.at_the_edge(lambda T: len(synth.rows(order, {**pv, **num.pose_vals(T)}, edge[0])), ps[0][0], rng)
                    rec.count("synthetic_poses_at_an_edge", len(more))
                    ps += [(T, num.pose_vals(T)) for T in more]
                ps.append((poses.hostile(rng), None))
                T = np.array(ps[0][0])
                T[rng.randrange(3), rng.randrange(4)] = rng.choice([math.nan, math.inf, 1e300, -1e300, 5e-324])
                ps.append((T, None))
                items.append(dict(code=code, pvals=pvals, rows=n, poses=[fixed(T) for T, _ in ps], main=True))
                info.append((order, pvals, ps, wit, n, exact))
        with rec.guard(120):
            res = cppgen.batch(items, rng.choice(kinds), keep=os.getcwd())
            for (order, pvals, ps, wit, n, exact), r in zip(info, res):
                if "error" in r:
                    rec.violation("does-not-compile", dict(wit, message=r["error"]))
                    continue
                rec.count("synthetic_programs")
                if n > 64:
                    rec.count("synthetic_programs_more_than_64_vectors")
                if len(order) > 6:
                    rec.count("synthetic_programs_more_than_6_unknowns")
                if r.get("main_rc", 0) != 0:
                    rec.violation("program-fails", dict(wit, rc=r["main_rc"], error=r["main_err"]))
                if crash(rec, wit, r, len(ps)):
                    continue
                cols = sorted((m for m, _ in order), key=lambda m: m + "v")
                for (T, base), out in zip(ps, r["results"]):
                    w = dict(wit, pose=np.array(T).tolist(), parameters={str(s): v for s, v in pvals.items()}, columns=cols)
                    got = read(rec, w, out, n, len(cols))
                    rec.ev((tuple(cols), n, base is None), sample=f"synthetic robot solved for {cols}: {n} vectors")
                    if got is None or base is None:
                        continue
                    base.update({s: float(v) for s, v in pvals.items()})
                    a, b = ((synth.rows(order, base, ev) if order else []) for ev in (sharp if exact else edge))
                    if exact and a:
                        rec.count("synthetic_poses_on_the_boundary", any(abs(x) == 1 for x in T[:3, 3]))
                    if len(a) != len(b):
                        rec.count("poses_at_a_branch_edge_skipped")
                        continue
                    rec.count("synthetic_vectors", len(a))
                    if not a:
                        rec.count("synthetic_poses_without_vector")
                    left, miss = list(got[1]), []
                    for q in a:
                        hit = next((x for x in left if all(abs(q[m] - x[i]) < 1e-8 * (1 + abs(q[m])) for i, m in enumerate(cols))), None)
                        if hit is None:
                            miss.append(q)
                        else:
                            left.remove(hit)
                    if miss or left:
                        if any(abs(v) > 1e6 for q in a for v in q.values()):
                            rec.count("ill_conditioned_skipped")
                            continue
                        rec.violation("synthetic-vectors-differ", dict(w, missing=miss[:3], extra=left[:3]))


def main():
    chk = vk.Check("C15", rule="one evaluation = one call of a generated C++ inverse-kinematics function (compiled with sanitizers), its rows compared with "
                   "the symbolic solutions evaluated independently (degenerate poses: that it returns without a report); distinct = (robot, kind of pose)")
    K = 120 if vk.THOROUGH else 20
    if vk.THOROUGH:
        names = cases.CATALOG + sorted(cases.POOL)
    else:
        names = cases.VACUOUS + cases.SOLVED + ["ArmRobo"] + sorted(chk.rng.sample(cases.POOL_SOLVED, 8)) + ["S002", "S096", "S003"]
    vk.fuzz(chk, __file__, budget=200 if vk.THOROUGH else 10)
    items, info = [], {}
    for rec in cases.records(chk, names, budget=800 if vk.THOROUGH else 300, timeout=200, trace=0):
        name = rec["robot"]
        code = rec["files"].get(f"CodeGen/Cpp/IK_equations{name}.cpp", "")
        S = sol.Solved(rec)
        rng = random.Random(f"cpp/{name}/{vk.SEED}")
        calls = [(kind, vals, base, T) for kind, vals, base, T in poses.workload(S, rng, K)]
        for x in (math.nan, math.inf, 1e300, -1e200, 5e-324):
            T = np.array(calls[0][3], dtype=float)
            T[rng.randrange(3), rng.randrange(4)] = x
            calls.append(("hostile", None, None, T))
        calls.append(("hostile", None, None, np.eye(4)))      # the pose its own main() asks for: keep it last
        n = 1
        for u in S.order:
            n *= len(u["solutions"])
        n = n if S.order else 0
        pv = dict(S.pvals())
        items.append(dict(name=name, code=code, pvals=pv, rows=n, poses=[fixed(T) for _, _, _, T in calls], main=True))
        info[name] = (S, calls, n)
    groups = [[i] for i in sorted(items, key=lambda i: -len(i["code"]))]
    kinds = ["gcc", "clang", "msan"] if vk.THOROUGH else ["gcc"]
    with cf.ThreadPoolExecutor(vk.CORES) as ex:
        jobs = [(g, kind, ex.submit(cppgen.batch, g, kind)) for g in groups for kind in kinds]
        for g, kind, fu in jobs:
            for it, r in zip(g, fu.result()):
                name = it["name"]
                S, calls, n = info[name]
                wit = dict(robot=name, build=kind)
                if "error" in r:
                    chk.violation("does-not-compile", dict(wit, message=r["error"]))
                    continue
                chk.count("programs_built_" + kind)
                if r.get("main_rc", 0) != 0:
                    chk.violation("program-fails", dict(wit, rc=r["main_rc"], error=r["main_err"]))
                if crash(chk, wit, r, len(calls)):
                    continue
                if "main_out" in r and r.get("main_rc") == 0:
                    chk.count("programs_run")
                    if ("No valid solution" in r["main_out"]) != (r["results"][-1][0] == 0):
                        chk.violation("program-reports-the-opposite", dict(wit, printed=r["main_out"][-300:], returned=r["results"][-1][0]))
                for (k, vals, base, T), out in zip(calls, r["results"]):
                    w = dict(wit, kind=k, pose=np.array(T).tolist())
                    chk.ev((name, k), sample=f"{name}: {k} pose -> returned {out[0]}")
                    chk.count("calls_" + k)
                    got = read(chk, w, out, n, len(S.order))
                    if got is None or k == "hostile":
                        continue
                    poses.compare(chk, S, name in cases.VACUOUS + cases.POOL_VACUOUS, w, k, vals, base, got[1])
    chk.finish(minimum=400, need=dict(synthetic_programs=16, synthetic_vectors=60, programs_built_gcc=30, vectors_compared=1000, poses_without_solution=20,
                                      calls_hostile=60))


if __name__ == "__main__":
    main()
