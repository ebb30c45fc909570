import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C25: the same robot solved by processes with different string-hash seeds, in different directories."""
import collections
import concurrent.futures as cf
import random
import re
import time

import cases
import poses
import sol
import vk


def facts(r):
    """What a run delivers, without the order of the list of solution vectors (a set)."""
    U = sorted([u for u in r["unknowns"] if u["solved"]], key=lambda u: u["solveorder"])
    name = r["robot"]
    py, cpp = (r["files"].get(f"CodeGen/{d}/IK_equations{name}.{e}", "") for d, e in (("Python", "py"), ("Cpp", "cpp")))

    def assignments(code):
        """'name = expression' lines, as a multiset; the lines which fill the list of vectors are judged by running the code"""
        return sorted(collections.Counter(m.group(0).strip() for m in re.finditer(r"^[ \t]*(?:double )?\w+v\d+ = [^\n]*$", code, re.M)
                                          if not m.group(0).rstrip().endswith("= 0;")).items())
    return {
        "solved-unknowns": [u["name"] for u in U],
        "unknowns": [(u["name"], u["solved"], u["n"]) for u in r["unknowns"]],
        "methods": [u["solvemethod"] for u in U],
        "solutions": [[str(x) for x in u["solutions"]] for u in U],
        "dependencies": [[str(d) for d in u["deps"]] for u in U],
        "equations": [(str(u["eqn"]), str(u["eqn2"])) for u in U],
        "solution-vectors": sorted(tuple(str(x) for x in g) for g in r["R"]["solutionSet"]),
        "vector-entries": [[(str(a), str(b)) for a, b in row] for row in r["R"]["final"]],
        "graph": [tuple(e) for e in r["R"]["edges"]],
        "python-equations": assignments(py),
        "cpp-equations": assignments(cpp),
    }


def main():
    chk = vk.Check("C25", rule="one evaluation = one complete run under one hash seed, compared with the first run for the same robot (solved unknowns, solutions, vectors, equations, "
                   "generated code executed on poses); distinct = (robot, seed)")
    rng = chk.rng
    seeds = [0] + [rng.randrange(1, 2 ** 32) for _ in range(15 if vk.THOROUGH else 5)]
    big = ["KR16", "Puma"]
    if vk.THOROUGH:
        plan = [(n, s) for n in cases.CATALOG + sorted(rng.sample(sorted(cases.POOL), 40)) for s in (seeds if n not in cases.HEAVY_UNSOLVED else seeds[:3])]
        plan.sort(key=lambda p: seeds.index(p[1]))
    else:
        small = [n for n in cases.SOLVED if n not in ("Pumaoffset", "Khat6DOF", "KawasakiRS007L", "KR16", "Puma", "DZhang")]
        plan = [(n, s) for n in big for s in seeds[:3]] + [(n, s) for n in small for s in seeds[:4]] + \
               [(n, s) for n in sorted(rng.sample(cases.POOL_SOLVED, 6)) + ["S002", "S003"] for s in seeds[:4]]
    dl = vk.Deadline(820 if vk.THOROUGH else 260)

    def one(p):
        if dl.left() < 5:
            return p, {"exit": "skipped"}
        env = vk.child_env()
        env["PYTHONHASHSEED"] = str(p[1])
        return p, vk.solve(cases.job(p[0], trace=0), timeout=min(200, dl.left()), env=env)

    base, codes = {}, {}
    got = {}
    with cf.ThreadPoolExecutor(vk.CORES) as ex:
        for p, r in ex.map(one, plan):
            got[p] = r
    for (n, s), r in got.items():
        if r["exit"] in ("timeout", "skipped"):
            chk.count("runs_" + r["exit"])
            continue
        if r["exit"] != "normal" or "unknowns" not in r:
            chk.violation("run-ended-abnormally", dict(robot=n, hashseed=s, exit=r["exit"], error=(r.get("error") or "")[-1200:]))
            continue
        chk.count("runs_complete")
        f = facts(r)
        codes.setdefault(n, []).append((s, r["files"].get(f"CodeGen/Python/IK_equations{n}.py", "")))
        if n not in base:
            base[n] = (s, f, r)
            continue
        s0, f0, _ = base[n]
        chk.ev((n, s), sample=f"{n}: hash seeds {s0} and {s}: {len(f['solved-unknowns'])} unknowns, {len(f['solution-vectors'])} vectors, same")
        for k in f:
            if f[k] != f0[k]:
                d = next((i for i, (a, b) in enumerate(zip(f0[k], f[k])) if a != b), min(len(f0[k]), len(f[k])))
                chk.violation("differ:" + k, dict(robot=n, seeds=[s0, s], first=str(f0[k][d:d + 1])[:500], second=str(f[k][d:d + 1])[:500],
                                                  lengths=[len(f0[k]), len(f[k])]))
    # the generated functions return the same set of vectors
    items, idx = [], []
    for n, lst in codes.items():
        S = sol.Solved(base[n][2])
        prng = random.Random(f"c25/{n}")
        P = [T.tolist() for kind, _, _, T in poses.workload(S, prng, 6) if kind != "hostile"]
        for s, code in lst:
            items.append(dict(name=n, code=code, prefix="ikin_", args=[("array", T) for T in P]))
            idx.append((n, s))
    for k, it in enumerate(items):
        it["name"] = f"{idx[k][0]}|{idx[k][1]}"
    out = {}
    for j, o in vk.child_map("codepy_child.py", [dict(items=g) for g in vk.split(items)], timeout=120):
        for r in o.get("res", []):
            out[r["name"]] = r
    for n, lst in codes.items():
        first = None
        for s, _ in lst:
            r = out.get(f"{n}|{s}")
            if r is None or r.get("error"):
                chk.count("modules_not_loaded")
                continue
            vec = [(w, sorted(tuple(x) for x in rows) if w == "rows" else str(w)) for w, rows, _ in r["results"]]
            chk.count("modules_executed")
            if first is None:
                first = (s, vec)
            elif repr(first[1]) != repr(vec):
                chk.violation("generated-code-differs", dict(robot=n, seeds=[first[0], s], first=str(first[1])[:400], second=str(vec)[:400]))
    chk.finish(minimum=40, need=dict(modules_executed=40))


if __name__ == "__main__":
    main()
