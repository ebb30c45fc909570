import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C33: a run which leaves unknowns unsolved has nothing left that one of its solvers is for. The equations a finished run ends
with are read by an independent matcher, and the recorded ticks show whether each unsolved unknown was tried at the end."""
import sympy as sp

import cases
import gen
import vk

PASSES = 10


def shape(e, u, unsolved):
    """what e = 0 offers for u: ("linear" | "sine or cosine" | "sine and cosine", A, B, C) with known A, B, C, or None"""
    s, c = sp.sin(u), sp.cos(u)
    A, B = e.coeff(s), e.coeff(c)
    C = sp.expand(e - A * s - B * c)
    if (A != 0 or B != 0) and not any(x.has(*unsolved) for x in (A, B, C)):
        return ("sine and cosine" if A != 0 and B != 0 else "sine or cosine", A, B, C)
    if not e.has(s) and not e.has(c):
        A = e.coeff(u)
        C = sp.expand(e - A * u)
        if A != 0 and not A.has(*unsolved) and not C.has(*unsolved):
            return ("linear", A, sp.S.Zero, C)
    return None


def left(rec, unsolved, chk):
    """[(unknown, form, equation(s))] which a solver is for"""
    eqs = []
    for m in rec["meqs"]:
        for i in range(3):
            for j in range(4):
                eqs.append((m[0][i, j], m[1][i, j]))
    eqs += [(L, R) for L, R in rec["R"]["aux"]]
    out, halves = [], {}
    for L, R in eqs:
        e = sp.expand(sp.sympify(R) - sp.sympify(L))
        us = [u for u in unsolved if e.has(u)]
        if not us:
            continue
        chk.count("open_equations_read")
        if len(us) == 1:
            chk.count("open_equations_with_one_unknown")
            f = shape(e, us[0], unsolved)
            if f:
                out.append((str(us[0]), f[0], f"{L} = {R}"))
        elif len(us) == 2:
            for u in us:
                for name, t in (("s", sp.sin(u)), ("c", sp.cos(u))):
                    A = e.coeff(t)
                    rest = sp.expand(e - A * t)
                    if A != 0 and not A.has(u) and not rest.has(*unsolved) and not isinstance(A, sp.Add):
                        halves.setdefault(u, {}).setdefault(name, []).append((A, f"{L} = {R}"))
    for u, h in halves.items():
        for A, e1 in h.get("s", []):
            for C, e2 in h.get("c", []):
                chk.count("pairs_with_a_common_factor")
                if not (A / C).has(*unsolved):
                    out.append((str(u), "arctangent of a pair", [e1, e2]))
    return out


def judge(chk, rec, spec):
    name = rec["robot"]
    names = [u["name"] for u in rec["unknowns"] if not u["solved"]]
    nsolved = len(rec["unknowns"]) - len(names)
    wit = dict(robot=name, dh=spec["dh"] if spec else None, unsolved=names)
    chk.ev(name if spec is None or name in cases.POOL else str(spec["dh"]), sample=f"{name}: {nsolved} solved, unsolved {names}")
    if not names:
        chk.count("all_solved")
        return
    chk.count("runs_with_unsolved")
    if nsolved:
        chk.count("runs_partly_solved")
    if nsolved >= PASSES:
        chk.count("limit_of_passes_reached")
        return
    for u, form, eq in left(rec, [sp.Symbol(n) for n in names], chk):
        chk.violation(f"gave-up:{form}", dict(wit, unknown=u, equation=eq))
    # after the last success every unsolved unknown is offered again
    last = -1
    ticks = [e for k, e in rec["events"] if k == "tick"]
    for i, e in enumerate(ticks):
        if set(e["unsolved"]) == set(names):
            last = i
            break
    if last < 0:
        return
    tried = {e["curr"] for e in ticks[last:] if e["leaf"] == "assigner"}
    chk.count("unknowns_tried_at_the_end", len(tried & set(names)))
    if set(names) - tried:
        chk.violation("not-tried-at-the-end", dict(wit, never=sorted(set(names) - tried)))


def main():
    chk = vk.Check("C33", rule="one evaluation = one complete run of the solver for one arm, the equations it ends with read by an independent matcher; distinct = arm")
    rest = [n for n in sorted(cases.POOL) if n not in cases.POOL_SOLVED and n != "S005"]
    if vk.THOROUGH:
        names, nrand = cases.CATALOG + sorted(cases.POOL), 150
    else:
        names, nrand = cases.HEAVY_UNSOLVED + rest + sorted(chk.rng.sample(cases.POOL_SOLVED, 6)), 0
    jobs = [cases.job(n) for n in names]
    for i in range(nrand):
        s = gen.random_spec(chk.rng, dof=chk.rng.choice([2, 3, 3, 4, 4, 5]), name=f"G{vk.SEED}x{i}", odd=chk.rng.random() < .4)
        jobs.append(dict(robot=s["name"], spec=s))
    for j, rec in vk.solve_many(jobs, timeout=300 if vk.THOROUGH else 200, budget=850 if vk.THOROUGH else 300):
        chk.count("solver_runs")
        if rec["exit"] != "normal":       # C27's business
            chk.count("runs_" + rec["exit"])
            continue
        judge(chk, rec, j.get("spec") or cases.POOL.get(rec["robot"]))
    chk.finish(minimum=20, need=dict(runs_with_unsolved=8, runs_partly_solved=4, open_equations_read=200, unknowns_tried_at_the_end=10))


if __name__ == "__main__":
    main()
