import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C35: schedules and histories. (a) Full runs in which the unknowns are offered to the solvers in random orders instead of the
assigner's; at true configurations the true value of every solved unknown must be among its solutions, whatever was solved before
it. (b) The assembled solvers are offered one unknown several times, with other equation lists each time (all true at one hidden
configuration), many of which they identify and then decline; once it is solved, the hidden value must be among the solutions."""
import random

import sympy as sp

import cases
import num
import sol
import vk


def judge(chk, rec, job, n):
    name = rec["robot"]
    S = sol.Solved(rec)
    offers = rec["offers"]
    wit = dict(robot=name, dh=str(rec["mech"]["DH"].tolist()), offers=offers[:80], schedule=job["offers"])
    done = []
    for i, u in enumerate(S.order):
        if u["solveorder"] != i + 1:
            chk.violation("wrong-solve-order", dict(wit, unknown=u["name"], got=u["solveorder"], want=i + 1))
        used = {x for s in u["solutions"] for x in sp.sympify(s).free_symbols} & set(S.unknowns)
        if used - set(done):
            chk.violation("solved-from-what-is-not-solved", dict(wit, unknown=u["name"], uses=sorted(map(str, used - set(done)))))
        if set(u["deps"]) != used:
            chk.violation("wrong-dependencies", dict(wit, unknown=u["name"], got=[str(d) for d in u["deps"]], want=sorted(map(str, used))))
        if not u["solutions"]:
            chk.violation("solved-without-solution", dict(wit, unknown=u["name"]))
        done.append(u["symbol"])
    chk.ev((name, tuple(u["name"] for u in S.order)), sample=f"{name}: {len(offers)} offers, solved in the order {[u['name'] for u in S.order]}")
    chk.count("unknowns_solved", len(S.order))
    chk.count("runs_complete" if S.complete else "runs_partial")
    rng = random.Random(f"c35/{name}/{job['offers']}")
    k = tries = 0
    while k < n and tries < 5 * n:
        tries += 1
        vals, base, T = S.config(rng, signs=tries % 3 == 0)
        if tries <= 2 * n and not cases.regular(rec, S.arm, vals, S.joints, rel=1e-3):
            chk.count("singular_configurations_skipped")     # redundant arms: random configurations will do
            continue
        k += 1
        env = {**base, **{s: vals[s] for s in S.unknowns if s in vals}}
        vac = None
        for u in S.order:
            s = u["symbol"]
            if s not in vals:
                continue
            got = [S.ev(x, env) for x in u["solutions"]]
            chk.count("values_compared")
            if any(v is not None and num.same(str(s), v, vals[s], S.angle[s], 1e-4) for v in got):
                continue
            if vac is None:
                vac = S.vacuous(vals, base)
            if u["name"] in vac:        # its equation says 0 = 0: see C12's findings
                chk.count("equations_without_content")
                continue
            chk.violation("true-value-missing", dict(wit, unknown=u["name"], method=u["solvemethod"], equation=str(u["eqn"]), second=str(u["eqn2"]),
                                                     solutions=[str(x) for x in u["solutions"]], values=[str(v) for v in got], true=vals[s],
                                                     order=[x["name"] for x in S.order]))


def equations(g, rng, hard):
    """one list of equations (one-unknown, two-unknown) in forms the solvers take, or identify and decline, or pass over"""
    import sympy as sp
    u = g.u
    o = sp.Symbol(rng.choice(g.solved)) if g.solved else sp.Symbol("a_2")
    f, h = rng.choice([(sp.sin, sp.cos), (sp.cos, sp.sin)])
    A, B = g.coef(), g.coef()
    C = rng.choice([sp.S.Zero, g.coef()])
    if g.u_name[0] == "d":
        if not hard:
            return [A * u + C], []
        return [rng.choice([A * u ** 2 + C, A * u * (u + B), A * u / (u + B + 7), A * u ** 2 + B * u, A * u ** 3 + C])], []
    if hard:
        e = rng.choice([A * f(u) ** 2 + C, A * f(u) * h(u) + C, A * f(u + o) + C, A * f(u - o) + B * f(u), A * f(u) * h(u) + B * f(u), A * f(u) ** 2 + B * h(u) + C,
                        A * f(u) * f(u + o) + C, A * f(2 * u) + C, A * f(u) + B * u, A * f(u) ** 3 + C, A * f(u) / (2 + h(u)) + C])
        if g.unsolved and rng.random() < .3:
            w = sp.Symbol(rng.choice(g.unsolved))
            return [], [e * (w if w.name[0] == "d" else sp.sin(w)), rng.choice([e, A * f(u) + C]) * (w if w.name[0] == "d" else sp.cos(w))]
        return [e], []
    k = rng.random()
    if k < .3:
        return [A * f(u) + C], []
    if k < .5:
        return [A * f(u) + C, B * h(u) + rng.choice([sp.S.Zero, g.coef()])], []
    if k < .65:
        return [A * f(u) + B * h(u) + C], []
    if k < .8:
        return rng.sample([A * sp.sin(u) + B * sp.cos(u), A * sp.cos(u) - B * sp.sin(u)], 2), []
    if k < .9 or not g.unsolved:
        return [A * u + C], []
    w = sp.Symbol(rng.choice(g.unsolved))
    w = w if w.name[0] == "d" else rng.choice([sp.sin, sp.cos])(w)
    return [], [A * w * f(u) + C, B * w * h(u)]


def work(rec):
    """Histories of offers to the assembled solvers."""
    import b3
    import leaf
    import sympy as sp
    import ikbtleaves.algebra_solver as malg
    import ikbtleaves.rank_leaf as mrank
    import ikbtleaves.sinANDcos_solver as msac
    import ikbtleaves.sincos_solver as msc
    import ikbtleaves.tan_solver as mtan
    import ikbtleaves.two_eqn_m7 as msim
    rng = rec.rng
    n, limit = 0, 60000 if rec.thorough else 2500
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(30):
            g = leaf.Gen(rng, "angle" if rng.random() < .9 else "length", n_unsolved=rng.randint(0, 2))
            vals = g.values()
            o = g.objs[g.u_name]

            def seq(*c):
                return b3.Sequence(leaf.instances(*c))
            rank = mrank.rank()
            rank.Name = "rank"
            tree = b3.BehaviorTree()
            tree.root = b3.Priority([seq(malg.algebra_id, malg.algebra_solve),
                                     b3.Sequence([b3.OrNode([seq(mtan.tan_id, mtan.tan_solve), seq(msc.sincos_id, msc.sincos_solve)]), rank]),
                                     seq(msim.simu_id, msim.simu_solver), seq(msac.sinandcos_id, msac.sinandcos_solve)])
            bb = leaf.blackboard(g, [], [])
            hist, nq = [], 0
            for step in range(rng.randint(1, 5)):
                lists = [[], []]
                for _ in range(rng.choice([1, 1, 2, 3])):
                    for L, es in zip(lists, equations(g, rng, rng.random() < (.7 if step < 3 else .2))):
                        for e in es:
                            nq += 1
                            q = sp.Symbol(f"Q_{nq}")
                            v = num_value(e, vals)
                            if v is None:
                                continue
                            vals[q] = v
                            k = rng.random()
                            eq = g.kc.kequation(q, e) if k < .5 else g.kc.kequation(sp.S.Zero, e - q) if k < .8 else g.kc.kequation(-q, -e)
                            if g.n_unknowns(eq) == (1 if L is lists[0] else 2):
                                L.append(eq)
                for L in lists:
                    rng.shuffle(L)
                hist.append([[repr(e) for e in L] for L in lists])
                bb.set("eqns_1u", lists[0])
                bb.set("eqns_2u", lists[1])
                bb.set("curr_unk", o)
                wit = dict(unknown=g.u_name, unsolved=g.unsolved, offers=hist)
                try:
                    tree.tick("offer", bb)
                except Exception as e:
                    rec.violation(f"raised-after-offers:{type(e).__name__}", dict(wit, error=repr(e)))
                    break
                rec.count("offers_made")
                if o.solved:
                    break
            else:
                rec.count("histories_unsolved")
                rec.ev(str(hist), sample=f"{len(hist)} offers, not solved")
                if o.solveorder or any(x.symbol == o.symbol for x in g.R.solution_nodes):
                    rec.violation("half-solved", wit)
                continue
            if not o.solved:
                continue
            rec.ev(str(hist), sample=f"{len(hist)} offers, then {g.u_name} = {[str(x)[:60] for x in o.solutions]} by {o.solvemethod}")
            rec.count("histories_solved")
            if len(hist) > 1:
                rec.count("solved_after_declining")
            wit.update(solutions=[str(x) for x in o.solutions], method=o.solvemethod, equation=repr(o.eqntosolve))
            if any(x.has(g.u) or any(x.has(sp.Symbol(w)) for w in g.unsolved) for x in o.solutions):
                rec.violation("solution-uses-what-is-not-known", wit)
                continue
            if o.nsolutions != len(o.solutions) or not o.solutions or not o.solvemethod:
                rec.violation("not-recorded-properly", wit)
            got = [num_value(x, vals) for x in o.solutions]
            if not any(v is not None and num.same(g.u_name, v, vals[g.u], g.u_name[0] == "t", 1e-5) for v in got):
                rec.violation("true-value-not-among-solutions", dict(wit, values=[str(v) for v in got], true=vals[g.u]))


EV = num.Ev()


def num_value(e, vals):
    return EV(sp.sympify(e), vals)


def main():
    chk = vk.Check("C35", rule="one evaluation = one full run with another order of offering the unknowns, or one history of offers to the assembled solvers; distinct = (arm, order in which they were solved), different histories")
    vk.fuzz(chk, __file__, budget=150 if vk.THOROUGH else 12)
    slow = ["S000", "S003", "S064", "S073", "S096", "S109"]
    small = [n for n in sorted(cases.POOL) if n != "S005"]
    if vk.THOROUGH:
        names, reps = cases.SOLVED + small, 6
    else:
        small = [n for n in small if n not in slow]
        names, reps = ["Chair_Helper", "Wrist", "Brad", "Craig417", "Sims11", "Bartell"] + sorted(chk.rng.sample(small, 36)), 2
    jobs = [cases.job(n, trace=0, offers=f"{vk.SEED}/{n}/{i}") for n in names for i in range(reps)]
    for j, rec in vk.solve_many(jobs, timeout=120 if vk.THOROUGH else 60, budget=850 if vk.THOROUGH else 200):
        chk.count("solver_runs")
        if rec["exit"] in ("timeout", "skipped"):
            chk.count("runs_" + rec["exit"])
            continue
        if rec["exit"] != "normal" or "unknowns" not in rec or "mech" not in rec:
            chk.violation("run-ended-abnormally", dict(robot=rec["robot"], schedule=j["offers"], exit=rec["exit"], error=(rec.get("error") or "")[-1200:]))
            continue
        if not rec["offers"]:
            chk.count("orders_not_injected")
        judge(chk, rec, j, 20 if vk.THOROUGH else 4)
    chk.finish(minimum=300, need=dict(unknowns_solved=100, values_compared=400, histories_solved=150, solved_after_declining=60))


if __name__ == "__main__":
    main()
