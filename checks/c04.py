import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C04: the equation lists against an independent count of the unsolved unknowns: every scan of full solves, and random matrix
equations in random solving histories (scan, the matrix scan, the list-updating leaf, the substitution leaf)."""
import lists as ls
import vk

ANG = [f"th_{i}" for i in range(1, 7)]
SUMS = ["th_12", "th_23", "th_34", "th_45", "th_56", "th_123", "th_234", "th_345", "th_456"]
DS = ["d_1", "d_2", "d_3", "d_4", "d_12"]
PAR = ["a_2", "a_3", "l_1", "l_2", "l_4", "th_x", "d_0", "h"]
POSE = [f"r_{i}{j}" for i in (1, 2, 3) for j in (1, 2, 3)] + ["Px", "Py", "Pz"]


class Tick:
    def __init__(self, bb):
        self.blackboard = bb


def work(rec):
    import b3
    import sympy as sp
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    import ikbtleaves.sub_transform as ms
    import ikbtleaves.updateL as mu
    rng = rec.rng
    S = sp.Symbol
    n, limit = 0, 6000 if rec.thorough else 130
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(30):
            names = rng.sample(ANG, rng.randint(2, 6)) + rng.sample(DS, rng.randint(0, 2)) + rng.sample(SUMS, rng.randint(0, 3))
            rng.shuffle(names)

            def atom():
                k = rng.random()
                if k < .6:
                    x = rng.choice(names)
                    if rng.random() < .1:        # a joint variable's symbol that is not among the unknowns
                        x = rng.choice(ANG + SUMS + DS)
                    return S(x) if x[0] == "d" or rng.random() < .12 else rng.choice([sp.sin, sp.cos])(S(x))
                if k < .9:
                    return S(rng.choice(PAR + POSE))
                return sp.sympify(rng.choice([1, -1, 2, sp.Rational(1, 2), 1.0, sp.pi]))

            def expr(big=3):
                k = rng.random()
                if k < .15:
                    return sp.S.Zero
                if k < .22:
                    return sp.sympify(rng.choice([1, -1, 2]))
                if k < .4:
                    return S(rng.choice(POSE)) * rng.choice([1, -1])
                e = sp.S.Zero
                for _ in range(rng.randint(1, big)):
                    t = rng.choice([1, 1, -1, 2])
                    for _ in range(rng.randint(1, 3)):
                        t = t * atom()
                    e += t
                if rng.random() < .1:
                    e = e ** 2
                return e

            pool = [expr() for _ in range(6)]

            def element():
                e = rng.choice(pool) if rng.random() < .35 else expr()
                return e * rng.choice([1, 1, 1, 1, -1, 1.0]) if rng.random() < .3 else e

            def matrix_equation():
                Td, Ts = sp.zeros(4), sp.zeros(4)
                plain = rng.random() < .4
                for i in range(3):
                    for j in range(4):
                        Td[i, j] = S(POSE[3 * i + j] if j < 3 else POSE[9 + i]) if plain else element()
                        Ts[i, j] = element()
                return kc.matrix_equation(Td, Ts)

            R = ik.Robot()
            R.mequation_list = [matrix_equation() for _ in range(rng.choice([1, 1, 2, 3]))]
            aux = []
            for x in names:
                if x in SUMS:
                    aux.append(kc.kequation(S(x), sum(S("th_" + c) for c in x[3:])))
            for _ in range(rng.choice([0, 0, 1, 2])):
                aux.append(kc.kequation(sp.sympify(rng.choice([0, 0, 1])) if rng.random() < .7 else expr(), expr(4)))
            if aux and rng.random() < .2:
                aux.append(rng.choice(aux))
            R.kequation_aux_list = aux
            unks = []
            for i, x in enumerate(names):
                u = kc.unknown(S(x))
                u.n = i + 1
                u.solved = rng.random() < .25
                unks.append(u)
            bb = b3.Blackboard()
            bb.set("Robot", R)
            bb.set("unknowns", unks)
            leaf, sub = mu.updateL(), ms.sub_transform()
            leaf.BHdebug = sub.BHdebug = False
            hist = []
            for step in range(rng.randint(1, 4)):
                op = rng.choice(["scan", "scan", "update", "update", "matrix", "sub"])
                if step and rng.random() < .75:
                    todo = [u for u in unks if not u.solved]
                    if todo:
                        u = rng.choice(todo)
                        u.solved = True
                        hist.append(f"solved {u.name}")
                    else:
                        rec.count("states_all_solved")
                if step and rng.random() < .3:
                    M = rng.choice(R.mequation_list)
                    i, j = rng.randrange(3), rng.randrange(4)
                    M.Ts[i, j] = expr()
                    hist.append(f"changed [{i},{j}]")
                if step and rng.random() < .2:
                    R.kequation_aux_list.append(kc.kequation(sp.S.Zero, expr(3)))
                    hist.append("added an equation")
                unsolved = [u.symbol for u in unks if not u.solved]
                hist.append(op)
                wit = dict(history=list(hist), unknowns=names, unsolved=[str(x) for x in unsolved])
                pairs = [(e.LHS, e.RHS) for e in R.kequation_aux_list]
                diffs, aux_in = False, (1, 2)
                try:
                    if op == "scan":
                        L = R.scan_for_equations(unks)
                    elif op == "matrix":
                        M = rng.choice(R.mequation_list)
                        M.auxeqns = rng.sample(R.kequation_aux_list, min(len(R.kequation_aux_list), rng.randint(0, 2)))
                        pairs = [(e.LHS, e.RHS) for e in M.auxeqns]
                        aux_in = (1, 2, 3)
                        L = R.scan_Mequation(M, unks)
                    else:
                        old = tuple(bb.get(k) for k in ("eqns_1u", "eqns_2u", "eqns_3pu"))
                        before = [sp.Matrix(M.Ts) for M in R.mequation_list]
                        st = (leaf if op == "update" else sub).tick(Tick(bb))
                        if op == "sub":
                            if [sp.Matrix(M.Ts) for M in R.mequation_list] == before:
                                rec.count("substitution_found_nothing")
                                continue
                            rec.count("substitutions")
                        L = tuple(bb.get(k) for k in ("eqns_1u", "eqns_2u", "eqns_3pu"))
                        diffs = "required" if op == "update" else False
                        if bb.get("Robot") is not R:
                            rec.violation("robot-replaced", wit)
                        if st != b3.SUCCESS:
                            rec.violation("update-fails", dict(wit, status=st))
                except Exception as e:
                    rec.violation(f"raised:{type(e).__name__}", dict(wit, error=repr(e)))
                    break
                if any(u.solved != (u.symbol not in unsolved) for u in unks):
                    rec.violation("solved-state-changed", wit)
                meqs = [(M.Td, M.Ts, None)] if op == "matrix" else [(M.Td, M.Ts, None) for M in R.mequation_list]
                els = ls.elements(meqs)
                got = {k + 1: [(e.LHS, e.RHS) for e in L[k]] for k in range(3)}
                nn = ls.judge(rec.violation, wit, els, pairs, unsolved, got, differences=diffs, aux_in=aux_in)
                rec.count("listed_equations", nn)
                rec.count("lists_" + op)
                rec.ev(str((op, tuple(len(v) for v in got.values()), len(unsolved), len(els), len(pairs))),
                       sample=f"{op}: {len(unsolved)} unsolved, {len(els)} elements, {len(pairs)} definitions -> lists of {[len(v) for v in got.values()]}")


def solves(chk):
    import sympy as sp
    import cases
    easy = ["Puma", "Wrist", "Stanford", "Chair_Helper", "Craig417", "Palm13", "Brad", "Frei13", "MiniDD", "Parkman13", "KR16", "Srisuan11"]
    names = cases.CATALOG if vk.THOROUGH else easy
    names = names + (cases.pool_pick(109, chk.rng) if vk.THOROUGH else cases.pool_pick(14, chk.rng, only=lambda s: s["name"] in cases.POOL_SOLVED))
    for rec in cases.records(chk, names, trace=1, budget=800 if vk.THOROUGH else 150):
        if not any(k == "scan" for k, e in rec["events"]):
            chk.violation("no-scan-observed", dict(robot=rec["robot"]))
        solved_now = set()
        for k, e in rec["events"]:
            if k == "set_solved":
                solved_now.add(str(e["unk"]["symbol"]))
            if k == "scan":
                unsolved = [sp.Symbol(s) for s in e["syms"] if not e["solved"][s]]
                wit = dict(robot=rec["robot"], unsolved=[str(x) for x in unsolved])
                late = [s for s in solved_now if not e["solved"].get(s, True)]
                if late:
                    chk.violation("solved-unknown-counted", dict(wit, unknowns=late))
                nn = ls.judge(chk.violation, wit, ls.elements(e["meqs"]), e["aux"], unsolved, {1: e["l1"], 2: e["l2"], 3: e["l3p"]}, differences=True)
                chk.count("solve_scans")
                chk.count("solve_listed_equations", nn)
                chk.ev(("solve", rec["robot"], len(unsolved)))
            if k == "tick" and e["leaf"] == "updateL":
                unsolved = [sp.Symbol(s) for s in e["unsolved"]]
                L = e["lists"]
                ls.judge(chk.violation, dict(robot=rec["robot"], where="handed to the solvers", unsolved=e["unsolved"]), ls.elements(e["meqs"]), e["aux"], unsolved,
                         {1: L["eqns_1u"], 2: L["eqns_2u"], 3: L["eqns_3pu"]}, differences="required")
                chk.count("solve_updates")
                chk.ev(("update", rec["robot"], len(unsolved)))


if __name__ == "__main__":
    chk = vk.Check("C04", rule="one evaluation = the three lists returned by one scan (or handed on by one update), every equation of which is classified independently; "
                   "distinct = (operation, sizes of the lists, unsolved unknowns, elements, definitions) or (robot, unsolved unknowns)")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 25)
    solves(chk)
    chk.finish(minimum=600, need=dict(lists_scan=200, lists_update=150, lists_matrix=100, substitutions=20, solve_scans=60, solve_updates=30))
