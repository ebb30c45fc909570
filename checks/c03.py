import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C03: every equation that exists at any moment of a solve (matrix equations, definitions, lists, equations selected and recorded)
is evaluated at true configurations; rewriting must also not lose equations (rank of the constraints at the configuration).
Whole solves, and random matrix equations put through the substitution, sum-of-angles and list-updating leaves."""
import random

import num
import vk

ANG = [f"th_{i}" for i in range(1, 7)]
DS = ["d_1", "d_2", "d_3"]
PAR = ["a_2", "a_3", "l_1", "l_4"]
POSE = [f"r_{i}{j}" for i in (1, 2, 3) for j in (1, 2, 3)] + ["Px", "Py", "Pz"]
TOL = 1e-6


class Tick:
    def __init__(self, bb):
        self.blackboard = bb


def true(ev, eq, vals):
    """None: not evaluable; else is it true"""
    import sympy as sp
    a, b = ev(sp.sympify(eq[0]), vals), ev(sp.sympify(eq[1]), vals)
    if a is None or b is None:
        return None
    scale = 1 + max(abs(a), abs(b))
    for side in eq:
        for t in sp.Add.make_args(sp.sympify(side)):
            x = ev(t, vals)
            scale += abs(x) if x is not None else 0
    return abs(a - b) <= TOL * scale


def rank(ev, sp, eqs, vals, joints, sums):
    """rank of the constraints with respect to the joints at this configuration, the pose staying where it is"""
    import numpy as np
    res = [sp.sympify(a) - sp.sympify(b) for a, b in eqs]
    cols = []
    for s in joints:
        col = [0.0] * len(res)
        for sign in (1, -1):
            w = {k: v for k, v in vals.items() if k not in sums}
            w[s] += sign * 1e-5
            for k, e in sums.items():
                w[k] = float(e.subs(w))
            for i, r in enumerate(res):
                x = ev(r, w)
                if x is None:
                    return None
                col[i] += sign * x / 2e-5
        cols.append(col)
    sv = np.linalg.svd(np.array(cols), compute_uv=False)
    n = int((sv > 1e-5 * max(1, sv[0])).sum())
    clear = not any(1e-8 * max(1, sv[0]) < x <= 1e-3 * max(1, sv[0]) for x in sv)
    return n if clear else None


def els(meqs):
    return [(Td[i, j], Ts[i, j]) for Td, Ts, _ in meqs for i in range(3) for j in range(4)]


def work(rec):
    import b3
    import sympy as sp
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    import ikbtleaves.sub_transform as ms
    import ikbtleaves.sum_id as mi
    import ikbtleaves.updateL as mu
    import ikbtleaves.x2y2_transform as mx
    rng = rec.rng
    S = sp.Symbol
    n, limit = 0, 4000 if rec.thorough else 45
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(30):
            ev = num.Ev()
            joints = rng.sample(ANG, rng.randint(2, 6)) + rng.sample(DS, rng.randint(0, 2))

            def atom(sums=True):
                k = rng.random()
                if k < .6:
                    x = rng.choice(joints)
                    if x[0] == "d":
                        return S(x)
                    e = S(x)
                    th = [y for y in joints if y[0] == "t" and y != x]
                    if sums and th and rng.random() < .25:
                        e = e + rng.choice([1, 1, 1, -1]) * S(rng.choice(th))
                    return rng.choice([sp.sin, sp.cos])(e)
                if k < .95:
                    return S(rng.choice(PAR))
                return sp.sympify(rng.choice([2, -1, sp.Rational(1, 2)]))

            def term():
                t = sp.sympify(rng.choice([1, 1, -1, 2]))
                for _ in range(rng.randint(1, 3)):
                    t = t * atom()
                return t

            def expr(big=3):
                return sum((term() for _ in range(rng.randint(1, big))), sp.S.Zero)

            base = [expr(2) for _ in range(4)] + [sp.sin(S(joints[0])) if joints[0][0] == "t" else S(joints[0])]

            def element():
                k = rng.random()
                b = rng.choice(base)
                if k < .1:
                    return sp.sympify(rng.choice([0, 0, 1, -1]))
                if k < .3:
                    return b
                if k < .38:
                    return -b
                if k < .55:
                    return b + term()
                if k < .65:
                    return term() - b
                if k < .75:
                    return b * atom() + term()
                if k < .8:
                    return b + rng.choice(base)
                if k < .85:
                    return b ** 2 + term() * b
                if k < .9:
                    return atom() * (b + term()) + rng.choice(base)
                return expr()

            Td, Ts = sp.zeros(4), sp.zeros(4)
            for i in range(3):
                for j in range(4):
                    Ts[i, j] = element()
                    Td[i, j] = S(POSE[3 * i + j] if j < 3 else POSE[9 + i])
                    if rng.random() < .15:
                        Td[i, j] = Td[i, j] * rng.choice([-1, S(rng.choice(PAR))]) + rng.choice([0, S(rng.choice(PAR))])
                        if Td[i, j].free_symbols & {S(p) for p in PAR} and rng.random() < .5:
                            Td[i, j] = S(POSE[3 * i + j] if j < 3 else POSE[9 + i])
            meqs = [kc.matrix_equation(Td, Ts)]
            for _ in range(rng.choice([0, 0, 1])):      # moved-over version of some of the equations
                D2, S2 = sp.zeros(4), sp.zeros(4)
                for i in range(3):
                    for j in range(4):
                        f, a, b = rng.choice([1, atom(False)]), (rng.randrange(3), rng.randrange(4)), (rng.randrange(3), rng.randrange(4))
                        D2[i, j], S2[i, j] = f * Td[a] + Td[b], f * Ts[a] + Ts[b]
                meqs.append(kc.matrix_equation(D2, S2))
            R = ik.Robot()
            R.mequation_list = meqs
            unks = []
            for x in joints:
                u = kc.unknown(S(x))
                u.n = int(x.split("_")[1])
                u.solved = rng.random() < .3
                unks.append(u)
            bb = b3.Blackboard()
            bb.set("Robot", R)
            bb.set("unknowns", unks)
            # values which make the original equations true
            cases = []
            for _ in range(2):
                v = {S(p): rng.uniform(.3, 2) for p in PAR}
                v.update({S(x): rng.uniform(-3, 3) for x in joints})
                for i in range(3):
                    for j in range(4):
                        p = S(POSE[3 * i + j] if j < 3 else POSE[9 + i])
                        q = ev(Ts[i, j], v)
                        c0, c1 = ev(Td[i, j].subs(p, 0), v), ev(Td[i, j].subs(p, 1), v)
                        v[p] = (q - c0) / (c1 - c0)
                cases.append(v)
            leaves = dict(sub=ms.sub_transform(), soa=mi.sum_id(), update=mu.updateL(), squares=mx.x2z2_transform())
            for le in leaves.values():
                le.BHdebug = False
            hist = []
            text = [f"[{i},{j}] {Td[i, j]} = {Ts[i, j]}" for i in range(3) for j in range(4)]
            orig = els([(sp.Matrix(M.Td), sp.Matrix(M.Ts), None) for M in R.mequation_list])
            for step in range(rng.randint(2, 5)):
                op = rng.choice(["sub", "sub", "update", "soa", "squares", "solved"]) if step else rng.choice(["sub", "sub", "soa"])
                if op == "solved":
                    todo = [u for u in unks if not u.solved]
                    if todo:
                        rng.choice(todo).solved = True
                    continue
                if op == "squares":
                    leaves["update"].tick(Tick(bb))
                    todo = [u for u in unks if not u.solved and u.name in ("th_2", "th_3")]
                    if not todo:
                        continue
                    bb.set("curr_unk", rng.choice(todo))
                hist.append(op)
                wit = dict(history=list(hist), equations=text, solved=[u.name for u in unks if u.solved])
                old = [(sp.Matrix(M.Td), sp.Matrix(M.Ts)) for M in R.mequation_list]
                oldaux = len(R.kequation_aux_list)
                try:
                    leaves[op].tick(Tick(bb))
                except Exception as e:
                    rec.violation(f"raised:{op}:{type(e).__name__}", dict(wit, error=repr(e)))
                    break
                now = [(sp.Matrix(M.Td), sp.Matrix(M.Ts), None) for M in R.mequation_list]
                changed = [(A, B) for A, B, _ in now] != old or len(R.kequation_aux_list) != oldaux
                if changed:
                    rec.count("rewrites_" + op)
                aux = [(e.LHS, e.RHS) for e in R.kequation_aux_list]
                eqs = [("matrix", e) for e in els(now)] + [("definition", e) for e in aux]
                for k in ("eqns_1u", "eqns_2u", "eqns_3pu"):
                    eqs += [("list", (e.LHS, e.RHS)) for e in (bb.get(k) or [])]
                lost = False
                for vi, v in enumerate(cases):
                    w = num.add_sums(dict(v), aux)
                    for where, e in eqs:
                        t = true(ev, e, w)
                        rec.count("equations_evaluated")
                        if t is None:
                            missing = [s for x in e for s in sp.sympify(x).free_symbols if s not in w]
                            rec.violation(f"undefined:{where}", dict(wit, equation=[str(x)[:300] for x in e], without_value=[str(s) for s in missing]))
                        elif not t:
                            rec.violation(f"false:{op}:{where}", dict(wit, equation=[str(x)[:300] for x in e]))
                    if changed and vi == 0:
                        js = [S(x) for x in joints]
                        r0 = rank(ev, sp, orig, w, js, {})
                        sums = {a: b for a, b in aux if a in w and a.is_Symbol and a not in js and b.free_symbols <= set(js)}
                        r1 = rank(ev, sp, els(now), w, js, sums)
                        if r0 is not None and r1 is not None:
                            rec.count("ranks_compared")
                            if r1 != r0:
                                lost = True
                if lost:
                    rec.violation(f"equations-lost:{op}", dict(wit, now=[f"{a} = {b}" for a, b in els(now)][:12]))
                rec.ev((str(text), tuple(hist)) if changed else None, sample=f"after {hist}: {len(eqs)} equations true; e.g. {text[0][:150]}")


def solves(chk):
    import sympy as sp
    import cases
    from sol import Solved
    easy = ["Puma", "Wrist", "Stanford", "Chair_Helper", "Craig417", "Palm13", "Brad", "Frei13", "MiniDD", "Parkman13", "KR16", "Srisuan11", "UR5", "Khat6DOF", "Sims11"]
    names = cases.CATALOG if vk.THOROUGH else easy
    names = names + cases.pool_pick(109 if vk.THOROUGH else 22, chk.rng, only=None if vk.THOROUGH else lambda s: s["name"] in cases.POOL_SOLVED)
    for rec in cases.records(chk, names, trace=1, budget=800 if vk.THOROUGH else 180):
        S = Solved(rec)
        rng = random.Random(f"{rec['robot']}/{vk.SEED}")
        seen = {}
        states = []
        aux_all = []
        for k, e in rec["events"]:
            if k == "set_solved":
                u = e["unk"]
                for q in (u["eqn"], u["eqn2"]):
                    if q is not None:
                        seen.setdefault((sp.sympify(q[0]), sp.sympify(q[1])), f"solved-from:{u['solvemethod']}")
                continue
            if k not in ("robot_init", "scan", "soa", "tick"):
                continue
            where = k if k != "tick" else e["leaf"]
            for q in e.get("aux", []):
                aux_all.append(q)
            src = [("matrix", els(e["meqs"]))] if e.get("meqs") else []
            src += [("definition", e.get("aux", []))]
            for L in ("l1", "l2", "l3p"):
                src.append(("list", e.get(L, [])))
            for L in e.get("lists", {}).values():
                src.append(("list", L))
            for kind, qs in src:
                for q in qs:
                    q = (sp.sympify(q[0]), sp.sympify(q[1]))
                    if q not in seen:
                        seen[q] = f"{where}:{kind}"
            if e.get("meqs"):
                st = els(e["meqs"])
                if not states or states[-1][1] != st:
                    states.append((where, st))
        q = (rec.get("meqs"), rec["R"]["aux"])
        for e in els(q[0]) + list(q[1]):
            seen.setdefault((sp.sympify(e[0]), sp.sympify(e[1])), "end")
        sums = {}
        for L, Rr in aux_all:
            L, Rr = sp.sympify(L), sp.sympify(Rr)
            if L.is_Symbol and L in S.unknowns and L not in S.joints and Rr.free_symbols <= set(S.joints):
                sums.setdefault(L, Rr)
        for c in range(6 if vk.THOROUGH else 2):
            vals, base, T = S.config(rng)
            full = {**vals, **base}
            num.add_sums(full, list(sums.items()))
            for eq, where in seen.items():
                t = true(S.ev, eq, full)
                chk.count("solve_equations_evaluated")
                if t is None:
                    missing = [str(s) for x in eq for s in x.free_symbols if s not in full]
                    chk.violation("undefined", dict(robot=rec["robot"], first_seen=where, equation=[str(x)[:400] for x in eq], without_value=missing))
                elif not t:
                    chk.violation(f"false:{where.split(':')[0]}", dict(robot=rec["robot"], first_seen=where, equation=[str(x)[:400] for x in eq]))
            if c == 0 and S.joints:
                r0 = rank(S.ev, sp, states[0][1], full, S.joints, {})
                for where, st in states[1:]:
                    r1 = rank(S.ev, sp, st, full, S.joints, sums)
                    if r0 is not None and r1 is not None:
                        chk.count("solve_ranks_compared")
                        if r1 != r0:
                            chk.violation(f"equations-lost:{where}", dict(robot=rec["robot"], rank_before=r0, rank_after=r1))
        chk.count("solve_distinct_equations", len(seen))
        chk.count("solve_rewritten_states", len(states) - 1)
        for w in set(seen.values()):
            chk.ev((rec["robot"], w), sample=f"{rec['robot']}: {len(seen)} distinct equations in {len(states)} states of the matrix equations, all true")


if __name__ == "__main__":
    chk = vk.Check("C03", rule="one evaluation = one leaf tick which rewrote random true matrix equations, after which every equation there is was evaluated, or one "
                   "(robot, place where equations appear); distinct = different equations and histories, or (robot, place)")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 25)
    solves(chk)
    chk.finish(minimum=300, need=dict(rewrites_sub=40, rewrites_soa=40, ranks_compared=80, solve_distinct_equations=1500, solve_ranks_compared=30))
