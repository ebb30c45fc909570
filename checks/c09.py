import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C09: the simultaneous-equation leaf on random equation lists (true angle of consistent pairs as oracle), and in full solves."""
import math

import leaf
import num
import vk


def work(rec):
    import b3
    import sympy as sp
    import ikbtleaves.two_eqn_m7 as m
    rng = rec.rng
    n, limit = 0, 40000 if rec.thorough else 900
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(20):
            g = leaf.Gen(rng, "angle")
            u = g.u
            eqs = []
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                eqs.append(g.hostile())
            for _ in range(rng.choice([0, 0, 1])):
                eqs.append(g.other_equation())
            for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
                A, B = g.coef(), g.coef()
                k = rng.random()
                if k < .12:
                    B = sp.S.Zero
                elif k < .24:
                    A = sp.S.Zero
                elif k < .3:
                    B = A
                A2, B2 = A, B
                # near misses: mixed signs, other coefficients
                j = rng.random()
                if j < .1:
                    A2 = -A
                elif j < .2:
                    B2 = -B
                elif j < .28:
                    A2 = A + g.known()
                elif j < .34:
                    A2, B2 = B, A
                add = lambda: (g.additive(pose=True) if len(g.pose) > 2 and rng.random() < .85 else rng.choice([g.coef(), sp.S.Zero]))   # noqa: E731
                e1 = A * sp.sin(u) + B * sp.cos(u) + add()
                e2 = rng.choice([1, 1, -1]) * (A2 * sp.cos(u) - B2 * sp.sin(u)) + add()
                for e in rng.sample([e1, e2], 2):
                    eqs.append(g.equation(e))
            eqs = [e for e in eqs if g.n_unknowns(e) <= 1]
            if rng.random() < .5:
                rng.shuffle(eqs)
            offered = [(e.LHS, e.RHS) for e in eqs]
            w = leaf.wit(g, eqs)
            bb = leaf.blackboard(g, eqs)
            o = g.objs[g.u_name]
            others = {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o}
            done = len(g.solved)
            try:
                s1, s2 = leaf.run_leaves(leaf.instances(m.simu_id, m.simu_solver), bb)
            except Exception as e:
                rec.violation(f"raised:{type(e).__name__}", dict(w, error=repr(e)))
                continue
            rec.ev(str(w["equations"]) + g.u_name, sample=f"{g.u_name} in {w['equations'][:3]} -> {[str(s) for s in o.solutions]}")
            if {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o} != others:
                rec.violation("other-unknown-changed", w)
            if any(sp.sympify(a - e.LHS) != 0 or sp.sympify(b - e.RHS) != 0 for (a, b), e in zip(offered, eqs)):
                rec.violation("equations-modified", w)
            if not o.solved:
                rec.count("declined")
                if o.solutions or s2 == b3.SUCCESS:
                    rec.violation("success-without-solution", dict(w, solutions=str(o.solutions)))
                continue
            rec.count("solved")
            sols = list(o.solutions)
            w["solutions"] = [str(s) for s in sols]
            w["pair"] = [repr(o.eqntosolve), repr(o.secondeqn)]
            if s2 != b3.SUCCESS or len(sols) != 1 or o.nsolutions != 1 or o.solveorder != done + 1 or "simultaneous" not in o.solvemethod:
                rec.violation("not-one-recorded-solution", dict(w, status=s2, n=o.nsolutions, method=o.solvemethod))
            if not leaf.check_form(rec, g, sols, w):
                continue
            src1, src2 = leaf.matches_offered(g, o.eqntosolve, eqs, rng), leaf.matches_offered(g, o.secondeqn, eqs, rng)
            if not src1 or not src2:
                rec.violation("equation-was-not-offered", w)
                continue
            e1, e2 = src1[0], src2[0]
            for k in range(6):
                u0 = rng.uniform(-math.pi, math.pi)
                vals = g.values([e1, e2], u0)
                if vals is None:
                    # no free pose symbol: nothing to adjust; the pair may be inconsistent
                    rec.count("pair_not_adjustable")
                    continue
                def at(e, t):
                    p = dict(vals)
                    p[u] = t
                    return leaf.EV(e, p)
                A = at(e1, math.pi / 2), at(e1, -math.pi / 2), at(e1, 0.0), at(e1, math.pi)
                if None in A or math.hypot((A[0] - A[1]) / 2, (A[2] - A[3]) / 2) < 1e-2:
                    continue
                got = [leaf.EV(s, vals) for s in sols]
                rec.count("true_angles_looked_for")
                if not all(x is not None and num.angdiff(x, u0) < 1e-5 for x in got):
                    rec.violation("true-angle-lost", dict(w, true=u0, got=got))


if __name__ == "__main__":
    chk = vk.Check("C09", rule="one evaluation = one tick of the simultaneous-equation leaf pair on a random equation list, its solution compared with the true angle "
                   "of consistent pairs; plus every unknown it solved in full runs; distinct = different equation lists")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 25)
    import cases
    leaf.observe(chk, "C09", cases.SOLVED if vk.THOROUGH else ["Puma", "KR16", "KawasakiRS007L", "Khat6DOF", "Frei13", "Minder13", "Srisuan11", "Olson13"])
    chk.finish(minimum=1500, need=dict(solved=300, declined=200, true_angles_looked_for=1000, solved_in_full_runs=1))
