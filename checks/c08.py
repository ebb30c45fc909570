import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C08: the two-argument-arctangent leaf on random equation lists (true angle of consistent pairs as oracle), and in full solves."""
import math

import leaf
import num
import vk


def work(rec):
    import b3
    import sympy as sp
    import ikbtleaves.tan_solver as m
    rng = rec.rng
    n, limit = 0, 40000 if rec.thorough else 2000
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(20):
            g = leaf.Gen(rng, "angle")
            u = g.u
            one, two = [], []
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                one.append(g.hostile())
            for _ in range(rng.choice([0, 0, 1])):
                one.append(g.other_equation())
            for _ in range(rng.choice([0, 0, 1])):
                two.append(g.other_equation(2))
            for _ in range(rng.choice([1, 1, 1, 2])):
                A, C = g.coef(), g.coef()
                k = rng.random()
                fac = sp.S.One
                if k < .4 and g.unsolved:
                    v = sp.Symbol(rng.choice(g.unsolved))
                    fac = v if str(v).startswith("d") else rng.choice([sp.sin, sp.cos])(v)
                    if rng.random() < .1:
                        fac = fac * g.coef(allow_sum=False)
                elif k < .5:
                    C = A
                elif k < .55:
                    C = -A
                lone = rng.random() < .15       # one equation holds the factor, the other does not: not a usable pair
                e1 = A * fac * sp.sin(u) + (g.additive(pose=True) if len(g.pose) > 2 else g.coef())
                e2 = C * (1 if lone else fac) * sp.cos(u) + (g.additive(pose=True) if len(g.pose) > 2 else g.coef())
                for e in (e1, e2):
                    if rng.random() < .12:
                        e = e + g.coef() * rng.choice([u, sp.sin(u) * sp.cos(u), sp.sin(2 * u)])
                    q = g.equation(e)
                    (one if g.n_unknowns(q) <= 1 else two).append(q)
            rng.shuffle(one)
            rng.shuffle(two)
            one = [e for e in one if g.n_unknowns(e) <= 1]
            eqs = one + two
            offered = [(e.LHS, e.RHS) for e in eqs]
            w = leaf.wit(g, eqs)
            bb = leaf.blackboard(g, one, two)
            o = g.objs[g.u_name]
            others = {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o}
            try:
                s1, s2 = leaf.run_leaves(leaf.instances(m.tan_id, m.tan_solve), bb)
            except Exception as e:
                rec.violation(f"raised:{type(e).__name__}", dict(w, error=repr(e)))
                continue
            rec.ev(str(w["equations"]) + g.u_name, sample=f"{g.u_name} in {w['equations'][:3]} -> {[str(s) for s in o.solutions]}")
            if {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o} != others:
                rec.violation("other-unknown-changed", w)
            if any(sp.sympify(a - e.LHS) != 0 or sp.sympify(b - e.RHS) != 0 for (a, b), e in zip(offered, eqs)):
                rec.violation("equations-modified", w)
            if o.solved:
                rec.violation("solved-before-ranking", w)
            if s2 != b3.SUCCESS:
                rec.count("declined")
                if o.solutions or o.tan_solutions:
                    rec.violation("solutions-although-declined", dict(w, solutions=str(o.solutions)))
                continue
            rec.count("solved")
            sols = list(o.solutions)
            w["solutions"] = [str(s) for s in sols]
            w["pair"] = [repr(o.eqntosolve), repr(o.secondeqn)]
            if o.nsolutions != len(sols) or list(o.tan_solutions) != sols or len(o.tan_eqnlist) != 2 or o.tan_eqnlist[0] is not o.eqntosolve or o.tan_eqnlist[1] is not o.secondeqn:
                rec.violation("candidates-for-ranking", dict(w, n=o.nsolutions, candidates=str(o.tan_solutions), equations=str(o.tan_eqnlist)))
            if "atan2" not in o.solvemethod:
                rec.violation("method-name", dict(w, method=o.solvemethod))
            if not leaf.check_form(rec, g, sols, w):
                continue
            src1, src2 = leaf.matches_offered(g, o.eqntosolve, eqs, rng), leaf.matches_offered(g, o.secondeqn, eqs, rng)
            if not src1 or not src2:
                rec.violation("equation-was-not-offered", w)
                continue
            e1, e2 = src1[0], src2[0]
            unk = [x for x in g.unsolved if e1.has(sp.Symbol(x)) or e2.has(sp.Symbol(x))]
            itself = any(e.subs({sp.sin(u): sp.Symbol("S"), sp.cos(u): sp.Symbol("C")}).has(u) for e in (e1, e2))     # u*sin(u): u is the factor
            want = 2 if unk or itself else 1
            rec.count(f"pairs_with_{want}_solutions")
            if len(sols) != want:
                rec.violation("number-of-solutions", dict(w, want=want))
            for k in range(6):
                u0 = rng.uniform(-math.pi, math.pi) if k < 5 else rng.choice([math.pi / 2, -math.pi / 2, 3.0, -3.0])
                vals = g.values([e1, e2], u0)
                if vals is None:
                    continue
                # true coefficients: A = E(pi/2)-E(0) ...
                def at(e, t):
                    p = dict(vals)
                    p[u] = t
                    return leaf.EV(e, p)
                A, C = at(e1, math.pi / 2), at(e2, 0.0)
                b, d = at(e1, 0.0), at(e2, math.pi / 2)
                if None in (A, C, b, d) or abs(A - b) < 1e-3 or abs(C - d) < 1e-3:
                    continue
                got = [leaf.EV(s, vals) for s in sols]
                rec.count("true_angles_looked_for")
                if not any(x is not None and num.angdiff(x, u0) < 1e-5 for x in got):
                    rec.violation("true-angle-lost", dict(w, true=u0, got=got))
                for x in got:
                    if x is not None and num.angdiff(x, u0) > 1e-5 and not (want == 2 and num.angdiff(x, u0 + math.pi) < 1e-5):
                        rec.violation("spurious-angle", dict(w, true=u0, got=got))


if __name__ == "__main__":
    chk = vk.Check("C08", rule="one evaluation = one tick of the two-argument-arctangent leaf pair on random one- and two-unknown equation lists, its solutions compared "
                   "with the true angle of consistent pairs; plus every unknown it solved in full runs; distinct = different equation lists")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 25)
    import cases
    leaf.observe(chk, "C08", cases.SOLVED if vk.THOROUGH else ["Puma", "Wrist", "Craig417", "DZhang", "Palm13", "Frei13", "Stanford", "Minder13"])
    chk.finish(minimum=1500, need=dict(solved=300, declined=200, pairs_with_1_solutions=100, pairs_with_2_solutions=30, true_angles_looked_for=1000, solved_in_full_runs=5))
