import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C06: the arcsine/arccosine leaf on random equation lists (numeric roots as oracle), and in full solves."""
import math

import leaf
import num
import vk


def work(rec):
    import b3
    import sympy as sp
    import ikbtleaves.sincos_solver as m
    rng = rec.rng
    n, limit = 0, 40000 if rec.thorough else 1500
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(20):
            g = leaf.Gen(rng, "angle")
            u = g.u
            eqs = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                eqs.append(g.hostile())
            for _ in range(rng.choice([0, 0, 1, 2])):
                eqs.append(g.other_equation())
            clean = []
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                f = rng.choice([sp.sin, sp.cos])
                A = g.coef()
                k = rng.random()
                e = A * f(u) + g.additive(pose=len(g.pose) > 3)
                if k < .15:
                    e = A * (f(u) + g.coef()) + g.additive(pose=len(g.pose) > 3)
                elif k < .3:
                    e = A * f(u) + g.coef() * f(u) + g.additive(pose=len(g.pose) > 3)
                q = g.equation(e)
                eqs.append(q)
                clean.append((q, f, sp.sympify(e)))
            eqs = [e for e in eqs if g.n_unknowns(e) <= 1]
            rng.shuffle(eqs)
            offered = [(e.LHS, e.RHS) for e in eqs]
            w = leaf.wit(g, eqs)
            bb = leaf.blackboard(g, eqs)
            o = g.objs[g.u_name]
            others = {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o}
            try:
                s1, s2 = leaf.run_leaves(leaf.instances(m.sincos_id, m.sincos_solve), bb)
            except Exception as e:
                rec.violation(f"raised:{type(e).__name__}", dict(w, error=repr(e)))
                continue
            rec.ev(str(w["equations"]) + g.u_name, sample=f"{g.u_name} in {w['equations'][:3]} -> {[str(s) for s in o.solutions]}")
            if {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o} != others:
                rec.violation("other-unknown-changed", w)
            if any(sp.sympify(a - e.LHS) != 0 or sp.sympify(b - e.RHS) != 0 for (a, b), e in zip(offered, eqs)):
                rec.violation("equations-modified", w)
            if o.solved:
                rec.violation("solved-before-ranking", w)
            if s2 != b3.SUCCESS:
                rec.count("declined")
                if o.solutions or o.sincos_solutions:
                    rec.violation("solutions-although-declined", dict(w, solutions=str(o.solutions)))
                # a pair with which the leaf has nothing to do but read off the answer: u on the right only
                continue
            rec.count("solved")
            sols = list(o.solutions)
            w["solutions"] = [str(s) for s in sols]
            w["equation"] = repr(o.eqntosolve)
            if len(sols) != 2 or o.nsolutions != 2 or list(o.sincos_solutions) != sols or len(o.sincos_eqnlist) != 1 or o.sincos_eqnlist[0] is not o.eqntosolve:
                rec.violation("candidates-for-ranking", dict(w, n=o.nsolutions, candidates=str(o.sincos_solutions), equations=str(o.sincos_eqnlist)))
            if not leaf.check_form(rec, g, sols, w):
                continue
            src = leaf.matches_offered(g, o.eqntosolve, eqs, rng)
            if not src:
                rec.violation("equation-was-not-offered", w)
                continue
            f = sp.sin if o.eqntosolve.RHS.has(sp.sin(u)) or o.eqntosolve.LHS.has(sp.sin(u)) else sp.cos
            rec.count("arcsine" if f is sp.sin else "arccosine")
            if ("arcsin" in o.solvemethod) != (f is sp.sin):
                rec.violation("method-name", dict(w, method=o.solvemethod))
            e = src[0]
            for k in range(6):
                if k < 4:           # completeness: make the equation true at a chosen angle
                    u0 = rng.choice([rng.uniform(-math.pi, math.pi), rng.uniform(-math.pi, math.pi), rng.choice([.3, -.3, 2.8, -2.8, 1.2])])
                    vals = g.values([e], u0)
                    if vals is None:
                        vals = g.values()
                        u0 = None
                else:               # soundness anywhere
                    vals, u0 = g.values(), None
                got = [leaf.EV(s, vals) for s in sols]
                if u0 is not None:
                    other = math.pi - u0 if f is sp.sin else -u0
                    A = leaf.EV(sp.diff(e, u), vals)
                    if A is None or abs(A) < 1e-3:
                        continue
                    rec.count("true_roots_looked_for", 2)
                    for r in (u0, other):
                        if not any(x is not None and num.angdiff(x, r) < 1e-5 for x in got):
                            rec.violation("root-lost", dict(w, root=r, got=got))
                for x in got:
                    if x is None:
                        continue
                    p = dict(vals)
                    p[u] = x
                    r = leaf.EV(e, p)
                    scale = 1 + max(abs(leaf.EV(t, p) or 0) for t in sp.Add.make_args(e))
                    rec.count("solutions_put_back")
                    if r is None or abs(r) > leaf.TOL * scale:
                        rec.violation("does-not-satisfy-equation", dict(w, residual=r, value=x))


if __name__ == "__main__":
    chk = vk.Check("C06", rule="one evaluation = one tick of the arcsine/arccosine leaf pair on a random equation list, its solutions compared with numeric roots "
                   "of the equation used; plus every unknown it solved in full runs; distinct = different equation lists")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 25)
    import cases
    leaf.observe(chk, "C06", cases.SOLVED if vk.THOROUGH else ["Craig417", "Stanford", "Wrist", "Bartell", "DZhang", "Puma", "Srisuan11", "Olson13", "S000", "S001", "S002", "S003"])
    chk.finish(minimum=1500, need=dict(solved=300, declined=300, arcsine=100, arccosine=100, true_roots_looked_for=1000, solutions_put_back=1000, solved_in_full_runs=3))
