import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C05: the linear (algebra) leaf on random equation lists, against the offered equations themselves; and in full solves."""
import leaf
import vk


def work(rec):
    import b3
    import sympy as sp
    import ikbtleaves.algebra_solver as m
    rng = rec.rng
    n, limit = 0, 60000 if rec.thorough else 2500
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(20):
            g = leaf.Gen(rng, rng.choice(["angle", "length"]))
            u = g.u
            eqs, linear = [], []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                eqs.append(g.hostile())
            for _ in range(rng.choice([0, 0, 1, 2])):
                eqs.append(g.other_equation())
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                A = g.coef()
                k = rng.random()
                e = A * u + g.additive(pose=len(g.pose) > 3)
                if k < .15:
                    e = A * (u + g.coef()) + g.additive(pose=len(g.pose) > 3)
                elif k < .25 and g.solved:      # definition of a sum of angles
                    e = u - sum([sp.Symbol(x) for x in g.solved[:rng.randint(1, 3)]], sp.S.Zero)
                elif k < .32:
                    e = A * u + g.coef() * u + g.additive(pose=len(g.pose) > 3)
                q = g.equation(e)
                eqs.append(q)
                c = sp.expand(sp.diff(e, u))
                if c != 0 and g.n_unknowns(q) == 1:
                    linear.append(q)
            eqs = [e for e in eqs if g.n_unknowns(e) <= 1]
            rng.shuffle(eqs)
            offered = [(e.LHS, e.RHS) for e in eqs]
            w = leaf.wit(g, eqs)
            bb = leaf.blackboard(g, eqs)
            o = g.objs[g.u_name]
            others = {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o}
            done = len(g.solved)
            try:
                s1, s2 = leaf.run_leaves(leaf.instances(m.algebra_id, m.algebra_solve), bb)
            except Exception as e:
                rec.violation(f"raised:{type(e).__name__}", dict(w, error=repr(e)))
                continue
            rec.ev(str(w["equations"]) + g.u_name, sample=f"{g.u_name} in {w['equations'][:3]} -> {[str(s) for s in o.solutions]}")
            if {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o} != others:
                rec.violation("other-unknown-changed", w)
            if any(sp.sympify(a - e.LHS) != 0 or sp.sympify(b - e.RHS) != 0 for (a, b), e in zip(offered, eqs)):
                rec.violation("equations-modified", w)
            if not o.solved:
                rec.count("declined")
                if s2 == b3.SUCCESS or o.solutions:
                    rec.violation("success-without-solution", dict(w, solutions=str(o.solutions)))
                if linear:
                    rec.violation("linear-equation-not-solved", dict(w, linear=[repr(x) for x in linear]))
                continue
            rec.count("solved")
            w["solutions"] = [str(s) for s in o.solutions]
            if s2 != b3.SUCCESS or len(o.solutions) != 1 or o.nsolutions != 1 or o.solveorder != done + 1 or "algebra" not in o.solvemethod:
                rec.violation("not-one-recorded-solution", dict(w, status=s2, n=o.nsolutions))
            if not leaf.check_form(rec, g, o.solutions, w):
                continue
            src = leaf.matches_offered(g, o.eqntosolve, eqs, rng)
            if not src:
                rec.violation("equation-was-not-offered", dict(w, equation=repr(o.eqntosolve)))
                continue
            for e in src[:1]:
                for _ in range(3):
                    vals = g.values()
                    s = leaf.EV(o.solutions[0], vals)
                    if s is None:
                        continue
                    vals[u] = s
                    r = leaf.EV(e, vals)
                    rec.count("solutions_put_back")
                    scale = 1 + max(abs(leaf.EV(t, vals) or 0) for t in sp.Add.make_args(e))
                    if r is None or abs(r) > leaf.TOL * scale:
                        rec.violation("does-not-satisfy-equation", dict(w, equation=str(e), residual=r, value=s))


if __name__ == "__main__":
    chk = vk.Check("C05", rule="one evaluation = one tick of the algebra leaf pair on a random equation list, its outcome compared with the equations offered; "
                   "plus every unknown it solved in full runs of the solver; distinct = different equation lists")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 22)
    import cases
    leaf.observe(chk, "C05", cases.SOLVED if vk.THOROUGH else ["Craig417", "Stanford", "Chair_Helper", "Sims11", "MiniDD", "Bartell", "Palm13", "Brad", "Puma"])
    chk.finish(minimum=1500, need=dict(solved=400, declined=200, solutions_put_back=800, solved_in_full_runs=8))
