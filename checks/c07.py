import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C07: the sine-and-cosine leaf on random equation lists (numeric roots as oracle), and in full solves."""
import math

import leaf
import num
import vk


def work(rec):
    import b3
    import sympy as sp
    import ikbtleaves.sinANDcos_solver as m
    rng = rec.rng
    n, limit = 0, 40000 if rec.thorough else 1200
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(20):
            g = leaf.Gen(rng, "angle")
            u = g.u
            eqs = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                eqs.append(g.hostile())
            for _ in range(rng.choice([0, 0, 1, 2])):
                eqs.append(g.other_equation())
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                A, B = g.coef(), g.coef()
                k = rng.random()
                if k < .12:
                    B = A
                elif k < .2:
                    B = -A
                add = g.additive(pose=True) if rng.random() < .75 and len(g.pose) > 3 else sp.S.Zero
                if k > .92:
                    add = g.coef()
                e = A * sp.sin(u) + B * sp.cos(u) + add
                if .2 < k < .35:
                    e = A * (sp.sin(u) + g.coef() * sp.cos(u)) + B * sp.cos(u) + add
                elif .35 < k < .5:
                    e = A * sp.sin(u) + g.coef() * sp.sin(u) + B * sp.cos(u) + add
                eqs.append(g.equation(e))
            eqs = [e for e in eqs if g.n_unknowns(e) <= 1]
            rng.shuffle(eqs)
            offered = [(e.LHS, e.RHS) for e in eqs]
            w = leaf.wit(g, eqs)
            bb = leaf.blackboard(g, eqs)
            o = g.objs[g.u_name]
            others = {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o}
            done = len(g.solved)
            try:
                s1, s2 = leaf.run_leaves(leaf.instances(m.sinandcos_id, m.sinandcos_solve), bb)
            except Exception as e:
                rec.violation(f"raised:{type(e).__name__}", dict(w, error=repr(e)))
                continue
            rec.ev(str(w["equations"]) + g.u_name, sample=f"{g.u_name} in {w['equations'][:3]} -> {[str(s) for s in o.solutions]}")
            if {x.name: (x.solved, len(x.solutions)) for x in g.unknowns if x is not o} != others:
                rec.violation("other-unknown-changed", w)
            if any(sp.sympify(a - e.LHS) != 0 or sp.sympify(b - e.RHS) != 0 for (a, b), e in zip(offered, eqs)):
                rec.violation("equations-modified", w)
            if not o.solved:
                rec.count("declined")
                if o.solutions or (s1 == b3.SUCCESS and s2 == b3.SUCCESS):
                    rec.violation("success-without-solution", dict(w, solutions=str(o.solutions)))
                continue
            rec.count("solved")
            sols = list(o.solutions)
            w["solutions"] = [str(s) for s in sols]
            w["equation"] = repr(o.eqntosolve)
            if s2 != b3.SUCCESS or len(sols) != 2 or o.nsolutions != 2 or o.solveorder != done + 1 or "sinANDcos" not in o.solvemethod:
                rec.violation("not-recorded", dict(w, status=s2, n=o.nsolutions, method=o.solvemethod))
            if not leaf.check_form(rec, g, sols, w):
                continue
            src = leaf.matches_offered(g, o.eqntosolve, eqs, rng)
            if not src:
                rec.violation("equation-was-not-offered", w)
                continue
            e = src[0]
            for k in range(7):
                u0 = None
                if k < 5:
                    u0 = rng.uniform(-math.pi, math.pi)
                    vals = g.values([e], u0)
                    if vals is None:
                        vals, u0 = g.values(), None
                else:
                    vals = g.values()
                # numeric form A sin + B cos = C of the equation at these values
                def at(t):
                    p = dict(vals)
                    p[u] = t
                    return leaf.EV(e, p)
                e0, e1, e2 = at(0.0), at(math.pi / 2), at(math.pi)
                if None in (e0, e1, e2):
                    continue
                C = -(e0 + e2) / 2
                B, A = (e0 - e2) / 2, e1 + C
                r = math.hypot(A, B)
                if r < 1e-3:
                    continue
                got = [leaf.EV(s, vals) for s in sols]
                if abs(C) <= r * (1 - 1e-7):
                    base, half = math.atan2(A, B), math.acos(max(-1, min(1, C / r)))
                    rec.count("true_roots_looked_for", 2)
                    for root in (base + half, base - half):
                        if not any(x is not None and num.angdiff(x, root) < 1e-5 for x in got):
                            rec.violation("root-lost", dict(w, root=root, got=got, A=A, B=B, C=C))
                elif abs(C) > r * (1 + 1e-6):
                    rec.count("without_real_root")
                for x in got:
                    if x is None:
                        continue
                    v = at(x)
                    rec.count("solutions_put_back")
                    if v is None or abs(v) > leaf.TOL * (1 + r + abs(C)):
                        rec.violation("does-not-satisfy-equation", dict(w, residual=v, value=x, A=A, B=B, C=C))


if __name__ == "__main__":
    chk = vk.Check("C07", rule="one evaluation = one tick of the sine-and-cosine leaf pair on a random equation list, its solutions compared with numeric roots "
                   "of the equation used; plus every unknown it solved in full runs; distinct = different equation lists")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 25)
    import cases
    leaf.observe(chk, "C07", cases.SOLVED if vk.THOROUGH else ["Puma", "KR16", "Pumaoffset", "DZhang", "Khat6DOF", "Srisuan11", "Olson13", "Stanford", "Mackler13"])
    chk.finish(minimum=1500, need=dict(solved=300, declined=200, true_roots_looked_for=1000, without_real_root=50, solutions_put_back=1000, solved_in_full_runs=3))
