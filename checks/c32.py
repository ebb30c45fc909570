import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C32: each trigonometric solver takes the equations of its own form. The leaf is ticked on lists that hold equations of exactly
the shape it is for (as the scan produces them), among equations it must pass over; the oracle is that the unknown ends up solved."""
import leaf
import vk

KINDS = ["sincos", "sinANDcos", "tan", "tan-factor", "simu"]


def canonical(g, kind, rng):
    """(one-unknown list, two-unknown list) of equations of the solver's form"""
    import sympy as sp
    u, kc = g.u, g.kc

    def put(e, lhs=None):
        """known left side = expression of u, or 0 = difference, as the scan hands them over"""
        k = rng.random()
        lhs = g.newpose() * rng.choice([1, -1]) if lhs is None and len(g.pose) > 3 else (lhs if lhs is not None else sp.S.Zero)
        if k < .5:
            return kc.kequation(lhs, e)
        if k < .75:
            return kc.kequation(sp.S.Zero, e - lhs)
        return kc.kequation(lhs + g.coef(), e)

    def extra():
        return g.coef() if rng.random() < .5 else sp.S.Zero

    def sub(c, f, whole=True):
        """c*f, sometimes as two terms"""
        d = g.coef()
        return c * f + d * f if whole and rng.random() < .2 and sp.expand(c + d) != 0 else c * f

    def nonzero():
        while True:
            c = g.coef()
            if sp.expand(c) != 0:
                return c

    A, B = nonzero(), nonzero()
    if kind == "sincos":
        return [put(sub(A, rng.choice([sp.sin, sp.cos])(u)) + extra())], []
    if kind == "sinANDcos":
        k = rng.random()
        if k < .15:
            B = A
        elif k < .25:
            B = -A
        if rng.random() < .2:       # not multiplied out
            e = put(A * (sp.sin(u) + B * sp.cos(u) + extra()) + extra())
        else:
            e = put(sub(A, sp.sin(u)) + sub(B, sp.cos(u)) + extra())
        if rng.random() < .25:
            e = kc.kequation(e.RHS, e.LHS)
        return [e], []
    if kind.startswith("tan"):
        fac = sp.S.One
        if kind == "tan-factor":
            v = sp.Symbol(g.unsolved[0])
            fac = v if str(v).startswith("d") else rng.choice([sp.sin, sp.cos])(v)
        e1 = put(sub(A * fac, sp.sin(u), fac == 1) + (extra() if fac == 1 or rng.random() < .5 else 0))
        e2 = put(sub(B * fac, sp.cos(u), fac == 1) + (extra() if fac == 1 or rng.random() < .5 else 0))
        return ([e1, e2], []) if fac == 1 else ([], [e1, e2])
    if kind == "simu":
        def sub2(c, f):             # written in one way or the other
            return rng.choice([c * f, sp.expand(c) * f, sp.expand(c * f)])
        k = rng.random()
        if k < .1:
            A = sp.S.Zero
        elif k < .2:
            B = sp.S.Zero
        e1 = put(sub2(A, sp.sin(u)) + sub2(B, sp.cos(u)))
        s = rng.choice([1, -1])
        e2 = put(s * sub2(A, sp.cos(u)) - s * sub2(B, sp.sin(u)))
        es = rng.sample([e1, e2], 2)
        if rng.random() < .3:       # the same equation again, or with the other sign
            c = rng.choice(es)
            es.insert(1, rng.choice([kc.kequation(c.LHS, c.RHS), kc.kequation(-c.LHS, -c.RHS), kc.kequation(c.RHS, c.LHS)]))
        return es, []


def distractors(g, kind, rng):
    """equations each solver passes over: of other unknowns, without unknowns, or with the unknown in a shape it leaves to others"""
    import sympy as sp
    u = g.u
    one = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.random()
        if k < .4:
            one.append(g.other_equation())
        elif k < .6:
            one.append(g.kc.kequation(g.coef(), g.coef()))
        elif kind == "sincos":
            one.append(g.kc.kequation(sp.S.Zero, g.coef() * sp.sin(u) + g.coef() * sp.cos(u) + g.coef()))
        elif kind == "sinANDcos":
            one.append(g.kc.kequation(g.coef(), g.coef() * rng.choice([sp.sin(u), sp.cos(u), u])))
        elif kind.startswith("tan"):
            f = rng.choice([sp.sin, sp.cos])(u)
            one.append(g.kc.kequation(sp.S.Zero, rng.choice([g.coef() * sp.sin(u) + g.coef() * sp.cos(u) + g.coef(), g.coef() * f ** 2 + g.coef(),
                                                              (g.coef() * f + g.coef()) * sp.cos(sp.Symbol("th_9")) + g.coef()])))
        else:
            one.append(g.kc.kequation(g.coef(), g.coef() * rng.choice([sp.sin(u), sp.cos(u), u])))
    return [e for e in one if g.n_unknowns(e) <= 1]


def work(rec):
    import b3
    import sympy as sp
    import ikbtleaves.sinANDcos_solver as msac
    import ikbtleaves.sincos_solver as msc
    import ikbtleaves.tan_solver as mtan
    import ikbtleaves.two_eqn_m7 as msim
    leaves = {"sincos": (msc.sincos_id, msc.sincos_solve), "sinANDcos": (msac.sinandcos_id, msac.sinandcos_solve),
              "tan": (mtan.tan_id, mtan.tan_solve), "tan-factor": (mtan.tan_id, mtan.tan_solve), "simu": (msim.simu_id, msim.simu_solver)}
    rng = rec.rng
    n, limit = 0, 60000 if rec.thorough else 1500
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(20):
            kind = rng.choice(KINDS)
            g = leaf.Gen(rng, "angle", n_unsolved=rng.randint(1, 2) if kind == "tan-factor" else None)
            one, two = canonical(g, kind, rng)
            forms = [repr(e) for e in one + two]
            if any(g.n_unknowns(e) != (2 if e in two else 1) for e in one + two) or not all(sp.expand(e.RHS - e.LHS).has(g.u) for e in one + two):
                continue
            one = one + distractors(g, kind, rng)
            rng.shuffle(one)
            w = dict(leaf.wit(g, one + two), form=kind, of_the_form=forms)
            bb = leaf.blackboard(g, one, two)
            o = g.objs[g.u_name]
            try:
                s1, s2 = leaf.run_leaves(leaf.instances(*leaves[kind]), bb)
            except Exception as e:
                rec.violation(f"raised:{kind}:{type(e).__name__}", dict(w, error=repr(e)))
                continue
            rec.ev(str(w["equations"]) + g.u_name, sample=f"{kind}: {g.u_name} in {forms} -> {[str(s) for s in o.solutions]}")
            rec.count("offered_" + kind.replace("-", "_"))
            if s1 != b3.SUCCESS or s2 != b3.SUCCESS or not o.solutions:
                rec.violation(f"not-taken:{kind}", dict(w, identify=s1, solve=s2, solutions=[str(s) for s in o.solutions]))
            else:
                rec.count("taken_" + kind.replace("-", "_"))


if __name__ == "__main__":
    chk = vk.Check("C32", rule="one evaluation = one tick of a trigonometric solver's leaf pair on an equation list that holds equations of exactly the form it is for; "
                   "distinct = different equation lists")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 15)
    chk.finish(minimum=400, need={f"taken_{k.replace('-', '_')}": 40 for k in KINDS})
