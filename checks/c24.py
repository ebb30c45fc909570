import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C24: algebraic laws of ==, != and hash for equations, unknowns, solution nodes and edges, observed on random families of
objects built from the same and from different contents, in sets and dictionaries, before and after copying and pickling."""
import copy
import pickle

import vk


def work(rec):
    import sympy as sp
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik      # noqa: F401
    import ikbtbasics.solutionGraphV3 as sg
    import num
    rng = rec.rng
    ev = num.Ev()
    names = ["th_1", "th_2", "th_3", "th_12", "d_1", "d_3", "a_2", "a_3", "l_1", "r_11", "r_13", "r_33", "Px", "Py", "Pz"]
    S = {n: sp.Symbol(n) for n in names}
    POINTS = [{s: rng.uniform(0.3, 2.7) for s in S.values()} for _ in range(4)]

    def expr(depth=2):
        k = rng.random()
        if depth == 0 or k < 0.25:
            return rng.choice([S[rng.choice(names)], S[rng.choice(names)], sp.Integer(rng.randint(-2, 3)), sp.S.Zero])
        if k < 0.5:
            return rng.choice([sp.sin, sp.cos])(expr(depth - 1) if rng.random() < .3 else S[rng.choice(names[:4])])
        if k < 0.75:
            return expr(depth - 1) + expr(depth - 1)
        if k < 0.95:
            return expr(depth - 1) * expr(depth - 1)
        return expr(depth - 1) ** 2

    def rewrite(e):
        """another way to write the same expression; some of them sympy regards as the same, others not"""
        k = rng.randrange(9)
        try:
            if k == 0:
                return sp.sympify(str(e), locals=S)
            if k == 1:
                return sp.expand(e)
            if k == 2:
                return sp.factor(e)
            if k == 3:
                return 1.0 * e
            if k == 4:
                return -(-e)
            if k == 5:
                return e + S["Px"] - S["Px"]
            if k == 6:
                return sp.Mul(2, e, evaluate=False) / 2
            if k == 7 and e.is_Integer:
                return int(e)
            if k == 8 and e.is_number:
                return float(e)
        except Exception:
            pass
        return e

    def value(side):
        return [ev(sp.sympify(side), p) for p in POINTS]

    def differ(x, y):
        return any(a is not None and b is not None and abs(a - b) > 1e-9 * (1 + abs(a)) for a, b in zip(value(x), value(y)))

    def ident(x, y):
        return sp.srepr(sp.sympify(x)) == sp.srepr(sp.sympify(y))

    def safe(what, f, wit):
        try:
            r = f()
        except Exception as e:
            rec.violation(f"raised:{what}:{type(e).__name__}", dict(wit, error=repr(e)))
            return None
        return r

    def truth(what, f, wit):
        r = safe(what, f, wit)
        if r is not None and r is not NotImplemented and not isinstance(r, (bool,)) and type(r).__name__ not in ("BooleanTrue", "BooleanFalse"):
            rec.violation(f"not-a-boolean:{what}", dict(wit, got=repr(r)))
        return None if r is None else bool(r)

    def laws(kind, objs, show, must=None, mustnot=None):
        """objs: family of objects. must(i,j)/mustnot(i,j): required verdicts."""
        n = len(objs)
        E = [[truth("==:" + kind, lambda: objs[i] == objs[j], dict(a=show(i), b=show(j))) for j in range(n)] for i in range(n)]
        H = [safe("hash:" + kind, lambda: hash(objs[i]), dict(a=show(i))) for i in range(n)]
        for i in range(n):
            if E[i][i] is False:
                rec.violation("not-reflexive:" + kind, dict(a=show(i)))
            if truth("==None:" + kind, lambda: objs[i] == None, dict(a=show(i))):       # noqa: E711
                rec.violation("equals-None:" + kind, dict(a=show(i)))
            if truth("!=None:" + kind, lambda: objs[i] != None, dict(a=show(i))) is False:   # noqa: E711
                rec.violation("equals-None:" + kind, dict(a=show(i)))
            if safe("hash:" + kind, lambda: hash(objs[i]), dict(a=show(i))) != H[i]:
                rec.violation("hash-changes:" + kind, dict(a=show(i)))
            for j in range(n):
                rec.ev((kind, show(i), show(j)), sample=f"{kind}: {show(i)} == {show(j)} is {E[i][j]}")
                w = dict(a=show(i), b=show(j))
                if E[i][j] is None:
                    continue
                if truth("!=:" + kind, lambda: objs[i] != objs[j], w) == E[i][j]:
                    rec.violation("eq-and-ne-agree-not:" + kind, w)
                if E[j][i] is not None and E[i][j] != E[j][i]:
                    rec.violation("not-symmetric:" + kind, w)
                if E[i][j]:
                    rec.count("equal_pairs_" + kind)
                    if H[i] != H[j]:
                        rec.violation("equal-but-hash-differs:" + kind, w)
                    if mustnot and mustnot(i, j):
                        rec.violation("different-but-equal:" + kind, w)
                    for k in range(n):
                        if E[j][k] and E[i][k] is False:
                            rec.violation("not-transitive:" + kind, dict(w, c=show(k)))
                else:
                    rec.count("unequal_pairs_" + kind)
                    if must and must(i, j):
                        rec.violation("same-but-unequal:" + kind, w)
        # sets and dictionaries see exactly the equality classes
        reps = []
        for o in objs:
            if not any(safe("==", lambda: o == r, {}) for r in reps):
                reps.append(o)
        order = list(objs)
        rng.shuffle(order)
        st = safe("set:" + kind, lambda: set(order), {})
        if st is not None:
            if len(st) != len(reps):
                rec.violation("set-size:" + kind, dict(objects=[show(i) for i in range(n)], size=len(st), classes=len(reps)))
            d = {}
            for o in order:
                d[o] = d.get(o, 0) + 1
            for o in objs:
                if o not in st or d.get(o) != sum(1 for p in objs if p == o):
                    rec.violation("set-membership:" + kind, dict(objects=[show(i) for i in range(n)]))
            rec.count("sets_" + kind)
            for how, f in (("pickle", lambda: pickle.loads(pickle.dumps((list(objs), st)))), ("deepcopy", lambda: copy.deepcopy((list(objs), st)))):
                r = safe(how + ":" + kind, f, {})
                if r is None:
                    continue
                o2, s2 = r
                rec.count("recreated_" + kind, n)
                for a, b in zip(objs, o2):
                    if kind == "equation" and not (ident(a.LHS, b.LHS) and ident(a.RHS, b.RHS)):
                        rec.count("expressions_sympy_rewrites_when_copying")    # factored numbers: 2*(x + 1) comes back as 2*x + 2
                        continue
                    if not (a == b and b == a) or hash(a) != hash(b) or b not in st or a not in s2:
                        rec.violation(f"{how}-not-equal:" + kind, dict(a=repr(a)))

    while not rec.over() and rec.evaluations < (60000 if rec.thorough else 6000):
        with rec.guard(20):
            # equations
            base = [(expr(), expr()) for _ in range(2)]
            if rng.random() < .4:
                base.append((base[0][0], base[1][1]))        # one side in common
            if rng.random() < .4:
                base.append((base[0][1], base[0][0]))        # sides exchanged
            if rng.random() < .3:
                base.append((-base[0][0], -base[0][1]))
            if rng.random() < .3:
                base.append((base[0][0] + base[0][1], sp.S.Zero))
            if rng.random() < .4:        # nearly, but not quite, the same
                t = rng.choice([sp.Rational(1, 1000), sp.Rational(1, 10 ** 6), sp.Float(1e-5), sp.Float(1e-7), -sp.Rational(1, 10 ** 7)])
                L, R = base[0]
                base.append(rng.choice([(L + t, R), (L, R + t), (L * (1 + t), R), (L, R + t * S["Px"])]))
                rec.count("nearly_equal_sides")
            sides = []
            for L, R in base:
                sides.append((L, R))
                for _ in range(rng.randint(1, 2)):
                    sides.append((rewrite(L), rewrite(R)))
            rng.shuffle(sides)
            eqs = [kc.kequation(L, R) for L, R in sides]
            laws("equation", eqs, lambda i: f"{sides[i][0]} = {sides[i][1]}",
                 must=lambda i, j: ident(sides[i][0], sides[j][0]) and ident(sides[i][1], sides[j][1]),
                 mustnot=lambda i, j: differ(sides[i][0], sides[j][0]) or differ(sides[i][1], sides[j][1]))
            # what a user does with equations must not change what they equal
            e = rng.choice(eqs)
            f = kc.kequation(e.LHS, e.RHS)
            h = hash(e)
            try:
                e.prt(), repr(e), e.LaTexOutput(rng.random() < .5)
            except Exception as x:
                rec.violation(f"raised:printing:{type(x).__name__}", dict(equation=repr(e), error=repr(x)))
            if e != f or hash(e) != h or hash(f) != h:
                rec.violation("changed-by-printing", dict(equation=repr(e)))
            # unknowns, in different states of solving
            us = [rng.choice(names[:7]) for _ in range(rng.randint(3, 6))]
            if rng.random() < .3:
                us.append(us[0] + "x")
            uo = []
            for nme in us:
                u = kc.unknown(sp.Symbol(nme) if rng.random() < .7 else sp.var(nme))
                if rng.random() < .5:
                    u.solved, u.solveorder, u.solutions, u.n = True, rng.randint(1, 5), [expr()], rng.randint(0, 6)
                    u.solvemethod, u.readytosolve = "x", rng.random() < .5
                    if rng.random() < .5:
                        u.dependencies.add(kc.unknown(S["th_3"]))
                if rng.random() < .2:
                    u.name = "renamed"
                uo.append(u)
            same = lambda i, j: us[i] == us[j]          # noqa: E731
            diff = lambda i, j: us[i] != us[j]          # noqa: E731
            laws("unknown", uo, lambda i: us[i], same, diff)
            u = uo[0]
            h = hash(u)
            u.solved, u.solveorder, u.solutions = not u.solved, 9, [expr()]
            if hash(u) != h or u != kc.unknown(sp.Symbol(us[0])) or u not in {kc.unknown(sp.Symbol(us[0]))}:
                rec.violation("unknown-changes-with-state", dict(unknown=us[0]))
            # nodes
            no = [sg.Node(u) for u in uo]
            for x in no:
                if rng.random() < .5:
                    x.solveorder, x.solutions, x.nsolutions = rng.randint(1, 6), [expr()], rng.randint(0, 3)
            laws("node", no, lambda i: us[i], same, diff)
            # edges
            sp_ = []
            for _ in range(rng.randint(3, 6)):
                i, j = rng.randrange(len(uo)), rng.randrange(len(uo))
                sp_.append((us[i], us[j], rng.choice([1, 1, 1, 2]), i, j))
                if rng.random() < .5:
                    sp_.append((us[j], us[i], sp_[-1][2], j, i))
            use = rng.choice([uo, no])
            ed = [sg.Edge(use[i], use[j], m) if m != 1 or rng.random() < .5 else sg.Edge(use[i], use[j]) for _, _, m, i, j in sp_]
            laws("edge", ed, lambda i: str(sp_[i][:3]), lambda i, j: sp_[i][:3] == sp_[j][:3], lambda i, j: sp_[i][:3] != sp_[j][:3])


if __name__ == "__main__":
    chk = vk.Check("C24", rule="one evaluation = one ordered pair of objects of a random family on which ==, !=, hash, set and dictionary membership, copies "
                   "and pickles are observed; distinct = different (kind, contents, contents)")
    vk.fuzz(chk, __file__, budget=240 if vk.THOROUGH else 25)
    chk.assumptions.append("sides that agree at random points but are written differently may be equal or not, as long as the laws hold")
    chk.finish(minimum=5000, need=dict(equal_pairs_equation=500, unequal_pairs_equation=500, equal_pairs_unknown=300, equal_pairs_node=300,
                                       equal_pairs_edge=300, recreated_equation=500, recreated_edge=300))
