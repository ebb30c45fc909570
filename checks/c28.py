import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C28: helper functions against independent definitions, on random expressions over the kinematic symbols."""
import math

import vk


def work(rec):
    import sympy as sp
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.pykinsym as pk
    import ikbtfunctions.helperfunctions as hf
    import ikbtleaves.rank_leaf as rl
    import ikbtleaves.algebra_solver as al
    import num
    rng = rec.rng
    ev = num.Ev()
    U = ["th_1", "th_2", "th_3", "th_4", "th_5", "th_6", "th_12", "th_23", "th_34", "th_234", "th_123", "d_1", "d_2", "d_3", "d_10", "th_10", "x"]
    Pn = ["a_1", "a_2", "a_3", "l_1", "l_4", "r_11", "r_23", "r_33", "Px", "Py", "Pz", "h", "d_4", "th", "ca1", "sa1"]
    S = {n: sp.Symbol(n) for n in U + Pn}

    def lin(k):
        s = sp.S.Zero
        for n in rng.sample(U[:6], k):
            s += rng.choice([1, 1, 1, -1, 2]) * S[n]
        return s

    def atom(us):
        k = rng.random()
        if k < .25:
            return S[rng.choice(us)]
        if k < .5:
            return rng.choice([sp.sin, sp.cos])(S[rng.choice(us)])
        if k < .62:
            return rng.choice([sp.sin, sp.cos])(lin(rng.randint(1, 3)))
        if k < .9:
            return S[rng.choice(Pn)]
        return sp.Integer(rng.randint(-3, 3))

    def expr(d, us):
        k = rng.random()
        if d == 0 or k < .15:
            return atom(us)
        if k < .5:
            return expr(d - 1, us) + expr(d - 1, us)
        if k < .8:
            return expr(d - 1, us) * expr(d - 1, us)
        if k < .86:
            return expr(d - 1, us) ** rng.choice([2, 2, sp.Rational(1, 2), -1]) if True else 0
        if k < .93:
            return sp.atan2(expr(d - 1, us), expr(d - 1, us) + S["Px"])
        return rng.choice([sp.asin, sp.acos, sp.sqrt, sp.Abs])(expr(d - 1, us))

    def occurring(e):
        """independent: walk the tree"""
        res, stack = set(), [e]
        while stack:
            x = stack.pop()
            if isinstance(x, sp.Symbol):
                res.add(x.name)
            stack.extend(x.args)
        return res

    def call(name, f, wit, allow=()):
        rec.count("calls_" + name)
        try:
            return f()
        except allow as e:
            return e
        except SystemExit as e:
            return e
        except Exception as e:
            rec.violation(f"raised:{name}:{type(e).__name__}", dict(wit, error=repr(e)))
            return e

    def names(x):
        try:
            return [u.name for u in x]
        except Exception:
            return repr(x)

    shrink = {"s": math.sin, "c": math.cos}
    lhs_seen = 0
    while not rec.over() and rec.evaluations < (40000 if rec.thorough else 4000):
        with rec.guard(20):
            us = rng.sample(U, rng.randint(1, 9) if rng.random() < .85 else len(U))
            pool = us if rng.random() < .6 else U
            e = sp.sympify(expr(rng.randint(0, 4), pool))
            if rng.random() < .1:      # many unknowns at once
                for _ in range(rng.randint(5, 12)):
                    e = e + expr(1, pool)
            if e.has(sp.zoo, sp.nan, sp.oo):
                continue
            objs = []
            for n in us:
                u = kc.unknown(S[n])
                u.n = int("".join(c for c in n if c.isdigit()) or 7)
                u.solved = rng.random() < .5
                objs.append(u)
            occ = occurring(e)
            uns = [u.name for u in objs if u.name in occ and not u.solved]
            allv = [u.name for u in objs if u.name in occ]
            solved_before = [u.solved for u in objs]
            wit = dict(expression=str(e), unknowns=[(u.name, "solved" if u.solved else "unsolved") for u in objs])
            rec.ev(str(e), sample=f"{e}: unsolved {uns}, variables {allv}")
            got = call("count_unknowns", lambda: hf.count_unknowns(objs, e), wit)
            if not isinstance(got, Exception) and got != len(uns):
                rec.violation("wrong:count_unknowns", dict(wit, got=got, want=len(uns)))
            got = call("get_unknowns", lambda: hf.get_unknowns(objs, e), wit)
            if not isinstance(got, Exception) and (names(got) != uns or any(all(g is not u for u in objs) for g in got)):
                rec.violation("wrong:get_unknowns", dict(wit, got=names(got), want=uns))
            got = call("get_variables", lambda: hf.get_variables(objs, e), wit)
            if not isinstance(got, Exception) and (names(got) != allv or any(all(g is not u for u in objs) for g in got)):
                rec.violation("wrong:get_variables", dict(wit, got=names(got), want=allv))
            got = call("count_variables", lambda: rl.count_variables(objs, e), wit)
            if not isinstance(got, Exception) and got != len(allv):
                rec.violation("wrong:count_variables", dict(wit, got=got, want=len(allv)))
            got = call("get_deps", lambda: hf.get_deps(objs, e), wit, allow=(AssertionError,))
            if uns:
                rec.count("get_deps_refused")
                if not isinstance(got, BaseException):
                    rec.violation("get_deps-accepts-unsolved", dict(wit, got=names(got)))
            elif isinstance(got, BaseException):
                rec.violation("get_deps-refuses-solved", dict(wit, error=repr(got)))
            elif sorted(names(got)) != sorted(allv):
                rec.violation("wrong:get_deps", dict(wit, got=sorted(names(got)), want=allv))
            s = S[rng.choice(U + Pn)] if rng.random() < .5 else S[rng.choice(us)]
            got = call("find_obj", lambda: hf.find_obj(s, objs), wit)
            want = next((u for u in objs if u.name == s.name), None)
            if not isinstance(got, Exception) and got is not want:
                rec.violation("wrong:find_obj", dict(wit, symbol=str(s), got=repr(got)))
            # index of a joint variable
            got = call("get_variable_index", lambda: ik.get_variable_index(objs, s), dict(wit, symbol=str(s)), allow=(AssertionError,))
            if want is not None and got != want.n:
                rec.violation("wrong:get_variable_index", dict(wit, symbol=str(s), got=repr(got)))
            if want is None and not isinstance(got, BaseException):
                rec.violation("get_variable_index-invents", dict(wit, symbol=str(s), got=repr(got)))
            # ordering by size
            eqs = []
            for _ in range(rng.randint(0, 8)):
                l, r = sp.sympify(expr(rng.randint(0, 3), U)), sp.sympify(expr(rng.randint(0, 3), U))
                if rng.random() < .2:
                    l = 0 if rng.random() < .5 else sp.S.Zero
                eqs.append(kc.kequation(l, r))
            if eqs and rng.random() < .3:
                eqs.append(kc.kequation(eqs[0].LHS, eqs[0].RHS))
            given = list(eqs)
            got = call("erank", lambda: ik.erank(eqs), dict(equations=[repr(x) for x in eqs]))
            if not isinstance(got, Exception):
                size = lambda q: int(sp.count_ops(q.LHS)) + int(sp.count_ops(q.RHS))      # noqa: E731
                want_o = sorted(given, key=size)
                if len(got) != len(want_o) or any(a is not b for a, b in zip(got, want_o)):
                    rec.violation("wrong:erank", dict(equations=[repr(x) for x in given], got=[repr(x) for x in got]))
                if len(eqs) != len(given) or any(a is not b for a, b in zip(eqs, given)):
                    rec.violation("erank-changes-its-argument", dict(equations=[repr(x) for x in given]))
            # abbreviations: same value when c_k, s_k (and c_12 ...) stand for the cosines and sines
            M = e if rng.random() < .5 else sp.Matrix([[e, sp.sympify(expr(2, U))], [lin(2), sp.cos(lin(2)) * sp.sin(lin(1))]])
            got = call("notation_squeeze", lambda: pk.notation_squeeze(M), dict(expression=str(M)))
            if not isinstance(got, Exception):
                vals = {x: rng.uniform(.4, 2.6) for x in S.values()}
                full = dict(vals)
                for x in sorted(sp.sympify(got).free_symbols if not hasattr(got, "shape") else got.free_symbols, key=str):
                    nme = str(x)
                    if x not in full and nme[:2] in ("c_", "s_") and nme[2:].isdigit():
                        full[x] = shrink[nme[0]](sum(vals[S["th_" + c]] for c in nme[2:]))
                for a, b in (zip(M, got) if hasattr(M, "shape") else [(M, got)]):
                    x, y = ev(sp.sympify(a), vals), ev(sp.sympify(b), full)
                    if x is None:
                        continue
                    rec.count("abbreviated_values")
                    if y is None or abs(x - y) > 1e-7 * (1 + abs(x)):
                        rec.violation("value-changed:notation_squeeze", dict(expression=str(a), got=str(b)))
                    for k in range(1, 7):
                        t = S[f"th_{k}"]
                        if any(f.args[0] == t for f in sp.sympify(b).atoms(sp.sin, sp.cos)):
                            rec.violation("not-abbreviated:notation_squeeze", dict(expression=str(a), got=str(b)))
            # names for LaTeX
            txt = "".join(rng.choice([r"th_", "_1", "2", "\\sin{", "}", " + ", "a_{3}", "d_2", "tha", "v12"]) for _ in range(rng.randint(0, 8)))
            got = call("theta_expand", lambda: hf.theta_expand(txt), dict(text=txt))
            if not isinstance(got, Exception) and (got.replace("\\theta_", "th_") != txt or (got.count("\\theta_") != txt.count("th_"))):
                rec.violation("wrong:theta_expand", dict(text=txt, got=got))
            # zero conversion
            z = rng.choice([0, sp.S.Zero, e, S["a_1"], 1, sp.Integer(2), -1])
            got = call("spZconv", lambda: al.spZconv(z), dict(term=str(z)))
            if not isinstance(got, Exception) and (got != z or (z == 0 and not isinstance(got, sp.Basic))):
                rec.violation("wrong:spZconv", dict(term=str(z), got=repr(got)))
            # pose matrix
            if lhs_seen < 20:
                lhs_seen += 1
                m = call("ik_lhs", lambda: hf.ik_lhs(), {})
                if not isinstance(m, Exception):
                    want_m = [[f"r_{i}{j}" for j in (1, 2, 3)] + [p] for i, p in zip((1, 2, 3), ("Px", "Py", "Pz"))] + [["0", "0", "0", "1"]]
                    if [[str(x) for x in row] for row in m.tolist()] != want_m or any(x not in S.values() and not x.is_Symbol for x in m[:3, :]):
                        rec.violation("wrong:ik_lhs", dict(got=str(m)))
                    m[0, 0] = 7
            # progress bar must cope with any position
            call("prog_bar", lambda: hf.prog_bar(rng.choice([-1, 0, 1, 5, 10]), rng.choice([1, 10, 37.5]), rng.choice([25, 3, 12.5]), "m"), {})
            if [u.solved for u in objs] != solved_before or [u.name for u in objs] != us:
                rec.violation("arguments-modified", wit)


if __name__ == "__main__":
    chk = vk.Check("C28", rule="one evaluation = one random expression with a random list of solved and unsolved unknowns, on which every helper function is "
                   "called and compared with an independent definition; distinct = different expressions")
    vk.fuzz(chk, __file__, budget=240 if vk.THOROUGH else 20)
    chk.finish(minimum=2000, need=dict(get_deps_refused=200, abbreviated_values=2000, calls_erank=1000))
