import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C21: the sum-of-angles step on random expressions and matrix equations in random orders of discovery, and on real arms."""
import itertools
import math
import random

import vk

TOL = 1e-7


def joints_of(name):
    return name[3:] if name.startswith("th_") else None


def sums_left(sp, e, joints):
    """sines/cosines of a sum of two or three plain joint variables"""
    left = []
    for f in sp.sympify(e).atoms(sp.sin, sp.cos):
        a = f.args[0]
        if a.is_Add and len(a.args) in (2, 3) and all(x.is_Symbol and x.name in joints for x in a.args):
            left.append(f)
    return left


def check_vars(sp, report, before, variables, aux, joints, wit):
    """variables: [(symbol, name, n, solved)] after the step; aux: [(lhs, rhs)]"""
    names = [v[1] for v in variables]
    if len(set(names)) != len(names) or len({str(v[0]) for v in variables}) != len(variables):
        report("variable-twice", dict(wit, variables=names))
    if names[:len(before)] != list(before):
        report("joint-variables-changed", dict(wit, variables=names, before=list(before)))
    new = variables[len(before):]
    defs = {}
    for L, R in aux:
        defs.setdefault(str(L), []).append(sp.sympify(R))
    for sym, nm, n, solved in new:
        w = dict(wit, variable=nm, n=n)
        ix = joints_of(nm) or ""
        if not ix.isdigit() or list(ix) != sorted(set(ix)) or len(ix) not in (2, 3) or str(sym) != nm or n != int(ix) or solved:
            report("variable-malformed", w)
            continue
        d = defs.get(nm, [])
        if len(d) != 1:
            report("definitions-of-variable", dict(w, definitions=[str(x) for x in d]))
            continue
        want = {"th_" + c for c in ix}
        whole = d[0]
        for _ in range(2):      # a sum of a pair variable and a joint is that of three joints
            whole = whole.subs({s: defs[s.name][0] for s in whole.free_symbols if s.name in defs and s.name != nm})
        if whole != sum(sp.Symbol(x) for x in want) or not want <= set(joints):
            report("definition-is-another-sum", dict(w, definition=str(d[0])))
    extra = set(defs) - {v[1] for v in new}
    if extra:
        report("definition-without-variable", dict(wit, extra=sorted(extra)))
    return defs


def work(rec):
    import b3
    import sympy as sp
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik
    import ikbtleaves.sum_id as sid
    import num
    rng = rec.rng
    ev = num.Ev()
    TH = [sp.Symbol(f"th_{i}") for i in range(1, 7)]
    D = [sp.Symbol(f"d_{i}") for i in range(1, 7)]
    P = sp.symbols("a_2 a_3 l_1 l_4 r_11 r_23 Px Py Pz")

    def setup():
        js = []
        for i in range(1, 7):
            k = rng.random()
            if k < .8:
                js.append((TH[i - 1], i))
            elif k < .92:
                js.append((D[i - 1], i))
        vs = []
        for s, i in js:
            u = kc.unknown(s)
            u.n = i
            u.solved = rng.random() < .1
            vs.append(u)
        if rng.random() < .3:
            rng.shuffle(vs)
        return vs, [s for s, _ in js if s in TH]

    def term(ths, small=False):
        k = rng.random()
        f, g = rng.choice([sp.sin, sp.cos]), rng.choice([sp.sin, sp.cos])
        m = min(len(ths), rng.choice([1, 2, 2, 2, 3, 3]))
        s = sum(rng.sample(ths, m), sp.S.Zero)
        c = rng.choice([1, -1, 2]) * rng.choice(list(P) + [1, 1])
        if k < .5:
            return c * f(s)
        if k < .65 and len(ths) > 1:
            a, b = rng.sample(ths, 2)
            return c * f(a - b)
        if k < .72:
            return c * f(rng.choice(ths) + rng.choice(P))
        if k < .78:
            return c * f(2 * rng.choice(ths))
        if k < .9:
            return c * f(s) * g(rng.choice(ths))
        if k < .95:
            return c * s
        a, b = rng.choice(ths), rng.choice(ths)
        return sp.sin(a) * sp.cos(b) + sp.cos(a) * sp.sin(b)

    def pair_term(vs, ths):
        """f(pair variable + the joint after or before the pair), for a pair variable which exists by now"""
        free = {s.name for s in ths}
        opts = []
        for u in vs:
            d = u.name[3:]
            if u.name.startswith("th_") and len(d) == 2 and int(d[1]) == int(d[0]) + 1:
                opts += [(u.symbol, sp.Symbol(f"th_{j}")) for j in (int(d[0]) - 1, int(d[1]) + 1) if f"th_{j}" in free]
        if not opts:
            return None
        a, b = rng.choice(opts)
        return rng.choice([1, -1, 2]) * rng.choice(list(P) + [1, 1]) * rng.choice([sp.sin, sp.cos])(a + b)

    def expr(ths, n):
        return sum([term(ths) for _ in range(n)], sp.S.Zero) if n else rng.choice([sp.S.Zero, P[0], rng.choice(ths)])

    def true_vals(ths, joints_extra, defs):
        v = {s: rng.uniform(-3, 3) for s in TH}
        v.update({s: rng.uniform(.3, 2) for s in list(P) + D})
        for nm, d in defs.items():
            if d:
                try:
                    v[sp.Symbol(nm)] = float(sp.sympify(d[0]).subs(v))
                except TypeError:
                    pass
        return v

    def snap(vs):
        return [(u.symbol, u.name, u.n, u.solved) for u in vs]

    class FakeTick:
        def __init__(self, bb):
            self.blackboard = bb

    limit = 1500 if rec.thorough else 130
    n = 0
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(30):
            vs, ths = setup()
            if len(ths) < 2:
                continue
            before = [u.name for u in vs]
            jn = {s.name for s in ths}
            R = ik.Robot()
            mode = rng.choice(["sub", "sub", "transform", "leaf"])
            pairs = []
            wit0 = dict(mode=mode, joints=before)
            try:
                if mode == "sub":
                    for _ in range(rng.randint(1, 6)):
                        e = sp.sympify(expr(ths, rng.randint(0, 4)))
                        t = pair_term(vs, ths) if rng.random() < .4 else None
                        if t is not None:
                            rec.count("pair_plus_joint")
                            e = e + t
                        r = ik.sum_of_angles_sub(R, e, vs)
                        pairs.append((e, r[0]))
                        rec.count("expressions")
                else:
                    ms = []
                    for _ in range(rng.randint(1, 3)):
                        A, B = sp.zeros(4), sp.zeros(4)
                        for _ in range(rng.randint(1, 5)):
                            X = rng.choice([A, B, B])
                            X[rng.randrange(3), rng.randrange(4)] = sp.sympify(expr(ths, rng.randint(1, 3)))
                        ms.append(kc.matrix_equation(A, B))
                    R.mequation_list = ms
                    orig = [[(sp.sympify(m.Td[i, j]), sp.sympify(m.Ts[i, j])) for i in range(3) for j in range(4)] for m in ms]
                    if mode == "transform":
                        R.sum_of_angles_transform(vs)
                    else:
                        bb = b3.Blackboard()
                        L = R.scan_for_equations(vs)
                        for k, v in zip(("eqns_1u", "eqns_2u", "eqns_3pu"), L):
                            bb.set(k, v)
                        bb.set("Robot", R)
                        bb.set("unknowns", vs)
                        leaf = sid.sum_id()
                        leaf.BHdebug = False
                        st = leaf.tick(FakeTick(bb))
                        if st != b3.SUCCESS:
                            rec.violation("leaf-status", dict(wit0, status=st))
                        if bb.get("unknowns") is not vs and [u.name for u in bb.get("unknowns")] != [u.name for u in vs]:
                            rec.violation("leaf-loses-variables", wit0)
                    for m, o in zip(R.mequation_list, orig):
                        now = [(m.Td[i, j], m.Ts[i, j]) for i in range(3) for j in range(4)]
                        for (a, b), (c, d) in zip(o, now):
                            pairs += [(a, c), (b, d)]
            except SystemExit:
                rec.violation("quit", dict(wit0))
                continue
            except Exception as e:
                rec.violation(f"raised:{type(e).__name__}", dict(wit0, error=repr(e), last=str(pairs[-1:])))
                continue
            wit = dict(wit0, expressions=[str(a) for a, b in pairs if a != 0][:8])
            rec.ev(str(wit["expressions"]), sample=f"{mode}: {wit['expressions'][:2]} -> {[str(b) for a, b in pairs if a != 0][:2]}")
            rec.count("cases_" + mode)
            defs = check_vars(sp, rec.violation, before, snap(vs), [(e.LHS, e.RHS) for e in R.kequation_aux_list], jn, wit)
            rec.count("variables_created", len(vs) - len(before))
            for _ in range(3):
                v = true_vals(ths, None, defs)
                for a, b in pairs:
                    x, y = ev(a, v), ev(sp.sympify(b), v)
                    if x is None:
                        continue
                    rec.count("values_compared")
                    if y is None or abs(x - y) > TOL * (1 + abs(x)):
                        rec.violation("value-changed", dict(wit, expression=str(a), result=str(b), value=x, got=y))
            if mode != "leaf":
                for a, b in pairs:
                    left = sums_left(sp, b, jn)
                    if left:
                        rec.violation("sum-remains", dict(wit, expression=str(a), result=str(b), left=str(left)))
            # repeat
            try:
                n_v, n_a = len(vs), len(R.kequation_aux_list)
                if mode == "sub":
                    again = [ik.sum_of_angles_sub(R, sp.sympify(b), vs)[0] for _, b in pairs]
                    once_more = [ik.sum_of_angles_sub(R, a, vs)[0] for a, _ in pairs]
                    if again != [b for _, b in pairs]:
                        rec.violation("repeat-changes-expressions", wit)
                elif mode == "transform":
                    R.sum_of_angles_transform(vs)
                else:
                    continue
                rec.count("repeated")
                if (len(vs), len(R.kequation_aux_list)) != (n_v, n_a):
                    rec.violation("repeat-adds", dict(wit, variables=[u.name for u in vs], definitions=[repr(e) for e in R.kequation_aux_list]))
            except Exception as e:
                rec.violation(f"raised-on-repeat:{type(e).__name__}", dict(wit, error=repr(e)))


def arms(chk):
    import sympy as sp
    import cases
    import fkwork
    import num
    ev = num.Ev()
    names = cases.CATALOG + cases.pool_pick(109 if vk.THOROUGH else 16, chk.rng)
    for rec in fkwork.run(chk, names, nrand=40 if vk.THOROUGH else 6, odd=True, soa=1, twice=1, maxdof=6 if vk.THOROUGH else 4,
                          limit=200 if vk.THOROUGH else 20, budget=800 if vk.THOROUGH else 150):
        before = [str(s) for s, n in rec["unk0"]]
        jn = {x for x in before if x.startswith("th")}
        wit = dict(arm=rec["name"], dh=str(rec["dh0"].tolist()))
        soa = rec["soa"]
        chk.ev(("arm", rec["name"]), sample=f"{rec['name']}: {[v[1] for v in soa['vars'][len(before):]]}")
        check_vars(sp, chk.violation, before, soa["vars"], soa["aux"], jn, wit)
        chk.count("variables_created_for_arms", len(soa["vars"]) - len(before))
        for Td, Ts, _ in soa["meqs"]:
            for e in list(Td) + list(Ts):
                left = sums_left(sp, e, jn)
                if left:
                    chk.violation("sum-remains", dict(wit, left=str(left), element=str(e)[:300]))
        chk.count("matrix_equations", len(soa["meqs"]))
        two = rec["soa2"]
        if [v[1] for v in two["vars"]] != [v[1] for v in soa["vars"]] or len(two["aux"]) != len(soa["aux"]):
            chk.violation("repeat-adds", dict(wit, first=[v[1] for v in soa["vars"]], second=[v[1] for v in two["vars"]]))
        rng = random.Random(rec["name"])
        for _ in range(2):
            vals, _j = fkwork.values(rec, rng)
            full = dict(vals)
            full.update(num.pose_vals(num.Arm(rec["dh0"], sorted(rec["dh0"].free_symbols, key=str)).T(vals)))
            num.add_sums(full, soa["aux"])
            for (A, B, _1), (C, E, _2) in zip(rec["init"], soa["meqs"]):
                for x, y in list(zip(A, C)) + list(zip(B, E)):
                    a, b = ev(sp.sympify(x), full), ev(sp.sympify(y), full)
                    if a is not None and (b is None or abs(a - b) > 1e-6 * (1 + abs(a))):
                        chk.violation("value-changed", dict(wit, expression=str(x)[:300], result=str(y)[:300]))


if __name__ == "__main__":
    chk = vk.Check("C21", rule="one evaluation = one sum-of-angles step (single expressions, a set of matrix equations, the per-pass leaf, or a whole arm) whose "
                   "variables, defining equations, results and repetition are examined; distinct = different inputs")
    vk.fuzz(chk, __file__, budget=300 if vk.THOROUGH else 30)
    arms(chk)
    chk.finish(minimum=400, need=dict(cases_sub=200, cases_transform=80, cases_leaf=80, variables_created=300, repeated=200, arms=30))
