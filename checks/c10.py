import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C10: the sum-of-squares transform on random two-unknown equation lists, against an independent numeric search; and in full solves."""
import random

import num
import vk

EV = num.Ev()
JO = [f"th_{i}" for i in range(1, 7)]
SUMS = ["th_12", "th_23", "th_34", "th_45", "th_56", "th_123", "th_234", "th_345", "th_456"]
SUMPAIRS = [(a, b) for b in SUMS for a in JO + SUMS if a != b and a[3:] in b[3:] and len(b) - len(a) == 1]
DS = ["d_1", "d_2", "d_3", "d_4", "d_5"]
PAR = ["a_2", "a_3", "l_1", "l_2", "l_4"]
POSE = num.R_NAMES + ["Px", "Py", "Pz"]


def ix(n):
    return n.split("_")[1]


def values(sp, rng):
    v = {sp.Symbol(n): rng.uniform(.3, 2) for n in DS + PAR + POSE}
    for n in JO:
        v[sp.Symbol(n)] = rng.uniform(-3, 3)
    return sums(sp, v)


def sums(sp, v):
    for n in SUMS:
        v[sp.Symbol(n)] = sum(v[sp.Symbol("th_" + c)] for c in ix(n))
    return v


def depends(sp, f, names, v):
    """which of the joint variables does the value of f (with the sum variables following the joints) depend on"""
    out = []
    f0 = EV(f, v)
    for n in names:
        big = 0
        for h in (.37, -.81):
            w = dict(v)
            w[sp.Symbol(n)] += h
            f1 = EV(f, sums(sp, w))
            if f0 is None or f1 is None:
                return None
            big = max(big, abs(f1 - f0))
        if big > 1e-7 * (1 + abs(f0)):
            out.append(n)
    return out


def make_true(sp, eqs, v, rng):
    """choose pose values such that all of eqs hold (they are linear in the pose symbols); None if not possible"""
    import numpy as np
    zs = [sp.Symbol(n) for n in POSE]
    res = [sp.sympify(e.RHS - e.LHS) for e in eqs]
    zs = [z for z in zs if any(r.has(z) for r in res)]
    if not zs:
        return None
    base = dict(v)
    for z in zs:
        base[z] = 0.0
    b = [EV(r, base) for r in res]
    A = []
    for r in res:
        row = []
        for z in zs:
            w = dict(base)
            w[z] = 1.0
            x = EV(r, w)
            if x is None:
                return None
            row.append(x)
        A.append(row)
    if None in b:
        return None
    b0 = np.array(b)
    S = np.array(A) - b0[:, None]
    x, *_ = np.linalg.lstsq(S, -b0, rcond=None)
    if np.abs(S @ x + b0).max() > 1e-7:
        return None
    # move along the null space for diversity
    u, s, vt = np.linalg.svd(S)
    for k in range(len([q for q in s if q > 1e-9]), len(zs)):
        x = x + rng.uniform(-1, 1) * vt[k]
    w = dict(v)
    for z, t in zip(zs, x):
        w[z] = float(t)
    return w if all(abs(EV(r, w) or 0) < 1e-6 for r in res) else None


class Tick:
    def __init__(self, bb):
        self.blackboard = bb


def work(rec):
    import b3
    import sympy as sp
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik
    import ikbtleaves.x2y2_transform as m
    rng = rec.rng
    S = sp.Symbol
    n, limit = 0, 4000 if rec.thorough else 110
    leaf = m.x2z2_transform()
    leaf.BHdebug = False
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(40):
            R = ik.Robot()
            solved = [x for x in ["th_1", "th_4", "th_5", "d_1", "th_6"] if rng.random() < .55]
            if rng.random() < .25:
                solved.append("th_34")
            target_kind = rng.choice(["arm", "arm", "arm", "prismatic", "none", "shoulder"])
            curr = rng.choice(["th_2", "th_3", "th_2", "th_3", "th_2", "th_3", "th_23", "th_1", "th_5"])
            if curr in solved:
                solved.remove(curr)
            par = PAR[:]
            rng.shuffle(par)

            def known():
                k = rng.random()
                if k < .5 or not solved:
                    return S(rng.choice(PAR))
                x = rng.choice(solved)
                return S(x) if x.startswith("d") else rng.choice([sp.sin, sp.cos])(S(x))

            def lhs(k):
                """known side of a position equation"""
                sg = rng.choice([1, -1])
                c = [S("Px"), S("Py"), S("Pz")]
                if k == 0 and "th_1" in solved:
                    e = sp.cos(S("th_1")) * c[0] + sp.sin(S("th_1")) * c[1]
                else:
                    e = c[k % 3]
                if rng.random() < .4:
                    e = e + rng.choice([1, -1]) * S(rng.choice(PAR))
                return sg * e, sg

            pairs = []
            eqs = []
            k1, k2 = rng.sample([0, 1, 2], 2)
            (L1, s1), (L2, s2) = lhs(k1), lhs(k2)
            s1, s2 = rng.choice([(1, 1), (1, 1), (-1, -1), (1, -1), (-1, 1)])
            f, g = sp.cos, sp.sin
            if target_kind == "arm":
                a, b = rng.choice([("th_2", "th_23"), ("th_3", "th_23"), ("th_3", "th_34"), ("th_2", "th_23")]) if rng.random() < .5 else rng.choice(SUMPAIRS)
                A, B, D = (S(x) for x in par[:3])
                if rng.random() < .3:
                    D = sp.S.Zero
                r1 = A * f(S(a)) + B * f(S(b)) - D * g(S(b))
                r2 = A * g(S(a)) + B * g(S(b)) + D * f(S(b))
            elif target_kind == "prismatic":
                a, d = rng.choice(["th_2", "th_3", "th_4"]), rng.choice(["d_3", "d_2", "d_4"])
                A = S(par[0]) if rng.random() < .5 else sp.S.Zero
                if rng.random() < .3:       # the pose on the right-hand sides only
                    A = S(rng.choice(["Px", "Py", "Pz"])) - rng.choice([0, S(par[0])])
                    L1, L2 = S(par[1]), rng.choice([1, -1]) * S(par[2])
                r1 = f(S(a)) * S(d) + A * g(S(a))
                r2 = g(S(a)) * S(d) - A * f(S(a))
            elif target_kind == "shoulder":
                a = rng.choice(["th_2", "th_3"])
                r1, r2 = S(par[0]) * f(S(a)) + S(par[1]) * g(S(a)), S(par[0]) * g(S(a)) - S(par[1]) * f(S(a)) + rng.choice([0, S(par[2])])
            else:
                a, b = rng.sample(["th_2", "th_3", "th_23", "d_3"], 2)
                r1 = S(par[0]) * f(S(a)) + S(par[1]) * g(S(b))
                r2 = S(par[0]) * g(S(a)) + S(par[2]) * S(b) * f(S(b))
            eqs += [kc.kequation(L1, s1 * r1), kc.kequation(L2, s2 * r2)]
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                k = rng.random()
                x = S(rng.choice(["th_2", "th_3", "d_3", "th_4", "th_23", "th_5"]))
                y = S(rng.choice(["th_2", "th_3", "d_2", "th_23"]))
                if k < .3:      # not a position equation
                    e = kc.kequation(S(rng.choice(num.R_NAMES)) + known(), known() * f(x) + y * known())
                elif k < .6:    # unknown on the side of the pose
                    e = kc.kequation(S("Px") * f(x) + S("Pz") * g(x), known() * g(y) + S(rng.choice(PAR)))
                elif k < .8:
                    e = kc.kequation(S(rng.choice(["Px", "Py", "Pz"])), known() * f(x) * g(y) + S(rng.choice(PAR)))
                elif k < .9:
                    e = kc.kequation(known() * f(x) + S("Pz"), known() * y)
                else:
                    e = kc.kequation(S("Py") * S(rng.choice(PAR)), known() * f(x) + known() * y)
                eqs.append(e)
            rng.shuffle(eqs)
            names = {str(s) for e in eqs for s in (e.LHS - e.RHS).free_symbols} & set(JO + SUMS + DS)
            for nm in list(names):
                if nm in SUMS:
                    names |= {"th_" + c for c in ix(nm)}
            names |= {curr} | set(solved)
            # a sum is solved when all its joints are
            solved = [x for x in solved if not (x in SUMS and any("th_" + c not in solved for c in ix(x)))]
            order = sorted(names)
            rng.shuffle(order)
            objs = []
            for nm in order:
                o = kc.unknown(S(nm))
                o.n = int(ix(nm))
                objs.append(o)
            for o in objs:
                if o.name in solved:
                    o.solutions = [sp.atan2(S("r_13"), S("r_23"))]
                    o.solvemethod = "algebra"
                    o.set_solved(R, objs)
            unsolved = [x for x in order if x not in solved]
            two = eqs
            if rng.random() < .8:      # as the scan delivers them: exactly two unsolved unknowns per equation
                two = [e for e in eqs if sum(1 for q in unsolved if e.LHS.has(S(q))) + sum(1 for q in unsolved if e.RHS.has(S(q))) == 2]
            one = [kc.kequation(S("r_13"), sp.sin(S(unsolved[0]))) for _ in range(rng.choice([0, 1]))]
            aux0 = [kc.kequation(S("th_23"), S("th_2") + S("th_3"))] if "th_23" in names else []
            R.kequation_aux_list = list(aux0)
            Mq = kc.matrix_equation()
            Mq.Ts[0, 3] = S("Px")
            R.mequation_list = [Mq]
            bb = b3.Blackboard()
            for k, v in dict(eqns_1u=list(one), eqns_2u=list(two), eqns_3pu=[], unknowns=objs, Robot=R, curr_unk=next(o for o in objs if o.name == curr)).items():
                bb.set(k, v)
            before = [(e.LHS, e.RHS) for e in two + one]
            state = {o.name: (o.solved, list(o.solutions), o.solveorder) for o in objs}
            method = {o.name: o.solvemethod for o in objs}
            wit = dict(equations=[repr(e) for e in two], solved=solved, unsolved=unsolved, current=curr, kind=target_kind)
            if rng.random() < .5:       # the leaf of a tree is used again and again
                leaf = m.x2z2_transform()
                leaf.BHdebug = False
            try:
                st = leaf.tick(Tick(bb))
            except Exception as e:
                rec.violation(f"raised:{type(e).__name__}", dict(wit, error=repr(e)))
                continue
            rec.ev(str(wit["equations"]) + curr, sample=f"{curr}: {wit['equations'][:2]} -> {st}")
            lists = [bb.get(k) for k in ("eqns_1u", "eqns_2u", "eqns_3pu")]
            if [(e.LHS, e.RHS) for e in two + one] != before or any(x not in lists[1] for x in two) or len(lists[1]) != len(two) \
                    or len(lists[2]) != 0 or Mq.Ts[0, 3] != S("Px") or R.kequation_aux_list[:len(aux0)] != aux0 or len(R.mequation_list) != 1:
                rec.violation("equations-modified", wit)
            if {o.name: (o.solved, list(o.solutions), o.solveorder) for o in objs} != state or bb.get("unknowns") is not objs:
                rec.violation("unknowns-modified", wit)
            new = R.kequation_aux_list[len(aux0):]
            added1 = lists[0][len(one):]
            wit["added"] = [repr(e) for e in new]
            if st != b3.SUCCESS:
                rec.count("declined")
                if new or added1:
                    rec.violation("failure-changes-equations", wit)
                if any(o.solvemethod != method[o.name] for o in objs):
                    rec.violation("failure-notes-method", wit)
            else:
                rec.count("succeeded")
                if len(new) != 1 or [x for x in added1 if x not in new]:
                    rec.violation("not-one-equation-added", wit)
                    continue
                e = new[0]
                syms = {str(s) for s in sp.sympify(e.LHS).free_symbols | sp.sympify(e.RHS).free_symbols}
                if len(syms & set(unsolved)) != 1:
                    rec.violation("added-equation-unknowns", dict(wit, unsolved_in_it=sorted(syms & set(unsolved))))
                noted = {o.name for o in objs if o.solvemethod != method[o.name]}
                if noted != syms & set(unsolved):
                    rec.violation("method-noted-on-the-wrong-unknown", dict(wit, noted=sorted(noted), unsolved_in_it=sorted(syms & set(unsolved))))
                # holds wherever two of the offered equations hold
                sound = seen = unclear = False
                for i in range(len(two)):
                    for j in range(i + 1, len(two)):
                        ok = tried = 0
                        v = values(sp, rng)
                        a, b = two[i], two[j]
                        w1, w2 = EV(sp.sympify(e.RHS - e.LHS), v), EV(sp.sympify(a.LHS ** 2 + b.LHS ** 2 - a.RHS ** 2 - b.RHS ** 2), v)
                        if w1 is not None and w2 is not None and abs(abs(w1) - abs(w2)) < 1e-7 * (1 + abs(w2)):
                            sound = seen = True
                        for _ in range(4):
                            v = make_true(sp, [two[i], two[j]], values(sp, rng), rng)
                            if v is None:
                                continue
                            tried += 1
                            r = EV(sp.sympify(e.RHS - e.LHS), v)
                            scale = 1 + abs(EV(sp.sympify(e.RHS), v) or 0)
                            ok += r is not None and abs(r) < 1e-6 * scale
                        seen |= tried > 0
                        unclear |= not tried
                        if tried and ok == tried:
                            sound = True
                rec.count("added_equations_evaluated", int(seen))
                if seen and not sound and not unclear:
                    rec.violation("added-equation-not-implied", wit)
            # must a pair have been found?
            if curr in ("th_2", "th_3") and st != b3.SUCCESS:
                joints = [x for x in unsolved if x not in SUMS]
                pos = [e for e in two if (e.LHS + e.RHS).has(S("Px"), S("Py"), S("Pz"))]
                for i in range(len(pos)):
                    for j in range(i + 1, len(pos)):
                        a, b = pos[i], pos[j]
                        fl, fr = a.LHS ** 2 + b.LHS ** 2, a.RHS ** 2 + b.RHS ** 2
                        v = values(sp, rng)
                        dl, dr = depends(sp, fl, joints, v), depends(sp, fr, joints, v)
                        if dl == [] and dr is not None and len(dr) == 1 and fam(target_kind, a, b, eqs, s1 * r1, s2 * r2):
                            rec.violation("pair-not-found", dict(wit, pair=[repr(a), repr(b)], leaves=dr))
            elif st == b3.SUCCESS:
                rec.count("pairs_found_" + target_kind)


def fam(kind, a, b, eqs, r1, r2):
    """the constructed pair (the only one for which sympy is known to be able to simplify the squares)"""
    return kind != "none" and {str(a.RHS), str(b.RHS)} == {str(r1), str(r2)}


def full(chk):
    """transform ticks of full solves: an added equation holds at true configurations and has one unsolved unknown"""
    import sympy as sp
    import cases
    names = ["Puma", "KR16", "KawasakiRS007L", "Pumaoffset", "Khat6DOF", "Frei13", "MiniDD", "Sims11", "S017", "S041"]
    if vk.THOROUGH:
        names = cases.SOLVED + sorted(cases.POOL)
    for rec in cases.records(chk, names):
        rng = random.Random(rec["robot"] + str(vk.SEED))
        dh = rec["mech"]["DH"]
        arm = num.Arm(dh, sorted(dh.free_symbols, key=str))
        prev = None
        for kind, w in rec["events"]:
            if kind != "tick" or "aux" not in w:
                continue
            if w["leaf"] != "x2z2_transform":
                prev = w
                continue
            n0 = len(prev["aux"]) if prev else 0
            chk.count("transform_ticks")
            new = w["aux"][n0:]
            prev = w
            wit = dict(robot=rec["robot"], current=w["curr"], added=[str(e)[:300] for e in new])
            if (w["status"] == 1) != (len(new) == 1):
                chk.violation("status-and-equations-disagree", dict(wit, status=w["status"]))
            for L, Rr in new:
                chk.count("equations_added_in_full_solves")
                chk.ev(("full", rec["robot"], str(L)), sample=f"{rec['robot']}: {L} = {Rr}"[:200])
                syms = {str(s) for s in sp.sympify(L).free_symbols | sp.sympify(Rr).free_symbols}
                if len(syms & set(w["unsolved"])) != 1:
                    chk.violation("added-equation-unknowns", dict(wit, unsolved=sorted(syms & set(w["unsolved"]))))
                for _ in range(4):
                    v, jo = num.random_case(rec, rng)
                    v.update(num.pose_vals(arm.T(v)))
                    num.add_sums(v, rec["R"]["aux"])
                    a, b = EV(sp.sympify(L), v), EV(sp.sympify(Rr), v)
                    if a is None or b is None or abs(a - b) > 1e-5 * (1 + abs(a)):
                        chk.violation("added-equation-not-implied", dict(wit, left=a, right=b))


if __name__ == "__main__":
    chk = vk.Check("C10", rule="one evaluation = one tick of the transform on a random set of equations, what it added compared with the equations offered (values at "
                   "which they hold) and with a numeric search for a usable pair; plus every equation it added in full solves; distinct = different equation sets")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 25)
    full(chk)
    chk.finish(minimum=120, need=dict(succeeded=30, declined=30, added_equations_evaluated=30, transform_ticks=5))
