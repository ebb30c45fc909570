import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C34: the substitution transform on random matrix equations in which elements occur inside others: what it rewrites stays true,
and what it is there to rewrite is rewritten."""
import vk

ANG = [f"th_{i}" for i in range(1, 7)] + ["th_23", "th_123", "th_45"]
DS = ["d_1", "d_2", "d_3"]
PAR = ["a_2", "a_3", "l_1", "l_2", "l_4", "h"]


class Tick:
    def __init__(self, bb):
        self.blackboard = bb


def listed(L):
    return sorted((str(e.LHS), str(e.RHS)) for e in L)


def work(rec):
    import b3
    import sympy as sp
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    import ikbtfunctions.helperfunctions as hf
    import ikbtleaves.sub_transform as ms
    rng = rec.rng
    S = sp.Symbol
    n, limit = 0, 60000 if rec.thorough else 500
    while not rec.over() and n < limit:
        n += 1
        with rec.guard(30):
            names = rng.sample(ANG, rng.randint(3, 6)) + rng.sample(DS, rng.randint(0, 2))
            unsolved = set(rng.sample(names, rng.randint(2, len(names))))

            def trig(x=None):
                x = x or rng.choice(names)
                return S(x) if x[0] == "d" else rng.choice([sp.sin, sp.cos])(S(x))

            def known():
                k = rng.random()
                solved = [x for x in names if x not in unsolved]
                if k < .5 or not solved:
                    return S(rng.choice(PAR))
                return trig(rng.choice(solved))

            def term():
                t = rng.choice([1, 1, -1, 2])
                for _ in range(rng.randint(1, 3)):
                    t = t * rng.choice([trig, trig, known])()
                return t

            Ts = sp.zeros(4)
            Td = hf.ik_lhs()
            cells = [(i, j) for i in range(3) for j in range(4)]
            for c in cells:
                k = rng.random()
                if k < .12:
                    continue
                e = sp.S.Zero
                for _ in range(rng.choice([1, 1, 2, 3])):
                    e += term()
                Ts[c] = e if k > .2 else sp.sympify(rng.choice([1, -1]))
            # elements inside others
            order = rng.sample(cells, rng.randint(2, 6))
            for a, b in zip(order[::2], order[1::2]):
                e1 = Ts[a]
                if e1 == 0 or e1.is_number:
                    e1 = Ts[a] = trig() * trig()
                if e1.is_Add and rng.random() < .7:
                    e1 = Ts[a] = e1.args[0]
                s = rng.choice([1, 1, -1])
                Ts[b] = rng.choice([s * e1 + term(), s * e1 + known(), s * e1 * known() + term(), known() - s * e1, s * e1 + term() + known(), e1 * known(), sp.sin(e1) + known()])
            unk = []
            for i, x in enumerate(names):
                u = kc.unknown(S(x))
                u.n, u.solved = i + 1, x not in unsolved
                unk.append(u)
            R = ik.Robot()
            old = sp.Matrix(Ts)
            Td0 = sp.Matrix(Td)
            me = kc.matrix_equation(Td, Ts)
            second = kc.matrix_equation(Td, sp.Matrix(4, 4, lambda i, j: old[(i + 1) % 3, j] if i < 3 else 0))
            keep2 = (sp.Matrix(second.Td), sp.Matrix(second.Ts))
            R.mequation_list = [me, second]
            aux = kc.kequation(S(names[0]), S(names[1]) + S(names[2]))
            R.kequation_aux_list = [aux] if rng.random() < .5 else []
            naux = len(R.kequation_aux_list)
            bb = b3.Blackboard()
            before = [object(), object(), object()]
            for k, v in zip(("eqns_1u", "eqns_2u", "eqns_3pu"), before):
                bb.set(k, v)
            bb.set("unknowns", unk)
            bb.set("Robot", R)
            leaf = ms.sub_transform()
            leaf.BHdebug, leaf.Name = False, "sub"
            U = [S(x) for x in unsolved]
            wit = dict(unsolved=sorted(unsolved), elements={f"{i},{j}": str(old[i, j]) for i, j in cells})
            try:
                st = leaf.tick(Tick(bb))
            except Exception as e:
                rec.violation(f"raised:{type(e).__name__}", dict(wit, error=repr(e)))
                continue
            new = R.mequation_list[0].Ts
            changed = [c for c in cells if sp.sympify(new[c] - old[c]) != 0]
            rec.ev(str(wit), sample=f"{len(changed)} elements rewritten, e.g. " + "; ".join(f"{old[c]} -> {new[c]}" for c in changed[:2]))
            if st != b3.SUCCESS:
                rec.violation("status", dict(wit, status=st))
            if R.mequation_list[0].Td != Td0 or R.mequation_list[1] is not second or (sp.Matrix(second.Td), sp.Matrix(second.Ts)) != keep2 or len(R.kequation_aux_list) != naux:
                rec.violation("changed-something-else", wit)

            def count(e):
                return sum(1 for u in U if e.has(u))

            # sound: with every left entry having the value of its right side, the new element has the value of the old one
            p = {S(x): rng.uniform(-1.5, 1.5) for x in names + PAR}
            for c in cells:
                v = old[c].xreplace(p)
                p2 = sp.sympify(Td0[c])
                if p2.is_Symbol:
                    p[p2] = float(v)
            for c in changed:
                rec.count("elements_rewritten")
                x, y = complex(old[c].evalf(20, subs=p)), complex(new[c].evalf(20, subs=p))
                if abs(x - y) > 1e-8 * (1 + abs(x)):
                    rec.violation("no-longer-true", dict(wit, element=c, new=str(new[c]), values=[str(x), str(y)]))
                if count(new[c]) >= count(old[c]):
                    rec.violation("no-fewer-unknowns", dict(wit, element=c, new=str(new[c])))
            # effective: an element holding exactly one other, which itself has nothing to be replaced
            where = {}
            for c in cells:
                e2 = old[c]
                where[c] = []
                for a in cells:
                    e1 = old[a]
                    if e1 == e2 or e2 == 0 or e1 == 0 or e1.is_number:
                        continue
                    for x, y in ((e1, Td0[a]), (-e1, -Td0[a])):
                        if e2.has(x):
                            if count(e2.subs(x, y)) < count(e2):
                                where[c].append((a, x, y))
                            break
            for c in cells:
                ok = where[c]
                if not ok:
                    rec.count("elements_without_anything_to_replace")
                    if c in changed and not any(where[a] for a in cells if a != c):
                        rec.violation("rewritten-without-reason", dict(wit, element=c, new=str(new[c])))
                    continue
                if len(ok) == 1 and not where[ok[0][0]]:
                    a, x, y = ok[0]
                    # rewriting another element first may take the occurrence away only if that element is this very one
                    rec.count("opportunities")
                    rec.count("opportunities_negative" if x != old[a] else "opportunities_positive")
                    if c not in changed:
                        rec.violation("not-replaced", dict(wit, element=c, holds=str(x), at=a))
            # the lists on the blackboard
            now = [bb.get(k) for k in ("eqns_1u", "eqns_2u", "eqns_3pu")]
            if changed:
                rec.count("lists_refreshed")
                want = R.scan_for_equations(unk)
                if any(x is y for x, y in zip(now, before)) or [listed(x) for x in now] != [listed(x) for x in want]:
                    rec.violation("lists-not-refreshed", wit)
            elif any(x is not y for x, y in zip(now, before)):
                rec.count("lists_refreshed_without_change")


if __name__ == "__main__":
    chk = vk.Check("C34", rule="one evaluation = one tick of the substitution transform on a random matrix equation; distinct = different matrices and solved states")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 15)
    chk.finish(minimum=250, need=dict(elements_rewritten=200, opportunities_positive=60, opportunities_negative=15, lists_refreshed=120))
