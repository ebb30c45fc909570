import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C13: the list of solution vectors. An independent checker decides, for the vectors reported by full solves and for those
made from synthetic solving histories, which alternative of every unknown each entry stands for, and compares the set of
vectors with the product of the alternatives."""
import itertools
import math

import sympy as sp

import cases
import vk


def judge(out, wit, order, final, table, nversions, solset):
    """order: [(name, [solutions])] in solving order; final: rows of (LHS, RHS); table: rows of names; out(key, detail).
    Returns number of vectors."""
    names = [n for n, _ in order]
    want = math.prod(len(s) for _, s in order) if order else 0
    if len(final) != want or len(table) != want:
        out("wrong-number-of-vectors", dict(wit, vectors=len(final), table=len(table), want=want))
        return 0
    if nversions != want:
        out("wrong-vector-count-reported", dict(wit, got=nversions, want=want))
    if sorted(map(tuple, solset)) != sorted({tuple(r) for r in table}) or len(set(map(tuple, table))) != len(table):
        out("name-table-differs-from-set", dict(wit, table=table[:8], set=[list(x) for x in solset][:8]))
    if not order:
        return 0
    # every name is defined exactly once
    where = {}
    for i, row in enumerate(final):
        if len(row) != len(names):
            out("vector-length", dict(wit, row=i, got=len(row), want=len(names)))
            return 0
        for j, (L, R) in enumerate(row):
            if str(L) in where:
                out("name-defined-twice", dict(wit, name=str(L)))
            where[str(L)] = (i, j)
            if not str(L).startswith(names[j] + "v") or not str(L)[len(names[j]) + 1:].isdigit():
                out("entry-not-in-solving-order", dict(wit, row=i, column=j, name=str(L), want=names[j]))
                return 0
    choice = {}       # name of an entry -> (alternative, ((dependency, its choice) ...))

    def resolve(i, j, stack=()):
        L, R = final[i][j]
        key = str(L)
        if key in choice:
            return choice[key]
        if key in stack:
            out("circular", dict(wit, name=key))
            return None
        R = sp.sympify(R)
        back, deps = {}, {}
        for s in R.free_symbols:
            if str(s) in where:
                p, q = where[str(s)]
                if names[q] in deps and deps[names[q]] != str(s):
                    out("mixed-versions-in-one-entry", dict(wit, entry=key, uses=[deps[names[q]], str(s)]))
                    return None
                deps[names[q]] = str(s)
                back[s] = sp.Symbol(names[q])
            elif str(s) in names:
                out("entry-uses-bare-name", dict(wit, entry=key, uses=str(s)))
                return None
        plain = R.xreplace(back)
        ks = [k for k, s in enumerate(order[j][1]) if sp.sympify(s) == plain]
        if not ks:
            out("entry-is-no-solution", dict(wit, entry=key, value=str(R)[:300], solutions=[str(s)[:300] for s in order[j][1]]))
            return None
        # which of several textually equal alternatives it is does not matter
        sub = {}
        for d, s in sorted(deps.items()):
            c = resolve(*where[s], stack + (key,))
            if c is None:
                return None
            sub[d] = s
        choice[key] = (ks, sub)
        return choice[key]

    vectors = []
    for i, row in enumerate(final):
        vec = []
        for j in range(len(row)):
            c = resolve(i, j)
            if c is None:
                return 0
            vec.append(c)
        # consistent: the version an entry refers to stands for the same alternative as this vector's own entry
        for j, (ks, sub) in enumerate(vec):
            for d, s in sub.items():
                own = str(row[names.index(d)][0])
                if not same(choice, own, s):
                    out("entry-refers-to-another-branch", dict(wit, row=i, entry=str(row[j][0]), uses=s, own=own, value=str(row[j][1])[:300]))
                    return 0
        for j, n in enumerate(table[i]):
            if n not in where or where[n][1] != j:
                out("table-name-unknown", dict(wit, row=i, name=n))
                return 0
            if not same(choice, n, str(row[j][0])):
                out("table-name-stands-for-another-branch", dict(wit, row=i, name=n, entry=str(row[j][0])))
        vectors.append(tuple(tuple(ks) for ks, _ in vec))
    # equal alternatives (listed twice in an unknown's solutions) are interchangeable: compare as multisets
    groups = [[tuple(k for k, b in enumerate(s) if sp.sympify(b) == sp.sympify(a)) for a in s] for _, s in order]
    want_v = sorted(itertools.product(*groups))
    if sorted(vectors) != want_v:
        dup = len(vectors) - len(set(vectors))
        out("not-every-combination-once", dict(wit, missing=[str(x) for x in list(set(want_v) - set(vectors))[:4]], repeated=dup))
    return len(vectors)


def same(choice, a, b):
    if a == b:
        return True
    ka, sa = choice[a]
    kb, sb = choice[b]
    return ka == kb and sorted(sa) == sorted(sb) and all(same(choice, sa[d], sb[d]) for d in sa)


def work(rec):
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik
    rng = rec.rng
    NM = ["th_1", "th_2", "th_3", "th_4", "th_5", "th_6", "d_1", "d_2", "th_12", "th_23", "th_234", "d_11", "th_123"]
    PR = [sp.Symbol(x) for x in ("a_1", "d_4", "Px", "Py", "r_11", "r_23", "v", "s1")]
    while not rec.over() and rec.evaluations < (20000 if rec.thorough else 1500):
        with rec.guard(40, hang=("does-not-return", {})):
            names = rng.sample(NM, rng.randint(1, 7))
            objs = [kc.unknown(sp.Symbol(n)) for n in names]
            R = ik.Robot()
            R.solution_nodes, R.notation_graph_edges, R.solveN = [], set(), 0
            nsolved = rng.choice([len(names)] * 3 + [rng.randint(0, len(names))])
            order, total, dens, cap = [], 1, rng.random(), rng.choice([12, 24, 24, 48, 150])
            try:
                for u in objs[:nsolved]:
                    ns = rng.choice([1, 1, 2, 2, 2, 3, 4])
                    if total * ns > cap:
                        ns = 1
                    total *= ns
                    deps = [sp.Symbol(n) for n, _ in order if rng.random() < dens]
                    base = sp.Add(*[rng.choice([d, sp.sin(d), sp.cos(d) * rng.choice(PR)]) for d in deps]) + rng.choice(PR)
                    sols = [base * (k + 1) + (sp.atan2(rng.choice(PR), rng.choice(PR)) if rng.random() < .3 else 0) for k in range(ns)]
                    if rng.random() < .15 and ns > 1 and deps:     # alternatives depending on different unknowns
                        sols[1] = sp.Integer(7) * rng.choice(PR) + sp.cos(deps[0])
                    if ns > 1 and rng.random() < .05:
                        sols[1] = sols[0]
                    u.solutions, u.solvemethod = list(sols), "m"
                    u.set_solved(R, objs)
                    order.append((u.name, list(sols)))
                R.create_solution_set()
                R.make_LHS_versions()
            except Exception as e:
                import traceback
                rec.violation(f"raised:{type(e).__name__}", dict(history=[(n, [str(x) for x in s]) for n, s in order], error=traceback.format_exc()[-800:]))
                continue
            hist = [(n, [str(x) for x in s]) for n, s in order]
            final = [[(e.LHS, e.RHS) for e in row] for row in R.FinalEqnMatrix]
            n = judge(rec.violation, dict(history=hist), order, final, [[str(x) for x in r] for r in R.solListMatrix], R.nversions,
                      [tuple(str(x) for x in r) for r in R.solutionSet])
            rec.ev(str(hist), sample=f"synthetic: {[(a, len(b)) for a, b in hist]} -> {n} vectors")
            rec.count("synthetic_vectors", n)
            if not order:
                rec.count("nothing_solved")


if __name__ == "__main__":
    chk = vk.Check("C13", rule="one evaluation = one list of solution vectors (of a full solve or a synthetic solving history), in which every entry was resolved to "
                   "the alternative it stands for; distinct = robot or different history")
    vk.fuzz(chk, __file__, budget=240 if vk.THOROUGH else 15)
    names = cases.CATALOG if vk.THOROUGH else [n for n in cases.CATALOG if n not in ("Raven-II", "Issue4", "KawasakiRS05L")]
    names = names + (sorted(cases.POOL) if vk.THOROUGH else sorted(chk.rng.sample(sorted(cases.POOL), 16)))
    for rec in cases.records(chk, names, budget=800 if vk.THOROUGH else 250, timeout=200, trace=0):
        us = sorted([u for u in rec["unknowns"] if u["solved"]], key=lambda u: u["solveorder"])
        order = [(u["name"], u["solutions"]) for u in us]
        n = judge(chk.violation, dict(robot=rec["robot"]), order, rec["R"]["final"], rec["R"]["solListMatrix"], rec["R"]["nversions"],
                  [tuple(x) for x in rec["R"]["solutionSet"]])
        chk.ev(rec["robot"], sample=f"{rec['robot']}: {[(a, len(b)) for a, b in order]} -> {n} vectors, every combination once")
        chk.count("full_solve_vectors", n)
    chk.finish(minimum=150, need=dict(synthetic_vectors=2000, full_solve_vectors=100, runs_complete=25))
