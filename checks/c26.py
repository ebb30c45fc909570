import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C26: the ranking leaf ticked on every small combination of candidate solution lists (and on random larger ones), compared
with a reference ranking."""
import itertools

import vk

MAXN = 4


def work(rec):
    import b3
    import sympy as sp
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik
    from ikbtleaves.rank_leaf import rank
    rng = rec.rng
    PAR = sp.symbols("a_2 a_3 l_1 r_11 r_12 r_33 Px Py Pz d_2")

    def case(n_sc, n_tan, v_sc, v_tan, rnd):
        """v_*: how many unknowns the solutions of a kind depend on"""
        names = ["th_1", "th_2", "th_3", "th_4", "th_5", "th_6", "th_23", "th_234", "d_3"]
        rng.shuffle(names)
        if rng.random() < .5:
            sub = names[:rng.randint(max(v_sc, v_tan) + 1, len(names))] if max(v_sc, v_tan) + 1 < len(names) else names
        else:
            sub = names
        unknowns = [kc.unknown(sp.Symbol(n)) for n in sub]
        u = unknowns[rng.randrange(len(unknowns))]
        others = [x for x in unknowns if x is not u]
        R = ik.Robot()
        done = others[:rng.randint(max(v_sc, v_tan), len(others))]
        for x in done:
            x.solutions = [sp.atan2(rng.choice(PAR), rng.choice(PAR)) + i for i in range(rng.randint(1, 3))]
            x.solvemethod = "algebra"
            x.set_solved(R, unknowns)
        rng.shuffle(unknowns)

        def sols(n, v, f):
            if n == 0:
                return []
            dep = rng.sample(done, v)
            pars = rng.sample(PAR, rng.randint(0, 4))
            arg = sum([rng.choice([sp.sin, sp.cos, lambda t: t])(d.symbol) * rng.choice(PAR) for d in dep], sp.S.Zero)
            for d in dep:
                if not arg.has(d.symbol):
                    arg += sp.cos(d.symbol)
            arg += sum(pars)
            if rng.random() < .3:
                arg = arg * sum(pars, sp.S.One) + rng.choice(PAR)
            for d in dep:
                assert arg.has(d.symbol)
            return [f(arg + (i if rng.random() < .3 else 0)) * (-1) ** i + sp.pi * (i // 2) for i in range(n)]

        sc = sols(n_sc, v_sc, rng.choice([sp.asin, sp.acos]))
        tan = sols(n_tan, v_tan, lambda e: sp.atan2(e, e + 3))
        e0, e1, e2, e9 = (kc.kequation(sp.Symbol(f"E{i}"), u.symbol * i) for i in (1, 2, 3, 9))
        tan_first = rng.random() < .5
        u.sincos_solutions, u.tan_solutions = list(sc), list(tan)
        u.sincos_eqnlist = [e0] if sc or rng.random() < .3 else []
        u.tan_eqnlist = [e1, e2] if tan or rng.random() < .3 else []
        u.solutions = list(tan + sc) if tan_first else list(sc + tan)
        u.solvable_sincos = bool(sc) or rng.random() < .4
        u.solvable_tan = bool(tan) or rng.random() < .4
        u.readytosolve = True
        if tan and (not sc or not tan_first):
            u.eqntosolve, u.secondeqn = e1, e2
        elif sc:
            u.eqntosolve = e0
            u.secondeqn = e2 if tan else None
        else:
            u.eqntosolve = e9
        u.solvemethod = ("arcsin, " if sc else "") + ("atan2(y,x), " if tan else "")
        if sc and tan and rng.random() < .5:    # what another leaf looked at in the meantime
            u.eqntosolve, u.secondeqn = rng.choice([e0, e1, e9, None]), rng.choice([e0, e9, None])
        before_eq = (u.eqntosolve, u.secondeqn)
        before_nodes = len(R.solution_nodes)
        before = {x.name: (x.solved, list(x.solutions), x.solveorder, set(x.dependencies), x.nversions, x.solvemethod) for x in others}
        union = list(u.solutions)

        def distinct(s):
            return len({x for x in unknowns if s[0].has(x.symbol)}) if s else 0

        if sc and tan:
            if len(sc) != len(tan):
                want = "sincos" if len(sc) < len(tan) else "tan"
            else:
                want = "sincos" if distinct(sc) < distinct(tan) else "tan"
        else:
            want = "sincos" if sc else "tan" if tan else None
        bb = b3.Blackboard()
        bb.set("curr_unk", u)
        bb.set("unknowns", unknowns)
        bb.set("Robot", R)

        wit = dict(sincos=[str(x) for x in sc], tan=[str(x) for x in tan], unknown=u.name, unknowns=[x.name for x in unknowns], want=want)
        try:
            st = rank().tick(type("T", (), dict(blackboard=bb))())
        except Exception as e:
            rec.violation(f"raised:{type(e).__name__}", dict(wit, error=repr(e)))
            return
        key = (n_sc, n_tan, v_sc, v_tan) if not rnd else (n_sc, n_tan, v_sc, v_tan, "random", rng.random())
        rec.ev(key, sample=f"{n_sc} arcsine solutions on {v_sc} unknowns, {n_tan} arctangent solutions on {v_tan}: kept {want}")
        rec.count("kept_" + str(want) + ("_of_both" if sc and tan else ""))

        def bad(k, **kw):
            rec.violation(k, dict(wit, **{a: str(b)[:300] for a, b in kw.items()}))

        if st != b3.SUCCESS:
            bad("status", got=st)
        for x in others:
            if before[x.name] != (x.solved, list(x.solutions), x.solveorder, set(x.dependencies), x.nversions, x.solvemethod):
                bad("other-unknown-changed", other=x.name)
        if bb.get("curr_unk") is not u or bb.get("Robot") is not R or bb.get("unknowns") is not unknowns:
            bad("blackboard-changed")
        if want is None:
            if u.solved or u.solutions or len(R.solution_nodes) != before_nodes or u.solveorder != 0:
                bad("nothing-produced-but-solved")
            return
        keep = sc if want == "sincos" else tan
        if list(u.solutions) != keep:
            other = tan if want == "sincos" else sc
            bad("kept-the-worse" if list(u.solutions) == other else "solutions-mixed", got=u.solutions)
            return
        if not u.solved or u.nsolutions != len(keep) or len(R.solution_nodes) != before_nodes + 1 or R.solution_nodes[-1].symbol != u.symbol:
            bad("not-recorded-as-solved", nsolutions=u.nsolutions, solved=u.solved)
        if u.solveorder != len(done) + 1:
            bad("solve-order", got=u.solveorder)
        deps = {x.name for x in unknowns if any(s.has(x.symbol) for s in keep)}
        if {d.name for d in u.dependencies} != deps:
            bad("dependencies", got=u.dependencies, want_deps=deps)
        nv = len(keep)
        for x in others:
            if x.name in deps:
                nv *= x.nsolutions
        if u.nversions != nv:
            bad("versions", got=u.nversions, want_versions=nv)
        if sc and tan:
            if u.eqntosolve is not (e0 if want == "sincos" else e1) or (want == "tan" and u.secondeqn is not e2):
                bad("equation-of-the-other", got=(u.eqntosolve, u.secondeqn))
            tail = u.solvemethod.rsplit("ranked", 1)[-1]
            sc_named = "sin" in tail.lower() or "cos" in tail.lower()
            if ("atan2" in tail) != (want == "tan") or sc_named != (want == "sincos"):
                bad("method-of-the-other", got=u.solvemethod)
        elif (u.eqntosolve, u.secondeqn) != before_eq:
            bad("equation-changed", got=(u.eqntosolve, u.secondeqn))

    grid = [g for g in itertools.product(range(MAXN + 1), range(MAXN + 1), range(5), range(5)) if (g[0] or g[2] == 0) and (g[1] or g[3] == 0)]
    for g in grid[rec.shard::rec.nshards]:
        for _ in range(8 if rec.thorough else 2):
            with rec.guard(20, hang=("does-not-return", {})):
                case(*g, False)
    for _ in range(4000 if rec.thorough else 150):
        if rec.over():
            break
        with rec.guard(20, hang=("does-not-return", {})):
            a, b = rng.randint(0, 8), rng.randint(0, 8)
            if rng.random() < .4:
                b = a
            case(a, b, rng.randint(0, 6) if a else 0, rng.randint(0, 6) if b else 0, True)


if __name__ == "__main__":
    chk = vk.Check("C26", rule="one evaluation = one tick of the ranking leaf on candidate solution lists; every combination of up to 4+4 solutions "
                   "depending on up to 4+4 unknowns, then random larger ones; distinct = different combinations")
    vk.fuzz(chk, __file__, budget=120 if vk.THOROUGH else 30)
    chk.finish(minimum=1000, need=dict(kept_None=2, kept_sincos=50, kept_tan=50, kept_sincos_of_both=200, kept_tan_of_both=200))
