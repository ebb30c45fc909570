import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C11: bookkeeping of solved unknowns. (a) a monitor on unknown.set_solved during full solves, and the state at the end;
(b) synthetic solving histories: random unknowns with random solutions recorded in random order, and the assigner and
completion leaves ticked over random solved/unsolved states."""
import sympy as sp

import cases
import vk

POSE = {f"r_{i}{j}" for i in (1, 2, 3) for j in (1, 2, 3)} | {"Px", "Py", "Pz"}


def names_in(e):
    return {str(s) for s in sp.sympify(e).free_symbols}


def judge_unknown(out, wit, u, unks, solved_before, allowed, order, counts):
    """u: snapshot of a just solved unknown; solved_before: names solved earlier; counts: name -> number of solutions.
    out(key, detail) reports."""
    name = u["name"]
    w = dict(wit, unknown=name, solutions=[str(x) for x in u["solutions"]], method=u["solvemethod"])
    if not u["solved"]:
        out("not-marked-solved", w)
    if not u["solutions"]:
        out("solved-without-solution", w)
    if u["nsolutions"] != len(u["solutions"]):
        out("wrong-solution-count", dict(w, got=u["nsolutions"]))
    if u["solveorder"] != order:
        out("wrong-solve-order", dict(w, got=u["solveorder"], want=order))
    if not str(u["solvemethod"] or "").strip():
        out("no-method-recorded", w)
    occ = set()
    for x in u["solutions"]:
        occ |= names_in(x)
    used = occ & set(unks)
    if name in used:
        out("solution-contains-itself", w)
    if used - set(solved_before) - {name}:
        out("solution-uses-unsolved", dict(w, unsolved=sorted(used - set(solved_before))))
    if allowed is not None and occ - set(unks) - allowed:
        out("solution-uses-foreign-symbol", dict(w, foreign=sorted(occ - set(unks) - allowed)))
    deps = [str(d) for d in u["deps"]]
    if sorted(deps) != sorted(used):
        out("wrong-dependencies", dict(w, got=deps, want=sorted(used)))
    n = len(u["solutions"])
    for d in used:
        n *= counts.get(d, 1)
    if u["nversions"] != n:
        out("wrong-version-count", dict(w, got=u["nversions"], want=n))
    sn = [str(x) for x in u["solutionNames"]]
    if sn != [f"{name}s{i + 1}" for i in range(len(u["solutions"]))]:
        out("wrong-solution-names", dict(w, got=sn))
    return used


def full(chk, names):
    for rec in cases.records(chk, names, budget=600 if vk.THOROUGH else 200, timeout=150):
        robot = rec["robot"]
        wit = dict(robot=robot)
        out = chk.violation
        dh = rec["mech"]["DH"]
        allowed = {str(s) for s in dh.free_symbols} | {str(p) for p in rec["mech"]["params"]} | POSE | \
            {str(p) for p in rec["R"]["params"]}
        if "set_solved" not in rec["attached"]:
            chk.count("monitor_not_attached")
        done, counts, edges, states = [], {}, set(), {}
        for kind, r in rec["events"]:
            if kind != "set_solved" or "unk" not in r:
                continue
            u = r["unk"]
            chk.count("set_solved_events")
            chk.ev((robot, u["name"]), sample=f"{robot}: {u['name']} solved number {u['solveorder']} by {u['solvemethod']}, depends on {[str(d) for d in u['deps']]}")
            if r["before"].get(u["name"]) and u["name"] not in done or u["name"] in done:
                out("solved-twice", dict(wit, unknown=u["name"]))
            unks = list(r["before"])
            if sorted(n for n in unks if r["before"][n] and n != u["name"]) != sorted(done):
                out("solved-outside-bookkeeping", dict(wit, unknown=u["name"], marked=sorted(n for n in unks if r["before"][n]), recorded=done))
            used = judge_unknown(out, wit, u, unks, done, allowed, len(done) + 1, counts)
            done.append(u["name"])
            counts[u["name"]] = len(u["solutions"])
            edges |= {(u["name"], d) for d in used}
            states[u["name"]] = u
            if r["solveN"] != len(done) or [str(x) for x in r["nodes"]] != done:
                out("nodes-not-in-solving-order", dict(wit, nodes=[str(x) for x in r["nodes"]], want=done))
        # final state
        fin = {u["name"]: u for u in rec["unknowns"]}
        if len(fin) != len(rec["unknowns"]):
            out("unknown-listed-twice", dict(wit, unknowns=[u["name"] for u in rec["unknowns"]]))
        solved = sorted(n for n, u in fin.items() if u["solved"])
        if "set_solved" not in rec["attached"]:
            order = sorted((u["solveorder"], n) for n, u in fin.items() if u["solved"])
            for i, (o, n) in enumerate(order):
                used = judge_unknown(out, wit, fin[n], list(fin), done, allowed, i + 1, counts)
                done.append(n)
                counts[n] = len(fin[n]["solutions"])
                edges |= {(n, d) for d in used}
                chk.ev((robot, n))
        if sorted(done) != solved:
            out("final-state-differs", dict(wit, recorded=sorted(done), marked=solved))
        if rec["R"]["solveN"] != len(done) or [str(n["name"]) for n in rec["R"]["nodes"]] != done:
            out("nodes-not-in-solving-order", dict(wit, nodes=[str(n["name"]) for n in rec["R"]["nodes"]], want=done, solveN=rec["R"]["solveN"]))
        if sorted(edges) != sorted(rec["R"]["edges"]):
            out("wrong-edges", dict(wit, got=rec["R"]["edges"], want=sorted(edges)))
        chk.count("edges_compared", len(edges))
        for n, u in states.items():
            v = fin.get(n)
            if v is None:
                continue
            for k in ("solutions", "nsolutions", "nversions", "solveorder", "deps", "solutionNames"):
                if v[k] != u[k]:
                    out("changed-after-being-solved", dict(wit, unknown=n, field=k, then=str(u[k]), now=str(v[k])))
        for n, u in fin.items():
            if not u["solved"]:
                chk.count("unsolved_at_end")
                if u["solveorder"] and n in done or n in [str(x["name"]) for x in rec["R"]["nodes"]]:
                    out("unsolved-in-solution-graph", dict(wit, unknown=n))


def work(rec):
    """Synthetic histories."""
    import b3
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik
    import ikbtleaves.assigner_leaf as al
    import ikbtleaves.comp_detect as cd
    import time
    time.sleep = lambda s: None      # the completion leaf pauses for human readers
    rng = rec.rng
    NM = ["th_1", "th_2", "th_3", "th_4", "th_5", "th_6", "d_1", "d_2", "d_3", "th_12", "th_23", "th_234", "th_123", "th_34"]
    PR = ["a_1", "a_2", "d_4", "l_3", "Px", "Py", "Pz", "r_11", "r_23"]

    def expr(names):
        t = [sp.Symbol(rng.choice(PR))]
        for n in names:
            s = sp.Symbol(n)
            t.append(rng.choice([s, sp.sin(s), 2 * sp.cos(s), s * sp.Symbol(rng.choice(PR))]))
        e = rng.choice([sum(t), sp.Mul(*t), sp.atan2(sum(t), sp.Symbol("Px") - 3), sp.asin(sum(t))])
        return e

    while not rec.over() and rec.evaluations < (30000 if rec.thorough else 3000):
        with rec.guard(40, hang=("does-not-return", {})):
            names = rng.sample(NM, rng.randint(1, 9))
            objs = []
            for n in names:
                u = kc.unknown(sp.Symbol(n))
                u.n = int("".join(c for c in n if c.isdigit()))
                objs.append(u)
            R = ik.Robot()
            R.solution_nodes, R.notation_graph_edges, R.solveN = [], set(), 0
            byname = {u.name: u for u in objs}
            order = rng.sample(names, rng.randint(1, len(names)))
            done, counts, edges, fin = [], {}, set(), {}
            dens = rng.random()
            hist = []
            try:
                for n in order:
                    u = byname[n]
                    ns = rng.choice([1, 1, 2, 2, 2, 3, 4])
                    dep = [d for d in done if rng.random() < dens]
                    sols = [expr(rng.sample(dep, rng.randint(0, len(dep))) if rng.random() < .4 else dep) for _ in range(ns)]
                    hist.append((n, [str(s) for s in sols]))
                    u.solutions = list(sols)
                    u.solvemethod = "method"
                    u.nsolutions = rng.choice([0, len(sols)])
                    u.set_solved(R, objs)
                    snap = dict(name=u.name, solved=u.solved, solutions=list(u.solutions), nsolutions=u.nsolutions, solveorder=u.solveorder,
                                solvemethod=u.solvemethod, deps=[d.symbol for d in u.dependencies], nversions=u.nversions,
                                solutionNames=list(u.solutionNames))
                    used = judge_unknown(rec.violation, dict(history=hist), snap, names, done, None, len(done) + 1, counts)
                    if [str(x) for x in u.solutions] != hist[-1][1]:
                        rec.violation("solutions-changed", dict(history=hist, got=[str(x) for x in u.solutions]))
                    done.append(n)
                    counts[n] = ns
                    edges |= {(n, d) for d in used}
                    fin[n] = snap
                    rec.count("synthetic_set_solved")
                    got = sorted((str(e.StartNode), str(e.dependsOn)) for e in R.notation_graph_edges)
                    if got != sorted(edges):
                        rec.violation("wrong-edges", dict(history=hist, got=got, want=sorted(edges)))
                    if [str(x.name) for x in R.solution_nodes] != done or R.solveN != len(done):
                        rec.violation("nodes-not-in-solving-order", dict(history=hist, nodes=[str(x.name) for x in R.solution_nodes]))
                    if sorted(x.name for x in objs if x.solved) != sorted(done):
                        rec.violation("marks-others-solved", dict(history=hist))
                for n in done:
                    u = byname[n]
                    if {str(d.symbol) for d in u.dependencies} != {str(x) for x in fin[n]["deps"]} or \
                            u.nversions != fin[n]["nversions"] or u.solveorder != fin[n]["solveorder"] or u.nsolutions != fin[n]["nsolutions"]:
                        rec.violation("changed-after-being-solved", dict(history=hist, unknown=n))
            except Exception as e:
                import traceback
                rec.violation(f"raised:{type(e).__name__}", dict(history=hist, error=traceback.format_exc()[-700:]))
            rec.ev(str(hist), sample=f"synthetic: {hist[:3]} ...")
            # refuse a solve that has nothing to record, or that depends on something unsolved
            if len(done) < len(names):
                left = [n for n in names if n not in done]
                u = byname[rng.choice(left)]
                bad = rng.choice(["empty", "unsolved", "self"])
                other = rng.choice(left)
                u.solutions = [] if bad == "empty" else [sp.Symbol("Px") + sp.cos(sp.Symbol(other if bad == "unsolved" else u.name))]
                u.solvemethod = "method"
                ok = False
                if not (bad == "self" or other == u.name):
                    try:
                        u.set_solved(R, objs)
                        ok = True
                    except Exception:
                        pass
                    if ok:
                        rec.violation("accepts-" + bad, dict(history=hist, unknown=u.name, solutions=[str(x) for x in u.solutions]))
                    rec.count("refusals")
            # assigner and completion leaf
            bb = b3.Blackboard()
            for u in objs:
                u.solved = rng.random() < .6
            bb.set("unknowns", objs)
            bb.set("Robot", R)
            if rng.random() < .7:
                bb.set("counter", rng.randint(0, len(objs)))
            bb.set("curr_unk", rng.choice([None] + objs))
            a, tr = al.assigner(), b3.BehaviorTree()
            tr.root = a
            c, tc = cd.comp_det(), b3.BehaviorTree()
            c.FailAllDone = inv = rng.random() < .5
            tc.root = c
            handed, hist2 = [], []
            for _ in range(rng.randint(1, 2 * len(objs) + 2)):
                st = [u.solved for u in objs]
                try:
                    r = tr.tick("x", bb)
                except Exception as e:
                    rec.violation(f"assigner-raised:{type(e).__name__}", dict(solved=st, error=repr(e), history=hist2))
                    break
                cu = bb.get("curr_unk")
                hist2.append((st, cu.name if cu is not None else None))
                rec.count("assigner_ticks")
                if not all(st):
                    if r != b3.SUCCESS or cu is None or cu.solved:
                        rec.violation("assigner-hands-out-solved", dict(names=names, history=hist2))
                if [u.solved for u in objs] != st:
                    rec.violation("assigner-changes-state", dict(names=names, history=hist2))
                handed.append(cu)
                if rng.random() < .3 and not all(st):
                    rng.choice([u for u in objs if not u.solved]).solved = True
                    handed = []
                unsolved = [u for u in objs if not u.solved]
                # nobody is starved: among as many successive assignments as there are unsolved unknowns each comes up once
                k = len(unsolved)
                if k and len(handed) >= k and {id(x) for x in handed[-k:]} != {id(x) for x in unsolved}:
                    rec.violation("assigner-starves", dict(names=names, history=hist2))
                alldone = all(u.solved for u in objs)
                try:
                    r = tc.tick("x", bb)
                except Exception as e:
                    rec.violation(f"comp_det-raised:{type(e).__name__}", dict(error=repr(e)))
                    break
                rec.count("completion_ticks")
                if alldone:
                    rec.count("completion_ticks_all_solved")
                if r != (b3.SUCCESS if alldone != inv else b3.FAILURE):
                    rec.violation("wrong-completion", dict(names=names, solved=[u.solved for u in objs], inverted=inv, got=r))


if __name__ == "__main__":
    chk = vk.Check("C11", rule="one evaluation = one solved unknown of a full solve (every recorded attribute compared with what its solutions say) or one "
                   "synthetic solving history of up to nine unknowns; distinct = (robot, unknown) or different history")
    vk.fuzz(chk, __file__, budget=120 if vk.THOROUGH else 10)
    full(chk, cases.CATALOG + cases.pool_pick(109 if vk.THOROUGH else 30, chk.rng))
    chk.finish(minimum=300, need=dict(set_solved_events=100 if "monitor_not_attached" not in chk.cov else 0, runs_complete=25,
                                      synthetic_set_solved=500, assigner_ticks=500, completion_ticks_all_solved=50, refusals=50, edges_compared=50))
