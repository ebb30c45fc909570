import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C27: every run ends by itself, without an exception, within the documented number of passes, writes its outputs, and does
not present unsolved unknowns as solved. Workload: the whole catalogue, the reference arms, and freshly generated arms
(including redundant ones, arms with odd twists and arms without closed form)."""
import collections
import re
import statistics

import sympy as sp

import cases
import gen
import vk

OUTER, INNER = 10, 6          # the documented limits: ten passes, six unknowns tried in each


def judge(chk, rec, spec):
    name = rec["robot"]
    wit = dict(robot=name, dh=spec["dh"] if spec else None, vv=spec["vv"] if spec else None)
    if rec["exit"] != "normal":
        kind = "does-not-end" if "Unbounded" in str(rec.get("error")) else "ends-with-exception"
        last = (rec.get("error") or "").strip().split("\n")[-1][:200]
        chk.violation(f"{kind}:{last.split(':')[0]}", dict(wit, exit=rec["exit"], error=(rec.get("error") or "")[-1500:]))
        return
    ticks = collections.Counter(e["leaf"] for k, e in rec["events"] if k == "tick")
    chk.ev(name if not name.startswith("G") else str(spec["dh"]), sample=f"{name}: ended normally, {ticks.get('sub_transform')} passes, {ticks.get('assigner')} assignments, "
           f"solved {sum(u['solved'] for u in rec['unknowns'])}/{len(rec['unknowns'])}")
    chk.count("leaf_ticks", sum(ticks.values()))
    if ticks["sub_transform"] > OUTER or ticks["assigner"] > OUTER * INNER or ticks["comp_det"] > OUTER or ticks["updateL"] > OUTER:
        chk.violation("too-many-passes", dict(wit, ticks=dict(ticks)))
    # the run stops as soon as everything is solved
    solved = {u["name"] for u in rec["unknowns"] if u["solved"]}
    unsolved = {u["name"] for u in rec["unknowns"] if not u["solved"]}
    if unsolved:
        chk.count("runs_with_unsolved")
    else:
        chk.count("runs_all_solved")
    if not solved:
        chk.count("runs_with_nothing_solved")
    done_at = None
    for i, (k, e) in enumerate(rec["events"]):
        if k == "tick" and e["leaf"] == "comp_det" and done_at is None and not e["unsolved"]:
            done_at = i
        elif k == "tick" and done_at is not None:
            chk.violation("goes-on-after-completion", dict(wit, leaf=e["leaf"]))
            break
    # the completion detector says "all solved" when all are, sums of angles included, and only then
    for k, e in rec["events"]:
        if k == "tick" and e["leaf"] == "comp_det":
            chk.count("completion_verdicts")
            if (e["status"] == 1) != (not e["unsolved"]):
                chk.violation("completion-verdict-wrong", dict(wit, unsolved=e["unsolved"], status=e["status"]))
    # a leaf that claims success leaves its unknown solved; one that fails leaves it unsolved
    for k, e in rec["events"]:
        if k == "tick" and e["leaf"] in ("algebra_solve", "simu_solver", "sinandcos_solve", "rank") and e["curr"]:
            if e["leaf"] in ("algebra_solve", "simu_solver"):
                chk.count("solver_verdicts")
                if (e["status"] == 1) != (e["curr"] not in e["unsolved"]):
                    chk.violation("leaf-status-dishonest", dict(wit, leaf=e["leaf"], unknown=e["curr"], status=e["status"]))
    # outputs
    f = rec["files"]
    want = {"tex": f"LaTex/ik_solution_{name}.tex", "py": f"CodeGen/Python/IK_equations{name}.py", "cpp": f"CodeGen/Cpp/IK_equations{name}.cpp"}
    for k, p in want.items():
        if not f.get(p, "").strip():
            chk.violation("output-missing:" + k, dict(wit, files=sorted(f)))
        else:
            chk.count("outputs_present")
    # honesty
    nodes = [str(n["name"]) for n in rec["R"]["nodes"]]
    if set(nodes) != solved or len(nodes) != len(set(nodes)):
        chk.violation("solved-list-dishonest", dict(wit, nodes=nodes, solved=sorted(solved)))
    for u in rec["unknowns"]:
        if not u["solved"] and u["solutionNames"]:
            chk.violation("unsolved-has-versions", dict(wit, unknown=u["name"]))
        if u["solved"] and not u["solutions"]:
            chk.violation("solved-without-solution", dict(wit, unknown=u["name"]))
    present = set()
    for row in rec["R"]["final"]:
        for L, R in row:
            present.add(str(L).rsplit("v", 1)[0])
            bad = {str(s) for s in sp.sympify(R).free_symbols} & unsolved
            if bad:
                chk.violation("solution-uses-unsolved", dict(wit, equation=f"{L} = {R}", unsolved=sorted(bad)))
    for row in rec["R"]["solListMatrix"]:
        present |= {str(x).rsplit("v", 1)[0] for x in row}
    if present & unsolved:
        chk.violation("unsolved-presented-as-solved", dict(wit, unknowns=sorted(present & unsolved)))
    if solved - present:
        chk.violation("solved-not-presented", dict(wit, unknowns=sorted(solved - present)))
    for k in ("py", "cpp"):
        code = f.get(want[k], "")
        for n in sorted(unsolved):
            if re.search(rf"\b{re.escape(n)}v\d+\b", code):
                chk.violation("unsolved-in-generated-code:" + k, dict(wit, unknown=n))
        for n in sorted(solved):
            chk.count("code_names_checked")
            if not re.search(rf"\b{re.escape(n)}v\d+\b", code):
                chk.violation("solved-not-in-generated-code:" + k, dict(wit, unknown=n))


def work(rec):
    """The completion detector on random lists of unknowns, joints and sums of angles, in any order, solved or not."""
    import time
    import b3
    import ikbtbasics.ik_classes as ik
    import ikbtbasics.kin_cl as kc
    import ikbtleaves.comp_detect as mcd
    time.sleep = lambda s: None
    rng = rec.rng
    limit = 20000 if rec.thorough else 400
    for _ in range(limit):
        if rec.over():
            break
        with rec.guard(15):
            names = rng.sample([f"th_{i}" for i in range(1, 7)] + [f"d_{i}" for i in range(1, 7)], rng.randint(0, 6)) \
                + rng.sample(["th_12", "th_23", "th_34", "th_123", "th_234", "th_345", "th_2345"], rng.randint(0, 3))
            if not names:
                continue
            if rng.random() < .3:
                rng.shuffle(names)
            kind = rng.choice(["all", "one-left", "last-left", "sums-left", "random", "none"])
            left = rng.choice(names)
            us = []
            for i, nm in enumerate(names):
                u = kc.unknown(sp.Symbol(nm))
                u.n = int(nm.split("_")[1]) if len(nm) > 4 and rng.random() < .9 else i
                u.solved = {"all": True, "one-left": nm != left, "last-left": i < len(names) - 1, "sums-left": len(nm.split("_")[1]) == 1,
                            "random": rng.random() < .6, "none": False}[kind]
                us.append(u)
            bb = b3.Blackboard()
            before = [(u.symbol, u.solved) for u in us]
            for k, v in dict(unknowns=us, Tm=None, Robot=ik.Robot(), eqns_1u=[], eqns_2u=[], eqns_3pu=[], curr_unk=us[0]).items():
                bb.set(k, v)
            leaf = mcd.comp_det()
            leaf.BHdebug = False
            leaf.FailAllDone = rng.random() < .3
            tree = b3.BehaviorTree()
            tree.root = leaf
            st = tree.tick("x", bb)
            all_ = all(s for _, s in before)
            wit = dict(unknowns=[(str(x), s) for x, s in before], n=[u.n for u in us], fail_when_done=leaf.FailAllDone, status=st)
            rec.count("detector_ticks")
            rec.count("detector_all_solved" if all_ else "detector_some_unsolved")
            rec.ev(str(wit), sample=None)
            if (st == b3.SUCCESS) != (all_ != leaf.FailAllDone) or st not in (b3.SUCCESS, b3.FAILURE):
                rec.violation("completion-verdict-wrong", wit)
            if [(u.symbol, u.solved) for u in bb.get("unknowns")] != before:
                rec.violation("detector-changes-unknowns", wit)


if __name__ == "__main__":
    chk = vk.Check("C27", rule="one evaluation = one complete run of the solver script for one arm, judged on its exit, passes, outputs and what it presents; "
                   "or one tick of the completion detector on a random list; distinct = arm, list")
    vk.fuzz(chk, __file__, budget=60 if vk.THOROUGH else 3, memo=0)
    if vk.THOROUGH:
        names, nrand = cases.CATALOG + sorted(cases.POOL), 60
    else:
        rest = [n for n in sorted(cases.POOL) if n not in cases.POOL_SOLVED and n != "S005"]
        names = cases.CATALOG + sorted(chk.rng.sample(rest, 25)) + sorted(chk.rng.sample(cases.POOL_SOLVED, 8))
        nrand = 0
    jobs = [cases.job(n) for n in names]
    for i in range(nrand):
        s = gen.random_spec(chk.rng, dof=chk.rng.choice([2, 3, 3, 4, 4]), name=f"G{vk.SEED}x{i}", odd=chk.rng.random() < .3)
        jobs.append(dict(robot=s["name"], spec=s))
    walls, late = [], []
    for j, rec in vk.solve_many(jobs, timeout=400 if vk.THOROUGH else 240, budget=850 if vk.THOROUGH else 400):
        chk.count("solver_runs")
        if rec["exit"] == "skipped":
            chk.count("runs_skipped")
        elif rec["exit"] == "timeout":
            late.append((rec["robot"], j.get("spec")))
        else:
            walls.append(rec.get("wall", 0))
            judge(chk, rec, j.get("spec"))
    # A run that is stuck where no monitor sits. Only arms whose runs take seconds count, and only on a machine which is not slow.
    quickruns = [r for r in late if r[0] in cases.SOLVED or r[0] in cases.POOL]
    chk.cov["runs_timeout"] = len(late)
    chk.cov["median_run_s"] = round(statistics.median(walls), 2) if walls else None
    if quickruns and (not walls or statistics.median(walls) < 12):
        chk.violation("does-not-end:timeout", dict(robots=[r[0] for r in quickruns], normal_runs_median_s=chk.cov["median_run_s"]))
    chk.finish(minimum=540, need=dict(outputs_present=100, runs_with_unsolved=8, runs_all_solved=20, leaf_ticks=3000, completion_verdicts=60, detector_all_solved=100, detector_some_unsolved=300))
