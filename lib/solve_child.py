"""Child process: runs the real /repo/ikSolver.py script (the user's entry point) for one robot, in the current
directory, with monitors attached from outside; writes everything the monitors saw to a pickle.

usage: python solve_child.py JOB.json OUT.pickle
JOB: {"robot": name, "spec": null | {dh, vv, unknowns, params, pvals}, "script": "ikSolver.py", "trace": 0|1}
"""
import io
import json
import os
import pickle
import runpy
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IKBT_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(10000)

import memo  # noqa: E402

memo.install()
REAL_SLEEP = time.sleep
time.sleep = lambda s: None  # comp_detect pauses 2 s per pass for human readers

import sympy as sp  # noqa: E402

events = []
caught = {}
attached = []


class Unbounded(BaseException):
    """The solver goes on and on (a run ticks its leaves fewer than 500 times)."""


nticks = [0]


def eqpair(e):
    return (e.LHS, e.RHS)


def snap_unknown(u):
    return dict(
        symbol=u.symbol, name=u.name, n=u.n, solved=u.solved, solveorder=u.solveorder, solvemethod=u.solvemethod,
        solutions=list(u.solutions), nsolutions=u.nsolutions, nversions=u.nversions,
        deps=sorted((d.symbol for d in u.dependencies), key=str),
        eqn=eqpair(u.eqntosolve) if u.eqntosolve is not None and hasattr(u.eqntosolve, "LHS") else None,
        eqn2=eqpair(u.secondeqn) if u.secondeqn is not None and hasattr(u.secondeqn, "LHS") else None,
        argument=u.argument, assumption=list(u.assumption), solutionNames=list(u.solutionNames),
    )


def snap_me(M):
    return (sp.Matrix(M.Td), sp.Matrix(M.Ts), [eqpair(e) for e in M.auxeqns])


def install_monitors(trace):
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik

    orig_init = ik.Robot.__init__

    def r_init(self, *a, **kw):
        orig_init(self, *a, **kw)
        caught["R"] = self
        if trace and self.mequation_list:
            events.append(("robot_init", dict(meqs=[snap_me(m) for m in self.mequation_list])))

    ik.Robot.__init__ = r_init

    orig_solved = kc.unknown.set_solved

    def set_solved(self, R, unknowns):
        before = {str(u.symbol): u.solved for u in unknowns}
        rec = dict(before=before, t=time.time())
        events.append(("set_solved", rec))
        try:
            return orig_solved(self, R, unknowns)
        finally:
            rec["unk"] = snap_unknown(self)
            rec["solveN"] = R.solveN
            rec["nodes"] = [n.name for n in R.solution_nodes]
            caught["unknowns"] = unknowns

    kc.unknown.set_solved = set_solved

    if not trace:
        return

    attached.append("set_solved")
    orig_scan = ik.Robot.scan_for_equations

    def scan(self, variables):
        res = orig_scan(self, variables)
        caught["unknowns"] = variables
        events.append(("scan", dict(
            solved={str(u.symbol): u.solved for u in variables},
            syms=[str(u.symbol) for u in variables],
            l1=[eqpair(e) for e in self.l1], l2=[eqpair(e) for e in self.l2], l3p=[eqpair(e) for e in self.l3p],
            same=(res[0] is self.l1 and res[1] is self.l2 and res[2] is self.l3p),
            meqs=[snap_me(m) for m in self.mequation_list], aux=[eqpair(e) for e in self.kequation_aux_list])))
        return res

    ik.Robot.scan_for_equations = scan

    orig_soa = ik.Robot.sum_of_angles_transform

    def soa(self, variables):
        n0 = len(variables)
        res = orig_soa(self, variables)
        events.append(("soa", dict(before=n0, vars=[(u.symbol, u.n) for u in variables],
                                   meqs=[snap_me(m) for m in self.mequation_list],
                                   aux=[eqpair(e) for e in self.kequation_aux_list])))
        return res

    ik.Robot.sum_of_angles_transform = soa

    attached.extend(["scan", "soa"])
    import b3
    import ikbtleaves.algebra_solver as m1, ikbtleaves.sincos_solver as m2, ikbtleaves.tan_solver as m3
    import ikbtleaves.sinANDcos_solver as m4, ikbtleaves.two_eqn_m7 as m5, ikbtleaves.x2y2_transform as m6
    import ikbtleaves.sub_transform as m7, ikbtleaves.sum_id as m8, ikbtleaves.updateL as m9
    import ikbtleaves.rank_leaf as m10, ikbtleaves.assigner_leaf as m11, ikbtleaves.comp_detect as m12

    def wrap_tick(cls):
        orig = cls.__dict__.get("tick")
        if orig is None:
            return

        def tick(self, t):
            nticks[0] += 1
            if nticks[0] > 6000:
                raise Unbounded("more than 6000 leaf ticks")
            bb = t.blackboard
            cu = bb.get("curr_unk")
            st = orig(self, t)
            cu2 = bb.get("curr_unk")
            rec = dict(leaf=cls.__name__, status=st, curr=str(cu.symbol) if cu is not None else None,
                       curr_after=str(cu2.symbol) if cu2 is not None else None,
                       unsolved=[str(u.symbol) for u in (bb.get("unknowns") or []) if not u.solved])
            R = bb.get("Robot")
            if cls.__name__ in ("x2z2_transform", "sub_transform", "sum_id", "updateL") and R is not None:
                rec["meqs"] = [snap_me(m) for m in R.mequation_list]
                rec["aux"] = [eqpair(e) for e in R.kequation_aux_list]
                rec["lists"] = {k: [eqpair(e) for e in (bb.get(k) or [])] for k in ("eqns_1u", "eqns_2u", "eqns_3pu")}
                rec["vars"] = [str(u.symbol) for u in bb.get("unknowns")]
            events.append(("tick", rec))
            return st

        cls.tick = tick

    for mod in (m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12):
        for v in list(vars(mod).values()):
            if isinstance(v, type) and issubclass(v, b3.BaseNode) and v.__module__ == mod.__name__ \
                    and not v.__name__.startswith("Test"):
                wrap_tick(v)
                attached.append("tick:" + v.__name__)


def custom_params(spec, ikr):
    import ikbtbasics.kin_cl as kc

    names = {}
    for s in spec["unknowns"] + spec["params"]:
        names[s] = sp.Symbol(s)
    for s in spec.get("symbols", []):
        names[s] = sp.Symbol(s)
    dh = sp.Matrix([[sp.sympify(x, locals=names) for x in row] for row in spec["dh"]])
    variables = [kc.unknown(names[s]) for s in spec["unknowns"]]
    for i, v in enumerate(variables):
        v.n = spec.get("n", list(range(1, len(variables) + 1)))[i]
    params = [names[s] for s in spec["params"]]
    pvals = {names[k]: v for k, v in spec["pvals"].items()}
    return [dh, list(spec["vv"]), params, pvals, variables]


def meet(place, n):
    """Runs in this directory which meet each other before they go on at places where a file or directory is made, and which
    are slow there: the schedules under which a run can disturb another one."""
    import random
    rng = random.Random(os.getpid())
    sleep, seen = REAL_SLEEP, set()

    def wait(point):
        if point in seen:
            return
        seen.add(point)
        open(os.path.join(place, f"{point}.{os.getpid()}"), "w").close()
        end = time.time() + 4
        while time.time() < end and sum(f.startswith(point + ".") for f in os.listdir(place)) < n:
            sleep(.005)
        sleep(rng.choice([0, .01, .05, .1]))

    def wrap(mod, name, point):
        f = getattr(mod, name)

        def g(*a, **kw):
            if a and "fk_eqns" in str(a[0]) or a and "logs" in str(a[0]):
                wait(point + str(a[0]).strip("./").split("/")[0])
            return f(*a, **kw)
        setattr(mod, name, g)
    wrap(os, "mkdir", "mkdir")
    for name in ("replace", "rename"):
        wrap(os, name, "replace")
    dumps = pickle.dumps

    def dump(obj, file, *a, **kw):
        b = dumps(obj, *a, **kw)
        h = len(b) // 2
        file.write(b[:h])
        file.flush()
        wait("half-written")
        file.write(b[h:])
        file.flush()
        wait("written")
    pickle.dump = dump


def offer_at_random(seed):
    """Another order of offering the unknowns: whatever the assigner chose, a random unsolved unknown is put in its place
    (now and then the same one again)."""
    import random
    from ikbtleaves.assigner_leaf import assigner
    rng = random.Random(seed)
    orig = assigner.tick
    last = []

    def tick(self, t):
        st = orig(self, t)
        bb = t.blackboard
        left = [u for u in bb.get("unknowns") if not u.solved]
        if left:
            u = last[-1] if last and last[-1] in left and rng.random() < .15 else rng.choice(left)
            last.append(u)
            bb.set("curr_unk", u)
            caught.setdefault("offers", []).append(str(u.symbol))
        return st

    assigner.tick = tick


def main():
    outpath = sys.argv[2]
    job = json.load(open(sys.argv[1]))
    out = {"robot": job["robot"], "events": events, "error": None, "exit": None}
    for d in ("LaTex", "CodeGen/Python", "CodeGen/Cpp") + (() if job.get("meet") else ("fk_eqns", "logs")):
        os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(REPO, "LaTex")):
        if f.endswith(".tex"):
            with open(os.path.join(REPO, "LaTex", f)) as s, open(os.path.join("LaTex", f), "w") as d:
                d.write(s.read())
    import ikbtfunctions.ik_robots as ikr
    import ikbtbasics.ik_classes as ik

    if job.get("spec"):
        ikr.robot_params = lambda name: custom_params(job["spec"], ikr)
    try:
        install_monitors(job.get("trace", 1))
    except Exception:   # a monitoring point is gone: the checks see it in "attached"
        out["monitor_error"] = traceback.format_exc()
    out["attached"] = attached
    if job.get("offers") is not None:
        offer_at_random(job["offers"])
    kp = ik.kinematics_pickle

    def kinematics_pickle(*a, **kw):
        res = kp(*a, **kw)
        caught["M"], caught["R"], caught["unknowns"] = res
        return res

    ik.kinematics_pickle = kinematics_pickle
    ikr.kinematics_pickle = kinematics_pickle
    import ikbtfunctions.output_latex as ol
    for mod in list(sys.modules.values()):
        if getattr(mod, "kinematics_pickle", None) is kp:
            mod.kinematics_pickle = kinematics_pickle
    sys.argv = [job.get("script", "ikSolver.py"), job["robot"]]
    real_out, real_in = sys.stdout, sys.stdin
    sys.stdout = io.StringIO()
    sys.stdin = io.StringIO("")
    t0 = time.time()
    g = {}
    if job.get("fsize") is not None:      # a run which is killed while it writes: the kernel does it when a file gets too long
        import resource
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        nolimit = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (job["fsize"], nolimit[1]))
    real_dump = pickle.dump
    if job.get("meet"):
        meet(*job["meet"])
    try:
        g = runpy.run_path(os.path.join(REPO, job.get("script", "ikSolver.py")), run_name="__main__")
        out["exit"] = "normal"
    except SystemExit as e:
        out["exit"] = "quit"
        out["error"] = traceback.format_exc()
    except BaseException:
        out["exit"] = "raise"
        out["error"] = traceback.format_exc()
    finally:
        log = sys.stdout.getvalue()
        sys.stdout = real_out
        pickle.dump = real_dump
        if job.get("fsize") is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, nolimit)
    out["wall"] = time.time() - t0
    out["offers"] = caught.get("offers", [])
    out["log_tail"] = log[-3000:]
    M, R, unks = caught.get("M"), caught.get("R"), caught.get("unknowns")
    if M is None and R is not None:
        M = getattr(R, "Mech", None)
    if M is not None:
        out["mech"] = dict(DH=sp.Matrix(M.DH), vv=list(M.vv), params=list(M.params), pvals=dict(M.pvals),
                           T_06=getattr(M, "T_06", None), Ts=getattr(M, "Ts", None), J66=getattr(M, "J66", None))
    if R is not None:
        out["R"] = dict(
            name=R.name, params=list(R.params), solveN=R.solveN, nversions=R.nversions,
            nodes=[dict(name=n.name, solvemethod=n.solvemethod, argument=n.argument) for n in R.solution_nodes],
            final=[[eqpair(e) for e in row] for row in R.FinalEqnMatrix],
            solListMatrix=[[str(x) for x in row] for row in getattr(R, "solListMatrix", [])],
            solutionSet=[[str(x) for x in row] for row in sorted(getattr(R, "solutionSet", []), key=str)],
            edges=sorted((str(e.StartNode), str(e.dependsOn)) for e in R.notation_graph_edges),
            aux=[eqpair(e) for e in R.kequation_aux_list],
        )
        out["meqs"] = [snap_me(m) for m in R.mequation_list]
    if unks is not None:
        out["unknowns"] = [snap_unknown(u) for u in unks]
    files = {}
    for root, _, fs in os.walk("."):
        for f in fs:
            if f.endswith((".py", ".cpp", ".tex")) and not f.startswith("IK_"  ) or f.startswith(("IK_equations", "FK_equations")):
                p = os.path.join(root, f)
                files[os.path.relpath(p)] = open(p, errors="replace").read()
    out["files"] = files
    out["memo"] = dict(memo.stats)
    out["memo_fresh"] = memo.fresh if job.get("keep_memo") else {}
    with open(outpath, "wb") as f:
        pickle.dump(out, f, protocol=4)


if __name__ == "__main__":
    main()
