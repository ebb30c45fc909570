import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C20: histories of runs in one directory (stored forward kinematics, changed parameter values, changed DH tables, killed and
simultaneous runs), each compared with a run in a fresh directory."""
import concurrent.futures as cf
import copy
import json
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import subprocess
import tempfile
import threading
import time

import sympy as sp

import cases
import gen
import vk


class Dir:
    """A directory in which a user runs the tool several times."""

    def __init__(self):
        self.d = tempfile.mkdtemp(dir=vk.scratch())
        self.work = os.path.join(self.d, "w")
        os.mkdir(self.work)
        self.k = 0
        self.lock = threading.Lock()

    def run(self, job, seed="0", timeout=150, limit=None, kill_when=None):
        """One run; limit: the kernel kills the process when a file it writes grows beyond so many bytes;
        kill_when: (stage, delay) SIGKILL when a file appears in fk_eqns (stage 'new') / disappears or is renamed ('done')."""
        with self.lock:
            self.k += 1
            k = self.k
        job = dict(job, trace=1, fsize=limit)
        jp, op = os.path.join(self.d, f"job{k}.json"), os.path.join(self.d, f"out{k}.p")
        json.dump(job, open(jp, "w"))
        argv = [vk.PY, os.path.join(vk.HERE, "solve_child.py"), jp, op]
        env = vk.child_env()
        env["PYTHONHASHSEED"] = seed
        p = subprocess.Popen(argv, cwd=self.work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, start_new_session=True, errors="replace")
        killed = False
        if kill_when is not None:
            stage, delay = kill_when
            store = os.path.join(self.work, "fk_eqns")
            end = time.time() + timeout
            while p.poll() is None and time.time() < end:
                time.sleep(0.0003)
                names = os.listdir(store) if os.path.isdir(store) else []
                if names and (stage == "new" or any(n.endswith("_pickle.p") for n in names)):
                    time.sleep(delay)
                    if p.poll() is None:
                        os.killpg(p.pid, signal.SIGKILL)
                        killed = True
                    break
        try:
            so, se = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return {"robot": job["robot"], "exit": "timeout"}
        if not os.path.exists(op):
            return {"robot": job["robot"], "exit": "killed" if killed or p.returncode < 0 else "crash", "rc": p.returncode, "error": (so + se)[-1500:]}
        rec = pickle.load(open(op, "rb"))
        os.remove(op)
        return rec

    def stored(self):
        s = os.path.join(self.work, "fk_eqns")
        return sorted(os.listdir(s)) if os.path.isdir(s) else []

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def facts(r):
    """What must not depend on whether the forward kinematics were stored."""
    U = r["unknowns"]
    first = next((e for k, e in r["events"] if k == "scan"), None)
    lists = {}
    # equation lists the solver starts with
    scans = [e for k, e in r["events"] if k == "scan"]
    last = scans[-1] if scans else {}
    name = r["robot"]
    code = {d: sorted(r["files"].get(f, "").split("\n")) for d, f in (("py", f"CodeGen/Python/IK_equations{name}.py"), ("cpp", f"CodeGen/Cpp/IK_equations{name}.cpp"))}
    drop = ("solution_list[", "(", ")", "#", "//")
    code = {k: [x.strip() for x in v if " = " in x and not x.strip().startswith(drop) and "solution_list" not in x] for k, v in code.items()}
    return {
        "dh": str(r["mech"]["DH"]), "joint-types": r["mech"]["vv"], "parameters": sorted(map(str, r["mech"]["params"])),
        "robot-parameters": sorted(map(str, r["R"]["params"])),
        "parameter-values": sorted((str(k), str(v)) for k, v in r["mech"]["pvals"].items()),
        "pose": str(r["mech"]["T_06"]), "links": str(r["mech"]["Ts"]), "jacobian": str(r["mech"]["J66"]),
        "unknowns": [(u["name"], u["n"], u["solved"], u["solveorder"], u["solvemethod"]) for u in U],
        "solutions": [[str(x) for x in u["solutions"]] for u in U],
        "dependencies": [[str(x) for x in u["deps"]] for u in U],
        "equation-lists": [[str(e) for e in last.get(k, [])] for k in ("l1", "l2", "l3p")],
        "matrix-equations": [str(m) for m in r["meqs"]], "sum-definitions": [str(e) for e in r["R"]["aux"]],
        "solution-vectors": sorted(tuple(map(str, g)) for g in r["R"]["solutionSet"]),
        "vector-entries": [[str(e) for e in row] for row in r["R"]["final"]],
        "python": code["py"], "cpp": code["cpp"],
    }


def differ(chk, wit, a, b, what, skip=()):
    for k in a:
        if k not in skip and a[k] != b[k]:
            d = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), 0) if isinstance(a[k], list) else 0
            cut = (lambda v: str(v[d:d + 2])[:500]) if isinstance(a[k], list) else (lambda v: str(v)[:500])
            chk.violation(f"{what}:{k}", dict(wit, fresh=cut(a[k]), stored=cut(b[k])))


def ok(chk, wit, r, key):
    if r["exit"] == "timeout":
        chk.count("runs_timeout")
        return False
    if r["exit"] != "normal" or "unknowns" not in r or "mech" not in r:
        chk.violation(key, dict(wit, exit=r["exit"], error=(r.get("error") or "")[-1200:], log=(r.get("log_tail") or "")[-300:]))
        return False
    chk.count("runs_complete")
    return True


def spec_of(name):
    return cases.POOL[name]


def change_values(spec, rng):
    s = copy.deepcopy(spec)
    s["pvals"] = {k: round(float(v) * 1.5 + rng.uniform(0.1, 1), 3) if not isinstance(v, str) else v for k, v in s["pvals"].items()}
    return s


def change_dh(spec, rng):
    """A similar robot with the same name: one entry of the table differs."""
    s = copy.deepcopy(spec)
    used = [i for i, r in enumerate(s["dh"]) if any(u in r for u in s["unknowns"])]
    for _ in range(50):
        i = rng.choice(used)
        j = rng.choice([0, 1, 2, 3])
        old = s["dh"][i][j]
        if old in s["unknowns"]:
            continue
        new = rng.choice([["0", "pi/2", "-pi/2", "pi"], ["0"] + s["params"], ["0"] + s["params"], ["0", "pi/2"]][j])
        if sp.sympify(new) != sp.sympify(old):
            s["dh"][i][j] = new
            return s, (i, j)
    return None, None


def other_tables(spec, rng, n):
    """Tables which differ from this one in a single entry (every entry in turn), or in the order of two rows."""
    out = []
    syms = ["0", "pi/2", "-pi/2", "pi"]
    for i in range(6):
        for j in range(4):
            old = sp.sympify(spec["dh"][i][j])
            if str(old) in spec["unknowns"]:
                new = [-old, old + 1, old + sp.pi / 2]
            elif j in (0, 3):
                new = [sp.sympify(x) for x in syms] + [-old]
            else:
                new = [sp.sympify(x) for x in ["0"] + spec["params"]] + [-old, 2 * old] + ([] if old != 0 else [sp.Integer(1)])
            new = [x for x in new if x != old]
            close = [old + sp.Rational(1, 1000), old * (1 + sp.Rational(1, 10 ** 6)) if old != 0 else sp.Rational(1, 10 ** 7), old + sp.Float("0.004")]
            for x in rng.sample(new, min(len(new), n)) + rng.sample(close, 2 if n > 1 else 1):
                s = copy.deepcopy(spec)
                s["dh"][i][j] = str(x)
                out.append([f"[{i},{j}] {old} -> {x}", s])
    rows = [(i, k) for i in range(6) for k in range(i) if spec["dh"][i] != spec["dh"][k] and spec["vv"][i] == spec["vv"][k]]
    for i, k in rng.sample(rows, min(len(rows), n)):
        s = copy.deepcopy(spec)
        s["dh"][i], s["dh"][k] = s["dh"][k], s["dh"][i]
        out.append([f"rows {k} and {i} exchanged", s])
    rng.shuffle(out)
    return out


_fresh = {}
_lock = threading.Lock()


def fresh(name, spec):
    """The run in a fresh directory (one per robot and parameter values), and the size of what it stored."""
    key = (name, json.dumps(spec, sort_keys=True))
    with _lock:
        ev = _fresh.get(key)
        mine = ev is None
        if mine:
            ev = _fresh[key] = dict(ready=threading.Event())
    if mine:
        F = Dir()
        try:
            ev["rec"] = F.run(dict(robot=name, spec=spec), "0")
            ev["size"] = max([os.path.getsize(os.path.join(F.work, "fk_eqns", n)) for n in F.stored()] or [0])
        finally:
            F.close()
            ev["ready"].set()
    ev["ready"].wait()
    return ev.get("rec", {"robot": name, "exit": "crash"}), ev.get("size", 0)


def story(chk, kind, name, spec, rng):
    """One history; the reference is a run in a fresh directory."""
    wit = dict(robot=name, history=kind, dh=spec["dh"] if spec else None)
    D = Dir()
    j = lambda s=spec, **kw: dict(robot=name, spec=s, **kw)     # noqa: E731
    try:
        seeds = [str(rng.randrange(1, 2 ** 32)) for _ in range(4)]
        if kind == "again":
            a, size = fresh(name, spec)
            if not ok(chk, wit, a, "fresh-run-fails"):
                return
            fa = facts(a)
            hist = [j(script="fkOnly.py")] if rng.random() < .5 else [j()]
            for h in hist:
                if not ok(chk, wit, D.run(h, seeds[0]), "first-run-fails"):
                    return
            if not any(n.endswith(".p") for n in D.stored()):
                chk.count("nothing_stored")
            for i in range(2):
                b = D.run(j(), seeds[1 + i])
                if not ok(chk, wit, b, "run-from-stored-data-fails"):
                    return
                differ(chk, wit, fa, facts(b), "stored")
                chk.ev((kind, name, i), sample=f"{name}: run {i + 2} in the same directory gives the same {len(fa['unknowns'])} unknowns, {len(fa['solution-vectors'])} vectors")
        elif kind == "values":
            s2 = change_values(spec, rng)
            if rng.random() < .6:       # a value given only later, or no longer
                less = rng.choice([s2, spec])
                less["pvals"] = {k: v for k, v in less["pvals"].items() if rng.random() < .5}
                chk.count("values_given_only_once")
            a, _ = fresh(name, s2)
            if not ok(chk, wit, a, "fresh-run-fails") or not ok(chk, wit, D.run(j(), seeds[0]), "first-run-fails"):
                return
            b = D.run(j(s2), seeds[1])
            if ok(chk, wit, b, "run-from-stored-data-fails"):
                differ(chk, wit, facts(a), facts(b), "changed-values")
                chk.ev((kind, name), sample=f"{name}: new parameter values are used with stored forward kinematics")
            c0, _ = fresh(name, spec)     # and the first values again
            c = D.run(j(), seeds[2])
            if ok(chk, wit, c, "run-from-stored-data-fails") and ok(chk, wit, c0, "fresh-run-fails"):
                differ(chk, wit, facts(c0), facts(c), "changed-values-back")
                chk.ev((kind, name, "back"))
        elif kind == "table":
            s2, where = change_dh(spec, rng)
            if s2 is None:
                return
            wit["changed"] = dict(entry=where, dh=s2["dh"])
            a, size = fresh(name, spec)
            if not ok(chk, wit, a, "fresh-run-fails") or not ok(chk, wit, D.run(j(), seeds[0]), "first-run-fails"):
                return
            for script in ("ikSolver.py", "fkOnly.py"):
                for sub in ("LaTex", "CodeGen"):
                    shutil.rmtree(os.path.join(D.work, sub), ignore_errors=True)
                b = D.run(j(s2, script=script), seeds[1])
                if b["exit"] == "timeout":
                    chk.count("runs_timeout")
                    continue
                made = [f for f in b.get("files", {}) if "equations" in f or "ik_solution" in f]
                chk.ev((kind, name, script), sample=f"{name}: the table changed at {where}: {script} -> {b['exit']}")
                if b["exit"] == "normal":
                    # refused, or (equally good) computed anew
                    if script == "ikSolver.py" and sp.Matrix(b["mech"]["DH"]) != sp.Matrix([[sp.sympify(x) for x in r] for r in s2["dh"]]):
                        chk.violation("stored-data-for-another-table-used", dict(wit, script=script))
                    elif script == "ikSolver.py":
                        c, _ = fresh(name, s2)
                        if c["exit"] == "normal":
                            differ(chk, wit, facts(c), facts(b), "changed-table")
                    elif sp.Matrix(b["mech"]["DH"]) != sp.Matrix([[sp.sympify(x) for x in r] for r in s2["dh"]]):
                        chk.violation("stored-data-for-another-table-used", dict(wit, script=script))
                else:
                    if b["exit"] != "quit" or "DH" not in b.get("log_tail", ""):
                        chk.violation("refused-without-a-message", dict(wit, script=script, exit=b["exit"], error=(b.get("error") or "")[-800:]))
                    if made:
                        chk.violation("output-although-refused", dict(wit, script=script, files=made))
            c = D.run(j(), seeds[2])       # the right table still works
            if ok(chk, wit, c, "run-from-stored-data-fails"):
                differ(chk, wit, facts(a), facts(c), "stored")
        elif kind == "tables":
            tables = other_tables(spec, rng, 3 if vk.THOROUGH else 1)
            jp, op = os.path.join(D.d, "tables.json"), os.path.join(D.d, "tables.out")
            json.dump(dict(robot=name, spec=spec, tables=tables, limit=200 if vk.THOROUGH else 60), open(jp, "w"))
            env = vk.child_env()
            env["PYTHONHASHSEED"] = seeds[0]
            p = subprocess.run([vk.PY, os.path.join(vk.HERE, "tables_child.py"), jp, op], cwd=D.work, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
            if not os.path.exists(op):
                chk.violation("tables-not-judged", dict(wit, error=p.stdout[-1000:]))
                return
            res = json.load(open(op))
            want = dict((w, s) for w, s in tables + [["same", spec]])
            first = res[0]
            for what, r, dh, note, T in res:
                w = dict(wit, changed=what, result=r, note=note[-400:])
                same = what == "same"
                if r == "refused" and not same:
                    if "DH" not in note:
                        chk.violation("refused-without-a-message", w)
                elif r != "solves":
                    chk.violation("run-from-stored-data-fails" if same else "changed-table-not-refused", w)
                    continue
                elif [[sp.sympify(x) for x in row] for row in dh] != [[sp.sympify(x) for x in row] for row in want[what]["dh"]] and not any(
                        q[0] not in ("0", "pi/2", "-pi/2", "pi") for q in want[what]["dh"]):
                    chk.violation("stored-data-for-another-table-used", dict(w, solver_was_given=dh))
                if same and r == "solves" and (dh, T) != (first[2], first[4]):
                    chk.violation("stored:pose", dict(w, fresh=first[4][:400], stored=T[:400]))
                chk.ev((kind, name, what), sample=f"{name}: stored data, then the table with {what}: {r}")
                chk.count("tables_" + r)
                chk.count("tables_judged")
        elif kind in ("killed", "killed-at"):
            a, size = fresh(name, spec)
            if not ok(chk, wit, a, "fresh-run-fails"):
                return
            fa = facts(a)
            if size == 0:
                chk.count("nothing_stored")
            for i in range(rng.choice([1, 1, 2])):
                script = rng.choice(["ikSolver.py", "ikSolver.py", "fkOnly.py"])
                if kind == "killed":
                    limit = rng.choice([0, 1, rng.randrange(1, max(2, size)), rng.randrange(1, max(2, size)), max(1, size - 1), max(1, size // 2)])
                    k = D.run(j(script=script), seeds[0], limit=limit)
                    at = f"after {limit} of {size} bytes"
                else:
                    when = (rng.choice(["new", "new", "done"]), rng.choice([0, 0, 0.001, 0.003, 0.01, 0.05]))
                    k = D.run(j(script=script), seeds[0], kill_when=when)
                    at = f"{when}"
                wit["killed"] = at
                chk.count("crash_points" if k["exit"] in ("killed", "crash", "raise") else "crash_points_missed")
                wit["left"] = [(n, os.path.getsize(os.path.join(D.work, "fk_eqns", n))) for n in D.stored()]
                if any(s for n, s in wit["left"]):
                    chk.count("crashes_which_left_data")
                if k["exit"] == "normal" and kind == "killed" and size and limit < size:
                    chk.count("limit_without_effect")
            for i in range(2):
                b = D.run(j(), seeds[1 + i])
                if ok(chk, wit, b, "run-after-a-killed-run-fails"):
                    differ(chk, wit, fa, facts(b), "after-a-killed-run")
                    chk.ev((kind, name, at), sample=f"{name}: run killed {at}, left {wit['left']}: run {i + 1} after it gives the same results")
        elif kind == "together":
            a, size = fresh(name, spec)
            if not ok(chk, wit, a, "fresh-run-fails"):
                return
            fa = facts(a)
            place = os.path.join(D.d, "meet")       # they meet where something is made, and go on together
            os.mkdir(place)
            with cf.ThreadPoolExecutor(3) as ex:
                rs = list(ex.map(lambda s: D.run(j(meet=[place, 3]), s), seeds[:3]))
            met = {f.split(".")[0] for f in os.listdir(place)}
            for m in sorted(met):
                if sum(f.startswith(m + ".") for f in os.listdir(place)) == 3:
                    chk.count("all_three_met_at_" + m.replace("-", "_"))
            rs.append(D.run(j(), seeds[3]))
            for i, b in enumerate(rs):
                if ok(chk, wit, b, "simultaneous-run-fails"):
                    differ(chk, wit, fa, facts(b), "simultaneous", skip=("python", "cpp") if i < 3 else ())
                    chk.ev((kind, name, i), sample=f"{name}: three runs at the same time in one directory, then one more: same results")
        chk.count("histories_" + kind.replace("-", "_"))
    finally:
        D.close()


class Log:
    """What a story (in a process of its own) has to report to the check."""

    def __init__(self):
        self._all = []

    def __getattr__(self, f):
        if f.startswith("_"):
            raise AttributeError(f)
        return lambda *a, **kw: self._all.append((f, a, kw))


def go(args):
    i, (kind, name, spec), end = args
    log = Log()
    if time.time() > end:
        log.count("histories_skipped")
    else:
        try:
            story(log, kind, name, spec, random.Random(f"c20/{vk.SEED}/{i}"))
        except Exception:
            import traceback
            log.violation("history-not-judged", dict(robot=name, history=kind, error=traceback.format_exc()[-1000:]))
    return log._all


def main():
    chk = vk.Check("C20", rule="one evaluation = one run in a directory with a history (earlier runs, killed runs, changed inputs) compared with a run in a fresh directory; "
                   "distinct = (kind of history, robot, crash point)")
    rng = chk.rng
    cheap = sorted(n for n in cases.POOL_SOLVED if len(cases.POOL[n]["unknowns"]) <= 4)
    easy = ["Wrist", "Brad", "Sims11", "Palm13", "Minder13", "Bartell", "Axtman13", "ICP5p5_A21", "Chair_Helper", "Craig417"]
    odd = []
    for i in range(8 if vk.THOROUGH else 3):       # twist angles for which the forward kinematics adds parameters
        while True:
            s = gen.random_spec(rng, dof=rng.choice([2, 2, 3]) if vk.THOROUGH else 2, odd=True, name=f"G{i}")
            if any(r[0] not in ("0", "pi/2", "-pi/2", "pi") for r in s["dh"]):
                break
        odd.append(s)
    f = 6 if vk.THOROUGH else 1
    stories = []
    for k in range(4 * f):
        stories.append(("again", rng.choice(easy), None))
    for k in range(3 * f):
        n = rng.choice(cheap)
        stories.append(("again", n, spec_of(n)))
    stories.append(("again", "Craig417", None))
    stories += [("values", s["name"], copy.deepcopy(s)) for s in odd]
    for k in range(3 * f):
        n = rng.choice(cheap)
        stories.append(("values", n, copy.deepcopy(spec_of(n))))
    for k in range(5 * f):
        n = rng.choice(cheap)
        stories.append(("table", n, spec_of(n)))
    for n in rng.sample(cheap, 6 * min(f, 3)):
        stories.append(("tables", n, spec_of(n)))
    for k in range(9 * f):
        n = rng.choice(cheap)
        stories.append(("killed", n, spec_of(n)))
    for k in range(6 * f):
        n = rng.choice(cheap)
        stories.append(("killed-at", n, spec_of(n)))
    for k in range(2 * f):
        n = rng.choice(cheap)
        stories.append(("together", n, spec_of(n)))
    dl = vk.Deadline(780 if vk.THOROUGH else 260)

    vk.scratch()
    with cf.ProcessPoolExecutor(vk.CORES, mp_context=multiprocessing.get_context("fork")) as ex:
        for log in ex.map(go, [(i, st, dl.end) for i, st in enumerate(stories)]):
            for f, a, kw in log:
                getattr(chk, f)(*a, **kw)
    chk.finish(minimum=40, need=dict(crash_points=6, histories_again=3, histories_values=3, histories_table=3, tables_judged=30))


if __name__ == "__main__":
    main()
