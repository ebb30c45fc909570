"""Verification kit shared by the checks: scratch directories, parallel child processes, verdicts, evidence."""
import atexit
import concurrent.futures as cf
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("IKBT_REPO", "/repo")
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = int(os.environ.get("VERIF_CORES", "8"))
KNOWN = os.path.join(VERIF, "known_findings.txt")

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="ikbt-verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def child_env(**extra):
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore", IKBT_REPO=REPO, MPLBACKEND="Agg")
    env.update({k: str(v) for k, v in extra.items()})
    return env


def run(argv, cwd, timeout, env=None, input=None):
    """Run a child in its own process group; returns (rc or None on timeout, stdout, stderr)."""
    p = subprocess.Popen(argv, cwd=cwd, env=env or child_env(), stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, errors="replace")
    try:
        so, se = p.communicate(input=input, timeout=timeout)
        return p.returncode, so, se
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, se = p.communicate()
        return None, so, se


def solve(job, timeout=300, env=None):
    """One run of the real solver in a fresh scratch directory; returns the monitor record (dict) or an error dict."""
    if MEMO_SAVE:
        job = dict(job, keep_memo=1)
    d = tempfile.mkdtemp(dir=scratch())
    try:
        with open(os.path.join(d, "job.json"), "w") as f:
            json.dump(job, f)
        work = os.path.join(d, "w")
        os.mkdir(work)
        rc, so, se = run([PY, os.path.join(HERE, "solve_child.py"), os.path.join(d, "job.json"), os.path.join(d, "out.p")],
                         work, timeout, env)
        op = os.path.join(d, "out.p")
        if rc is None:
            return {"robot": job["robot"], "exit": "timeout", "error": "timeout", "events": []}
        if not os.path.exists(op):
            return {"robot": job["robot"], "exit": "crash", "error": (so + se)[-3000:], "events": []}
        with open(op, "rb") as f:
            out = pickle.load(f)
        keep(out.get("memo_fresh"))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


# Maintenance only (never set by a registered command): collect what sympy computed during this run into data/memo.bin
MEMO_SAVE = bool(os.environ.get("IKBT_MEMO_SAVE"))
_fresh = {}


def keep(fresh):
    if MEMO_SAVE and fresh:
        if not _fresh:
            import memo
            atexit.register(lambda: memo.save(_fresh))
        _fresh.update(fresh)


class Deadline:
    def __init__(self, seconds):
        self.end = time.time() + seconds

    def left(self):
        return self.end - time.time()

    def over(self):
        return time.time() > self.end


def solve_many(jobs, timeout=300, budget=600, workers=None):
    """Yield (job, record) as they finish; jobs not started when the budget is used up are dropped."""
    dl = Deadline(budget)
    out = []

    def one(job):
        if dl.left() < 5:
            return job, {"robot": job["robot"], "exit": "skipped", "error": "budget", "events": []}
        return job, solve(job, timeout=min(timeout, max(5, dl.left())))

    with cf.ThreadPoolExecutor(workers or CORES) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in cf.as_completed(futs):
            yield f.result()


def child(script, job, timeout=300, env=None):
    """Run lib/<script> JOB OUT in a fresh scratch directory; returns the unpickled output or {"error": ...}."""
    if MEMO_SAVE:
        job = dict(job, keep_memo=1)
    d = tempfile.mkdtemp(dir=scratch())
    try:
        with open(os.path.join(d, "job.json"), "w") as f:
            json.dump(job, f)
        work = os.path.join(d, "w")
        os.mkdir(work)
        op = os.path.join(d, "out.p")
        rc, so, se = run([PY, os.path.join(HERE, script), os.path.join(d, "job.json"), op], work, timeout, env)
        if rc is None:
            return {"timeout": True}
        if not os.path.exists(op):
            return {"error": (so + se)[-3000:]}
        with open(op, "rb") as f:
            out = pickle.load(f)
        keep(out.get("fresh"))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def child_map(script, jobs, timeout=300, budget=600, workers=None, env=None):
    """child() for every job on all cores; yields (job, output) as they finish."""
    dl = Deadline(budget)

    def one(j):
        if dl.left() < 5:
            return j, {"timeout": True}
        return j, child(script, j, min(timeout, max(5, dl.left())), env)

    with cf.ThreadPoolExecutor(workers or CORES) as ex:
        for f in cf.as_completed([ex.submit(one, j) for j in jobs]):
            yield f.result()


def fuzz(chk, file, shards=None, args=None, budget=60, timeout=None, memo=1, env=None):
    """Run work(rec) of a check file in parallel processes and merge what they report. Returns the list of rec.data."""
    n = shards or CORES
    jobs = [dict(pid=chk.pid, file=os.path.abspath(file), shard=i, nshards=n, seed=SEED, thorough=THOROUGH, budget=budget,
                 args=args, memo=memo) for i in range(n)]
    res = []
    for j, o in child_map("fuzz_child.py", jobs, timeout=timeout or budget * 2 + 60, budget=budget * 3 + 120, env=env):
        if o.get("timeout"):
            chk.count("shards_timeout")
            continue
        if "keys" not in o:
            chk.violation("worker-died", dict(shard=j["shard"], error=o.get("error", "")[-1500:]))
            continue
        if o["err"]:
            chk.violation("raised-outside-a-case", dict(shard=j["shard"], error=o["err"][-1800:]))
        for k, v in o["cov"].items():
            if k != "violations_total":
                chk.count(k, v)
        for k, v in o["viol"].items():
            for d in v:
                chk.violation(k, d)
        chk.evaluations += o["evaluations"]
        chk.distinct.update(o["keys"])
        for s in o["samples"]:
            if len(chk.samples) < 8:
                chk.samples.append(s)
        res.append(o["data"])
    slow = chk.cov.get("cases_too_slow", 0)
    if slow >= 8 and slow * 50 >= chk.evaluations:       # sympy is slow on a case in many thousands, if at all
        chk.violation("does-not-return", dict(cases_abandoned=slow, cases_judged=chk.evaluations))
    return res


def split(items, n=None):
    """Deal items to n lists."""
    n = min(n or CORES, max(1, len(items)))
    return [items[i::n] for i in range(n)]


def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line:
                key = line.split("key=", 1)[1].split(" ", 1)
                res.append((key[0], key[1] if len(key) > 1 else ""))
    return res


class Check:
    def __init__(self, pid, level="exploration", rule=""):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.viol = {}
        self.assumptions = []
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def ev(self, key=None, sample=None, n=1):
        """One evaluation of the oracle; key identifies a distinct non-trivial case."""
        self.evaluations += n
        if key is not None:
            if key not in self.distinct:
                self.distinct.add(key)
                if sample is not None and len(self.samples) < 8:
                    self.samples.append(sample)

    def violation(self, key, detail):
        """key: mechanism (never a hash of the case); detail: JSON-able witness."""
        if key not in self.viol:
            self.viol[key] = []
        if len(self.viol[key]) < 5:
            self.viol[key].append(detail)
        self.count("violations_total")
        if os.environ.get("VK_FAILFAST") and key not in dict(known_findings(self.pid)):     # used when judging many mutants
            print("VIOLATION property=%s (first: %s)" % (self.pid, key), flush=True)
            import subprocess
            subprocess.run(["pkill", "-KILL", "-P", str(os.getpid()), "-f", "python"], check=False)
            os._exit(1)

    def finish(self, minimum=1, need=None):
        """Write evidence, print the verdict and exit. need: {coverage counter: minimum}."""
        known = dict(known_findings(self.pid))
        new = {k: v for k, v in self.viol.items() if k not in known}
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ["(none)"])
        cov.update(self.cov)
        short = []
        # the minima are what a quick run comfortably reaches on an idle machine; a quarter of them still is an answer
        for k, m in [("evaluations", minimum)] + list((need or {}).items()):
            got = self.evaluations if k == "evaluations" else self.cov.get(k, 0)
            if got < max(1, m // 4):
                short.append(f"{k} {got} < {m}//4")
        cov["verdict"] = "violated" if new else ("inconclusive: " + "; ".join(short) if short else "held on what was observed")
        doc = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                   coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1, default=str)
        for k in sorted(self.viol):
            if k in known:
                print(f"KNOWN-FINDING: property={self.pid} {k}: {known[k]}")
        if new:
            rp = os.path.join(evd, "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.pid + ".json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER, violations=new), f, indent=1, default=str)
            for k in sorted(new):
                print(f"  {self.pid} {k}: {json.dumps(new[k][0], default=str)[:1500]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.exit(1)
        if short:
            print(f"INCONCLUSIVE property={self.pid}: " + "; ".join(short))
            sys.exit(2)
        print(f"HELD property={self.pid} evaluations={self.evaluations} distinct={len(self.distinct)} wall={time.time()-self.t0:.1f}s "
              + " ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, (int, float))))
        sys.exit(0)
