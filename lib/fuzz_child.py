"""Child process of vk.fuzz(): loads a check file and runs its work(rec) against the code under test, in a scratch
directory, with the code's own printing discarded.   usage: python fuzz_child.py JOB.json OUT.pickle"""
import contextlib
import importlib.util
import io
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

now = time.monotonic      # kept: some checks replace the clock the code under test sees

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IKBT_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(10000)


class Slow(BaseException):
    """A single case took too long (sympy can be slow on random expressions): the case is dropped, and counted."""


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)


class Rec:
    def __init__(self, job):
        self.job = job
        self.shard, self.nshards = job["shard"], job["nshards"]
        self.thorough = job["thorough"]
        self.args = job.get("args") or {}
        self.rng = random.Random(f"{job['pid']}/{job['seed']}/{job['shard']}")
        self.cov, self.viol, self.keys, self.samples, self.evaluations = {}, {}, {}, [], 0
        self.end = now() + job["budget"]

    def over(self):
        return now() > self.end

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def ev(self, key=None, sample=None, n=1):
        self.evaluations += n
        if key is not None and key not in self.keys:
            self.keys[key] = 1
            if sample is not None and len(self.samples) < 4:
                self.samples.append(sample)

    def violation(self, key, detail):
        self.viol.setdefault(key, [])
        if len(self.viol[key]) < 3:
            self.viol[key].append(detail)
        self.count("violations_total")

    @contextlib.contextmanager
    def guard(self, limit=20, hang=None):
        """Body is abandoned after `limit` seconds; hang: (key, detail) of the violation which that is, where the code under
        test cannot be merely slow. sys.exit()/quit() in the body is turned into RuntimeError."""
        def on_alarm(*a):
            raise Slow()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            yield
        except Slow:
            self.count("cases_too_slow")
            if hang is not None:
                self.violation(*hang)
                self.end = 0
        except SystemExit as e:
            raise RuntimeError("the code under test exited the process") from e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def main():
    job = json.load(open(sys.argv[1]))
    rec = Rec(job)
    real = sys.stdout
    sys.stdout = Null()
    sys.stdin = io.StringIO("")
    err = None
    import memo
    if job.get("memo", 1):
        memo.install()
    try:
        spec = importlib.util.spec_from_file_location("check_under_run", job["file"])
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        mod.work(rec)
    except BaseException:
        err = traceback.format_exc()
    sys.stdout = real
    out = dict(cov=rec.cov, viol=rec.viol, keys=list(rec.keys), samples=rec.samples, evaluations=rec.evaluations, err=err,
               fresh=memo.fresh if job.get("keep_memo") else {}, data=getattr(rec, "data", None))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f, protocol=4)


if __name__ == "__main__":
    main()
