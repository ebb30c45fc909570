"""Child process: runs the real forward kinematics / equation set-up / sum-of-angles code on a list of arms.
usage: python fk_child.py JOB.json OUT.pickle     JOB: {"items": [{name, spec|null, soa: 0|1, twice: 0|1}]}
"""
import io
import json
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IKBT_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(10000)
import memo  # noqa: E402

memo.install()
import sympy as sp  # noqa: E402
import solve_child as sc  # noqa: E402


class Slow(BaseException):
    pass


def on_alarm(*a):
    raise Slow()


signal.signal(signal.SIGALRM, on_alarm)


def one(item):
    signal.alarm(item.get("limit", 60))
    try:
        return one_(item)
    except Slow:
        return dict(name=item["name"], timeout=True)
    finally:
        signal.alarm(0)


def one_(item):
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik
    import ikbtfunctions.ik_robots as ikr

    out = dict(name=item["name"])
    t0 = time.time()
    try:
        if item.get("spec"):
            dh, vv, params, pvals, variables = sc.custom_params(item["spec"], ikr)
        else:
            dh, vv, params, pvals, variables = ikr.robot_params(item["name"])
        out["dh0"] = sp.Matrix(dh)
        out["unk0"] = [(u.symbol, u.n) for u in variables]
        m = kc.mechanism(dh, params, vv)
        m.pvals = pvals
        m.forward_kinematics()
        out["mech"] = dict(DH=sp.Matrix(m.DH), vv=list(m.vv), params=list(m.params), pvals=dict(m.pvals),
                           T_06=sp.Matrix(m.T_06), Ts=[sp.Matrix(t) for t in m.Ts], J66=getattr(m, "J66", None))
        if item.get("cases"):
            pose = []
            for c in item["cases"]:
                q = {sp.Symbol(k): v for k, v in c["q"].items()}
                p = {sp.Symbol(k): v for k, v in c["p"].items()}
                q0, p0 = dict(q), dict(p)
                T = kc.forward_kinematics_N(m, q, p)
                pose.append(([[float(T[i, j]) for j in range(4)] for i in range(4)], q == q0 and p == p0))
            out["fkn"] = pose
        if item.get("soa") is not None:
            R = ik.Robot(m, item["name"])
            out["init"] = [sc.snap_me(x) for x in R.mequation_list]
            out["T_06b"] = sp.Matrix(m.T_06)
            R.scan_for_equations(variables)
            if item["soa"]:
                R.sum_of_angles_transform(variables)
                out["soa"] = dict(vars=[(u.symbol, u.name, u.n, u.solved) for u in variables],
                                  meqs=[sc.snap_me(x) for x in R.mequation_list],
                                  aux=[sc.eqpair(e) for e in R.kequation_aux_list])
                if item.get("twice"):
                    R.sum_of_angles_transform(variables)
                    out["soa2"] = dict(vars=[(u.symbol, u.name, u.n, u.solved) for u in variables],
                                       meqs=[sc.snap_me(x) for x in R.mequation_list],
                                       aux=[sc.eqpair(e) for e in R.kequation_aux_list])
    except SystemExit:
        out["error"] = "quit: " + traceback.format_exc()
    except Exception:
        out["error"] = traceback.format_exc()
    out["wall"] = time.time() - t0
    return out


if __name__ == "__main__":
    job = json.load(open(sys.argv[1]))
    real = sys.stdout
    res = []
    for it in job["items"]:
        sys.stdout = io.StringIO()
        res.append(one(it))
    sys.stdout = real
    out = dict(res=res, fresh=memo.fresh if job.get("keep_memo") else {}, stats=memo.stats)
    pickle.dump(out, open(sys.argv[2], "wb"), protocol=4)
