"""Child process: the real ikSolver.py in one directory, again and again with a changed DH table, each time up to the first
tick of the solver (or its refusal).

usage: python tables_child.py JOB.json OUT.json     JOB: {"robot", "spec", "tables": [[what, spec], ...], "script"}
OUT: [[what, "refused" | "solves" | "raise", DH the solver was given, last line printed / error], ...]
"""
import io
import json
import os
import runpy
import sys
import time
import traceback

import solve_child as SC

REPO = SC.REPO


class Reached(BaseException):
    pass


def main():
    job = json.load(open(sys.argv[1]))
    end = time.time() + job["limit"]
    for d in ("fk_eqns", "logs", "LaTex", "CodeGen/Python", "CodeGen/Cpp"):
        os.makedirs(d, exist_ok=True)
    import b3
    import ikbtfunctions.ik_robots as ikr

    given = {}

    def tick(self, target, bb, *a):
        R = bb.get("Robot")
        given["dh"] = [[str(x) for x in R.Mech.DH.row(i)] for i in range(R.Mech.DH.shape[0])]
        given["T"] = str(R.Mech.T_06)
        raise Reached()

    b3.BehaviorTree.tick = tick
    out = []
    outp = sys.argv[2]
    sys.argv = ["ikSolver.py", job["robot"]]
    for what, spec in [["same", job["spec"]]] + job["tables"] + [["same", job["spec"]]]:
        if time.time() > end:
            break
        ikr.robot_params = lambda name: SC.custom_params(spec, ikr)
        given.clear()
        real = sys.stdout
        sys.stdout = io.StringIO()
        try:
            runpy.run_path(os.path.join(REPO, "ikSolver.py"), run_name="__main__")
            res, note = "ended", ""
        except Reached:
            res, note = "solves", ""
        except SystemExit:
            res, note = "refused", sys.stdout.getvalue()[-500:]
        except BaseException:
            res, note = "raise", traceback.format_exc()[-800:]
        finally:
            sys.stdout = real
        out.append([what, res, given.get("dh"), note, given.get("T")])
    json.dump(out, open(outp, "w"))


if __name__ == "__main__":
    main()
