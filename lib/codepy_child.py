"""Runs generated Python files on given poses.  JOB: {items: [{name, code, fn prefix, args: [...]}]}
Each item's module is loaded from a file in the scratch directory; results are what the function returned or raised."""
import builtins
import importlib.util
import io
import json
import os
import pickle
import signal
import sys
import traceback

import numpy as np


def main():
    job = json.load(open(sys.argv[1]))
    np.seterr(all="ignore")
    real = sys.stdout
    res = []
    for it in job["items"]:
        sys.stdout = io.StringIO()
        out = dict(name=it["name"], results=[])
        signal.alarm(60)
        try:
            p = os.path.abspath("gen_%d.py" % len(res))
            open(p, "w").write(it["code"])
            spec = importlib.util.spec_from_file_location("gen_%d" % len(res), p)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            out["functions"] = [k for k, v in vars(m).items() if callable(v) and k.startswith(it["prefix"])]
            for kind, a in it["args"]:
                try:
                    f = getattr(m, out["functions"][0])
                    arg = np.matrix(a, dtype=float) if kind == "matrix" else np.array(a, dtype=int if kind == "int" else float)
                    keep = arg.copy()
                    r = f(arg)
                    out["results"].append(("False" if r is False else "other" if not isinstance(r, list) else "rows",
                                           [[float(x) for x in row] for row in r] if isinstance(r, list) else repr(r)[:200],
                                           bool((arg == keep).all() or np.isnan(keep).any())))
                except BaseException:
                    out["results"].append(("raised", traceback.format_exc()[-800:], True))
        except BaseException:
            out["error"] = traceback.format_exc()[-1200:]
        signal.alarm(0)
        sys.stdout = real
        res.append(out)
    with open(sys.argv[2], "wb") as f:
        pickle.dump(dict(res=res), f, protocol=4)


if __name__ == "__main__":
    main()
