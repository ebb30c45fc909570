import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C22: every robot name the catalogue announces is obtained, in fresh processes and in many different orders, and its
definition is examined."""
import contextlib
import io

import cases
import vk


def work(rec):
    import sympy as sp
    import ikbtfunctions.ik_robots as ikr
    rng = rec.rng
    # names: what the catalogue announces when asked for a robot it does not have
    buf = io.StringIO()
    ended = False
    try:
        with contextlib.redirect_stdout(buf):
            ikr.robot_params("No such robot " + str(rec.shard))
    except SystemExit:
        ended = True
    except Exception as e:
        rec.violation("unknown-robot", dict(error=repr(e)))
    text = buf.getvalue()
    if not ended:
        rec.violation("unknown-robot-not-refused", dict(output=text[-300:]))
    announced = sorted({l.strip() for l in text.splitlines() if l.startswith("  ") and l.strip()})
    if not announced or "No such robot" not in text:
        rec.violation("unknown-robot-message", dict(output=text[:400]))
    missing = [n for n in cases.CATALOG if n not in announced]
    if missing:
        rec.violation("robot-not-announced", dict(missing=missing))
    names = sorted(set(announced) | set(cases.CATALOG))
    rec.count("names_announced", len(announced) if rec.shard == 0 else 0)
    # close variants of the names must be refused, too
    for n in rng.sample(names, 4):
        for v in (n.lower(), n + " ", n[:-1], ""):
            if v in announced:
                continue
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    ikr.robot_params(v)
                rec.violation("unknown-robot-not-refused", dict(name=v))
            except SystemExit:
                rec.count("unknown_names_refused")
            except Exception as e:
                rec.violation("unknown-robot", dict(name=v, error=repr(e)))
    order = names[:]
    rng.shuffle(order)
    first = names[rec.shard % len(names)]
    order.remove(first)
    order = [first] + order + [first]
    memory = {}
    for pos, name in enumerate(order):
        try:
            dh, vv, params, pvals, variables = ikr.robot_params(name)
        except SystemExit:
            rec.violation("robot-refused:" + name, dict(name=name))
            continue
        except Exception as e:
            rec.violation("robot-not-obtainable:" + name, dict(name=name, position=pos, after=order[:pos][-3:], error=repr(e)))
            continue
        rec.ev(name, sample=f"{name}: {dh.tolist()}")
        rec.count("definitions_examined")
        if pos == 0:
            rec.count("definitions_in_fresh_process")

        def bad(what, **kw):
            rec.violation(f"{what}:{name}", dict(name=name, dh=str(dh.tolist()), **kw))

        if tuple(dh.shape) != (6, 4):
            bad("dh-shape", shape=list(dh.shape))
            continue
        if len(vv) != 6 or any(x not in (0, 1) for x in vv):
            bad("joint-type-vector", vv=str(vv))
            continue
        syms = [u.symbol for u in variables]
        if len(set(syms)) != len(syms) or not syms:
            bad("unknowns-repeated", unknowns=str(syms))
        rows_used = {}
        for i in range(6):
            inrow = [s for s in syms if any(sp.sympify(dh[i, c]).has(s) for c in range(4))]
            for s in inrow:
                rows_used.setdefault(s, []).append(i + 1)
            if len(inrow) > 1:
                bad("two-unknowns-in-a-row", row=i + 1, unknowns=str(inrow))
            for s in inrow:
                cols = [c for c in range(4) if sp.sympify(dh[i, c]).has(s)]
                if cols not in ([2], [3]):
                    bad("unknown-in-wrong-column", row=i + 1, unknown=str(s), columns=cols)
                elif (cols == [3]) != (vv[i] == 1):
                    bad("joint-type-disagrees", row=i + 1, unknown=str(s), vv=str(vv))
        for u in variables:
            rows = rows_used.get(u.symbol, [])
            if len(rows) != 1:
                bad("unknown-not-in-exactly-one-row", unknown=str(u.symbol), rows=rows)
            elif u.n != rows[0]:
                bad("index-is-not-row", unknown=str(u.symbol), n=u.n, row=rows[0])
            if u.solved or u.solutions or u.dependencies or u.name != str(u.symbol) or u.readytosolve or u.solveorder != 0:
                bad("unknown-not-fresh", unknown=str(u.symbol))
        rest = {s for s in dh.free_symbols} - set(syms)
        if set(syms) & set(params):
            bad("unknown-is-also-parameter", both=str(set(syms) & set(params)))
        for s in sorted(rest, key=str):
            if s not in params:
                bad("constant-not-listed", constant=str(s), params=str(params))
        for s in params:
            v = pvals.get(s)
            try:
                ok = v is not None and float(v) == float(v)
            except Exception:
                ok = False
            if s in rest and not ok:
                bad("constant-without-value", constant=str(s), pvals=str(pvals))
        if len(set(params)) != len(params):
            bad("parameter-listed-twice", params=str(params))
        sig = (str(dh.tolist()), str(vv), str(params), str(sorted(pvals.items(), key=str)), str(syms), str([u.n for u in variables]))
        if name in memory and memory[name] != sig:
            bad("definition-changes", first=memory[name], now=sig)
        memory[name] = sig
        # what a solve does to the objects it got must not show in the next definition
        for u in variables:
            u.solved = True
            u.solutions.append(sp.Symbol("x"))
            u.dependencies.add(u)
            u.solveorder = 7
        params.append(sp.Symbol("extra"))
        pvals[sp.Symbol("extra")] = 1
        vv.append(1)
        dh[0, 0] = sp.Symbol("spoiled")


if __name__ == "__main__":
    chk = vk.Check("C22", rule="one evaluation = one definition returned by the catalogue, examined for consistency; every name is obtained first in a "
                   "fresh process and again in random orders after other robots; distinct = different robots")
    vk.fuzz(chk, __file__, shards=96 if vk.THOROUGH else 32, budget=60)
    chk.finish(minimum=500, need=dict(names_announced=25, definitions_in_fresh_process=30, unknown_names_refused=20))
