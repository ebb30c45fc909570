"""Synthetic solved robots: random dependency structures and solution expressions, recorded through the real set_solved()
and turned into solution vectors by the real code."""
import itertools
import math

import sympy as sp

NAMES = ["th_1", "th_2", "th_3", "th_4", "th_5", "th_6", "d_1", "d_2", "d_3", "th_12", "th_23", "th_234", "th_123", "A", "B"]
PARAMS = ["a_1", "a_2", "a_3", "l_1", "l_4", "d_4", "d_6", "h", "l_12"]
POSE = [f"r_{i}{j}" for i in (1, 2, 3) for j in (1, 2, 3)] + ["Px", "Py", "Pz"]
SY = {n: sp.Symbol(n) for n in NAMES + PARAMS + POSE}


class Mech:
    def __init__(self, params, pvals):
        self.params, self.pvals = list(params), dict(pvals)


def expression(rng, deps, params):
    """Expressions of the forms the solvers produce; some do not exist for some poses."""
    P = [SY[p] for p in params] + [SY[x] for x in rng.sample(POSE, 5)]
    D = list(deps)

    def atom():
        k = rng.random()
        if D and k < .5:
            d = rng.choice(D)
            return rng.choice([sp.sin(d), sp.cos(d)]) * rng.choice([1, rng.choice(P)])
        if k < .9:
            return rng.choice(P)
        if k > .97:       # a number from the DH table
            return sp.Float(round(rng.uniform(.1, 3), rng.choice([2, 4, 7, 12])))
        return sp.Rational(rng.randint(1, 5), rng.choice([1, 2, 3]))

    def poly(n):
        e = sp.S.Zero
        for _ in range(rng.randint(1, n)):
            t = rng.choice([1, -1, 1, 2]) * atom()
            if rng.random() < .3:
                t = t * atom()
            if rng.random() < .25:
                t = t ** 2
            e += t
        return e if e != 0 else SY["Px"]

    k = rng.random()
    if k < .3:
        e = sp.atan2(poly(3), poly(3))
    elif k < .45:
        e = rng.choice([sp.asin, sp.acos])(poly(2) / (rng.choice(P) * rng.choice([1, 2])))
    elif k < .6:
        a, b = poly(2), poly(2)
        e = sp.atan2(a, b) + sp.atan2(rng.choice([1, -1]) * sp.sqrt(a ** 2 + b ** 2 - poly(1) ** 2), poly(1))
    elif k < .7:
        e = poly(3) / atom()
    elif k < .8:
        e = sp.sqrt(poly(2) ** 2 + poly(1)) - poly(1)
    elif k < .9:
        e = (rng.choice(D) if D else SY["Px"]) + (rng.choice(D) if D else SY["Pz"]) * rng.choice([1, -1]) + rng.choice([0, sp.pi, -sp.pi / 2])
    else:
        e = rng.choice([1, -1]) * sp.acos(poly(1)) + rng.choice([0, sp.pi])
    return e


def boundary(rng, deps, params):
    """Solutions which exist up to a boundary that a position of small whole numbers meets exactly (no rounding is involved)."""
    P, s = SY[rng.choice(["Px", "Py", "Pz"])], rng.choice([1, -1])
    return rng.choice([sp.asin(s * P), sp.acos(s * P), sp.acos(s * P) + sp.pi, -sp.acos(P), sp.atan2(P, s * sp.sqrt(1 - P ** 2)),
                       s * sp.sqrt(P) + 1, s * sp.sqrt(1 - P ** 2) + P] + [d + P for d in deps[:1]])


def boundary_pose(rng):
    import num
    T, _ = pose(rng)
    T[:3, 3] = [rng.choice([1, -1, 1, -1, 0, 0.5, 2]) for _ in range(3)]
    return T, num.pose_vals(T)


def robot(rng, cap=48, name="syn", nmax=7, partial=True, dens=None, expression=expression):
    """-> (R, objs, order, pvals): order = [(name, [solutions])] in solving order."""
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ik
    names = rng.sample(NAMES, rng.randint(1, nmax))
    objs = [kc.unknown(SY[n]) for n in names]
    for i, u in enumerate(objs):
        u.n = i + 1
    params = rng.sample(PARAMS, rng.randint(0, 5))
    pvals = {SY[p]: rng.choice([0.5, 1, 2.25, -0.75, 1.5e-1, 3, 0.4318123, 1.234567891]) for p in params}
    R = ik.Robot()
    R.solution_nodes, R.notation_graph_edges, R.solveN = [], set(), 0
    R.name, R.params, R.Mech, R.variables = name, [SY[p] for p in params], Mech([SY[p] for p in params], pvals), objs
    nsolved = rng.choice([len(names)] * 4 + [rng.randint(0, len(names))]) if partial else len(names)
    order, total, dens = [], 1, rng.random() if dens is None else dens
    for u in objs[:nsolved]:
        ns = rng.choice([1, 1, 2, 2, 2, 3, 4])
        if total * ns > cap:
            ns = 1
        total *= ns
        deps = [SY[n] for n, _ in order if rng.random() < dens]
        sols, tries = [], 0
        while len(sols) < ns and tries < 40:
            tries += 1
            e = expression(rng, deps, params)
            if not e.has(sp.zoo, sp.nan, sp.oo, sp.I) and e not in sols:
                sols.append(e)
        u.solutions, u.solvemethod = list(sols), rng.choice(["algebra", "atan2(y,x)", "arcsin", "sinANDcos"])
        u.argument = sols[0]
        u.set_solved(R, objs)
        order.append((u.name, list(sols)))
    R.create_solution_set()
    R.make_LHS_versions()
    return R, objs, order, pvals


def rows(order, base, ev):
    """All combinations which exist: list of {name: value}."""
    res = [{}]
    for n, sols in order:
        new = []
        for r in res:
            env = {**base, **{SY[k]: v for k, v in r.items()}}
            for s in sols:
                v = ev(s, env)
                if v is not None:
                    new.append({**r, n: v})
        res = new
    return res


def pose(rng):
    """A rigid pose (position of the order of the parameters) as (4x4 list, {symbol: value})."""
    import numpy as np
    import num
    import poses
    T = np.eye(4)
    T[:3, :3] = poses.rand_rot(rng)
    T[:3, 3] = [rng.uniform(-2, 2) * rng.choice([1, 1, 0.1, 5]) for _ in range(3)]
    return T, num.pose_vals(T)
