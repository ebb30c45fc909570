"""Poses for the generated-code checks."""
import math

import numpy as np
import sympy as sp

import num


def rand_rot(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def hostile(rng):
    """Poses at which something vanishes: signed permutation rotations, zero or axis-aligned positions, huge and tiny ones."""
    T = np.eye(4)
    P = np.eye(3)[:, rng.sample(range(3), 3)] * np.array([rng.choice([1, -1]) for _ in range(3)])
    T[:3, :3] = P if rng.random() < .6 else np.eye(3)
    k = rng.random()
    if k < .3:
        T[:3, 3] = 0
    elif k < .6:
        T[rng.randrange(3), 3] = rng.choice([1, -1, 0.5, 2])
    elif k < .8:
        T[:3, 3] = [rng.choice([1e9, -1e9, 1e-12, 0, 3]) for _ in range(3)]
    else:
        T[:3, 3] = [rng.randint(-2, 2) for _ in range(3)]
    return T


def at_the_edge(count, T0, rng, far=3.0, steps=9):
    """Two poses very close to each other (same orientation, positions apart by 1e-3 .. 1e-5) of which one has more solution
    vectors than the other; [] when a random line through T0 shows none.  count: 4x4 array -> number of vectors."""
    T0 = np.array(T0, dtype=float)
    u = np.array([rng.gauss(0, 1) for _ in range(3)])
    u /= np.linalg.norm(u)

    def at(t):
        T = T0.copy()
        T[:3, 3] += t * u
        return T
    ts = [far * (k / steps) ** 2 for k in range(steps + 1)]
    prev = count(at(ts[0]))
    for a, b in zip(ts, ts[1:]):
        n = count(at(b))
        if n != prev:
            w = rng.choice([1e-3, 1e-4, 1e-5])
            while b - a > w:
                m = (a + b) / 2
                k = count(at(m))
                if k == prev:
                    a = m
                else:
                    b = m
            return [at(a), at(b)]
        prev = n
    return []


def workload(S, rng, n):
    """n poses for a solved robot with its own parameter values: (kind, true values or None, base, T)."""
    pv = S.pvals()
    res = []
    for i in range(n):
        vals, _, _ = S.config(rng)
        kind = "reachable" if i % 3 else ("unreachable" if i % 2 else "hostile")
        for s in vals:
            if s in pv:
                vals[s] = pv[s]
        if kind == "reachable":
            vals, base, T = S.at(vals)
        else:
            T = np.eye(4)
            if kind == "unreachable":
                T[:3, :3] = rand_rot(rng)
                T[:3, 3] = [rng.uniform(-1, 1) * rng.choice([1, 3, 30]) for _ in range(3)]
            else:
                T = hostile(rng)
                if rng.random() < .5:      # a reachable pose at which joints line up
                    v = {s: (rng.choice([0, 0, math.pi / 2, -math.pi / 2, math.pi]) if s in S.joints else x) for s, x in vals.items()}
                    T = S.at(v)[2]
                    if rng.random() < .7:
                        T = np.where(abs(T - np.rint(T)) < 1e-9, np.rint(T), T)
            vals = None
            base = dict(pv)
            base.update(num.pose_vals(T))
        res.append((kind, vals, base, T))
        if S.order and i in (1, 2, 4, 5):
            def full(T):
                return {**pv, **num.pose_vals(T)}
            for T in at_the_edge(lambda T: len(S.rows(full(T))[0]), T, rng):
                res.append(("edge", None, full(T), T))
    return res


def compare(chk, S, vacuous, w, kind, vals, base, have):
    """Are the vectors a generated function returned (list of lists, columns in alphabetical order) exactly those of the
    symbolic solutions?"""
    cols = [sp.Symbol(n) for n in sorted((u["name"] for u in S.order), key=lambda n: n + "v")]
    rows = S.rows_exact(base) if S.order else []
    if rows is None:
        chk.count("poses_at_a_branch_edge_skipped")
        return
    chk.count("vectors_compared", len(rows))
    if not rows:
        chk.count("poses_without_solution")
    if kind == "reachable" and S.vacuous(vals, base):
        chk.count("indeterminate_solutions_skipped")
        return
    if vacuous and kind != "reachable":
        return
    if any(len(x) < len(cols) for x in have):
        chk.violation("vector-length", dict(w, got=have[:3], columns=[str(c) for c in cols]))
        return
    left = list(have)
    miss = []
    for row in rows:
        hit = next((g for g in left if all(num.same(str(c), row[c], g[i], S.angle.get(c, True), 1e-5) for i, c in enumerate(cols))), None)
        if hit is None:
            miss.append(row)
        else:
            left.remove(hit)
    if miss or left:
        key = "vector-missing" if miss and not left else "vector-invented" if left and not miss else "vectors-differ"
        chk.violation(key, dict(w, columns=[str(c) for c in cols], missing=[{str(k): v for k, v in m.items()} for m in miss][:3], extra=left[:3]))
