"""Numeric evaluation of the symbolic solutions of a solve record."""
import math

import sympy as sp

import num


class Solved:
    """The solutions of one solved robot, evaluated with an independent evaluator."""

    def __init__(self, rec):
        self.rec = rec
        self.robot = rec["robot"]
        self.dh = rec["mech"]["DH"]
        self.unknowns = [u["symbol"] for u in rec["unknowns"]]
        self.joints = [s for s in self.unknowns if s in self.dh.free_symbols]
        self.order = sorted([u for u in rec["unknowns"] if u["solved"]], key=lambda u: u["solveorder"])
        self.complete = all(u["solved"] for u in rec["unknowns"]) and bool(self.joints)
        self.joints_solved = all(u["solved"] for u in rec["unknowns"] if u["symbol"] in self.joints)
        self.arm = num.Arm(self.dh, sorted(self.dh.free_symbols, key=str))
        self.ev = num.Ev()
        self.sums = [(L, R) for L, R in rec["R"]["aux"] if sp.sympify(L).is_Symbol and sp.sympify(L) in self.unknowns and sp.sympify(L) not in self.joints]
        self.angle = {s: num.is_angle(str(s), self.dh) for s in self.unknowns}

    def pvals(self):
        """The recorded numerical parameter values (some are given as text)."""
        import numpy as np
        env = {"np": np, "pi": math.pi, "cos": math.cos, "sin": math.sin}
        todo = [(str(k), v) for k, v in self.rec["mech"]["pvals"].items()]
        for _ in range(4):
            rest = []
            for k, v in todo:
                try:
                    env[k] = float(eval(v, env)) if isinstance(v, str) else float(v)
                except NameError:
                    rest.append((k, v))
            todo = rest
        return {sp.Symbol(str(k)): env[str(k)] for k in self.rec["mech"]["pvals"] if str(k) in env}

    def config(self, rng, signs=False):
        """Random parameters and joint values -> (vals of parameters and joints and sums, base = parameters + pose, T)."""
        vals, jo = num.random_case(self.rec, rng)
        if signs:
            for s in vals:
                if s not in jo and not str(s).startswith(("al", "ca", "sa")) and rng.random() < .3:
                    vals[s] = -vals[s]
        return self.at(vals)

    def at(self, vals):
        T = self.arm.T(vals)
        base = {k: v for k, v in vals.items() if k not in self.joints}
        base.update(num.pose_vals(T))
        num.add_sums(vals, self.sums)
        return vals, base, T

    def equation_residual(self, u, row, base, tol=1e-6):
        """Does the value of unknown u in this row satisfy the equation(s) recorded for it? Returns None when it need not
        (equation not evaluable, pair inconsistent at this row, or holding an unknown solved later), else the residual."""
        early = {x["symbol"] for x in self.order if x["solveorder"] < u["solveorder"]}
        eqs = [q for q in (u["eqn"], u["eqn2"]) if q is not None]
        if not eqs:
            return None
        s = u["symbol"]
        f = []
        for q in eqs:
            e = sp.sympify(q[0]) - sp.sympify(q[1])
            if any(x in self.unknowns and x != s and x not in early for x in e.free_symbols) or s not in e.free_symbols:
                return None
            f.append(e)
        env = {**base, **row}
        if len(f) == 1:
            v = self.ev(f[0], env)
            if v is None:
                return None
            scale = 1.0
            for t in sp.Add.make_args(f[0]):
                x = self.ev(t, env)
                scale += abs(x) if x is not None else 0
            return abs(v) / scale
        co = []
        for e in f:      # e = a sin(u) + b cos(u) + c
            at = lambda x: self.ev(e, {**env, s: x})                                    # noqa: E731
            v = [at(0.0), at(math.pi / 2), at(math.pi), at(1.0)]
            if any(x is None for x in v):
                return None
            c, b = (v[0] + v[2]) / 2, (v[0] - v[2]) / 2
            a = v[1] - c
            if abs(a * math.sin(1) + b * math.cos(1) + c - v[3]) > 1e-7 * (1 + abs(a) + abs(b) + abs(c)):
                return None
            co.append((a, b, c))
        (a1, b1, c1), (a2, b2, c2) = co
        D = a1 * b2 - a2 * b1
        if abs(D) < 1e-6 * (1e-9 + (abs(a1) + abs(b1)) * (abs(a2) + abs(b2))):
            return None
        sn, cs = (-c1 * b2 + c2 * b1) / D, (-a1 * c2 + a2 * c1) / D
        if abs(sn * sn + cs * cs - 1) > tol:
            return None          # no angle satisfies both: the vector is an artefact of another unknown's squaring
        return abs(num.angdiff(math.atan2(sn, cs), row[s])) / 10

    def rows_exact(self, base):
        """Rows, or None when it depends on rounding whether a branch exists (an argument at the edge of its range), and with
        atan2 of two vanishing numbers counted as rounding-dependent, too."""
        if not hasattr(self, "edge"):
            self.edge = [num.Ev(num.mods(e)) for e in (1e-7, -1e-7)]
        a, b = (self.rows(base, ev=ev)[0] for ev in self.edge)
        return a if len(a) == len(b) else None

    def rows(self, base, cap=4096, ev=None):
        """All branch combinations that exist: list of {symbol: value}; and how many did not exist."""
        rows, und = [{}], 0
        for u in self.order:
            new = []
            for r in rows:
                env = {**base, **r}
                for s in u["solutions"]:
                    if any(x not in env for x in sp.sympify(s).free_symbols):
                        und += 1
                        continue
                    v = (ev or self.ev)(s, env)
                    if v is None:
                        und += 1
                    else:
                        new.append({**r, u["symbol"]: v})
            rows = new[:cap]
        return rows, und

    def final_rows(self, base):
        """The reported solution vectors, evaluated entry by entry in the order of the list. All names share one
        environment (an entry may be defined by an entry of another vector). -> list of {unknown name: value} or None."""
        env, done = dict(base), {}
        rows = self.rec["R"]["final"]
        todo = [(i, j) for i, row in enumerate(rows) for j in range(len(row))]
        for _ in range(3):      # normally one pass: definitions come first
            rest = []
            for i, j in todo:
                L, R = rows[i][j]
                if any(x not in env for x in sp.sympify(R).free_symbols):
                    rest.append((i, j))
                    continue
                v = self.ev(R, env)
                if v is not None:
                    env[sp.sympify(L)] = v
                    done[i, j] = v
            todo = rest
        res = []
        for i, row in enumerate(rows):
            if all((i, j) in done for j in range(len(row))):
                res.append({str(L).rsplit("v", 1)[0]: done[i, j] for j, (L, R) in enumerate(row)})
            else:
                res.append(None)
        return res

    def is_truth(self, row, vals, tol=1e-5):
        """Does a row ({symbol or name: value}) give every joint its true value?"""
        for s in self.joints:
            v = row.get(s, row.get(str(s)))
            if v is None or not num.same(str(s), v, vals[s], self.angle[s], tol):
                return False
        return True

    def vacuous(self, vals, base, tol=1e-9):
        """Solved unknowns whose solution is indeterminate at this (true) configuration: evaluated with the true values of
        the unknowns they depend on, the two arguments of an arctangent (or an arcsine's denominator) vanish together,
        i.e. the equation chosen for them says 0 = 0."""
        env = {**base, **{s: vals[s] for s in self.unknowns if s in vals}}
        bad = []
        for u in self.order:
            e = u["eqn"]
            if e is None or u["symbol"] not in env:
                continue
            L, R = sp.sympify(e[0]), sp.sympify(e[1])
            d = sp.Symbol("_delta_")
            f = (L - R).subs(u["symbol"], u["symbol"] + d)
            vs = []
            for k in (0.3, -0.7, 1.9):
                x = self.ev(f, {**env, d: k})
                if x is None:
                    break
                vs.append(abs(x))
            else:
                if max(vs) < tol:
                    bad.append(u["name"])
        return bad

    def regular(self, vals):
        import cases
        return cases.regular(self.rec, self.arm, vals, self.joints)
