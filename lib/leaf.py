"""Shared workload and oracles for the solver leaves: random equations offered to one leaf pair (identify, solve), and
observation of the leaves in full solves."""
import math
import random

import num

PNAMES = ["a_2", "a_3", "l_1", "l_2", "l_4", "ca1", "sa1"]
POSE = num.R_NAMES + ["Px", "Py", "Pz"]
ANG = [f"th_{i}" for i in range(1, 7)] + ["th_12", "th_23", "th_234"]
LEN = ["d_1", "d_2", "d_3", "d_4"]
TOL = 1e-6


class Gen:
    """One random situation: unknowns (u unsolved, others solved or not) and random pieces of equations."""

    def __init__(self, rng, u_kind, n_unsolved=None, u_name=None):
        import sympy as sp
        import ikbtbasics.kin_cl as kc
        import ikbtbasics.ik_classes as ik
        self.sp, self.kc, self.rng = sp, kc, rng
        self.u_name = u_name or rng.choice(ANG if u_kind == "angle" else LEN)
        self.u = sp.Symbol(self.u_name)
        rest = [n for n in ANG + LEN if n != self.u_name]
        rng.shuffle(rest)
        rest = rest[:rng.randint(2, 6)]
        k = n_unsolved if n_unsolved is not None else rng.randint(0, 2)
        self.unsolved = rest[:k]
        self.solved = rest[k:]
        self.R = ik.Robot()
        self.objs = {}
        for i, n in enumerate([self.u_name] + rest):
            o = kc.unknown(sp.Symbol(n))
            o.n = int("".join(c for c in n if c.isdigit()))
            self.objs[n] = o
        allu = list(self.objs.values())
        for n in self.solved:
            o = self.objs[n]
            o.solutions = [sp.atan2(sp.Symbol("r_13"), sp.Symbol("r_23")) + i for i in range(rng.randint(1, 2))]
            o.solvemethod = "algebra"
            o.set_solved(self.R, allu)
        self.pose = list(POSE)
        rng.shuffle(self.pose)
        self.unknowns = allu[:]
        rng.shuffle(self.unknowns)
        self.z = {}

    def known(self):
        """a factor that is known: parameter, solved unknown, number"""
        sp, rng = self.sp, self.rng
        k = rng.random()
        if k < .42 or not self.solved:
            return sp.Symbol(rng.choice(PNAMES))
        n = rng.choice(self.solved)
        s = sp.Symbol(n)
        if n in LEN:
            return s
        if k < .9:
            return rng.choice([sp.sin, sp.cos])(s)
        t = rng.choice(self.solved)
        return sp.cos(s) + sp.Symbol(rng.choice(PNAMES)) if t == n else sp.sin(s) * sp.cos(sp.Symbol(t))

    def coef(self, allow_sum=True, fresh=0.0):
        """nonzero known coefficient"""
        sp, rng = self.sp, self.rng
        k = rng.random()
        c = rng.choice([1, 1, 1, -1, -1, 2, -3, sp.Rational(1, 2), -sp.Rational(3, 4)])
        if rng.random() < fresh and len(self.pose) > 6:
            c = c * sp.Symbol(self.pose.pop())
        if k < .3:
            return sp.sympify(c)
        if k < .65:
            return c * self.known()
        if k < .8:
            return c * self.known() * self.known()
        if allow_sum and k < .95:
            return c * (self.known() + rng.choice([1, -1]) * self.known() * rng.choice([1, 2]) + rng.choice([0, 3]))
        return c * self.known() ** 2

    def newpose(self):
        """a pose symbol used once: its value is chosen so that the equation holds"""
        s = self.sp.Symbol(self.pose.pop())
        return s

    def additive(self, pose=True):
        """known additive part; with a fresh pose symbol so that the equation can be made true"""
        rng, sp = self.rng, self.sp
        e = sp.S.Zero
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            e += self.coef()
        if pose:
            z = self.newpose()
            e += rng.choice([1, -1]) * z * (self.known() if rng.random() < .25 else 1)
            self.z[z] = 1
        return e

    def equation(self, e):
        """kequation with 0 = e distributed over the two sides in some way"""
        sp, rng = self.sp, self.rng
        e = sp.sympify(e)
        k = rng.random()
        if k < .2:
            L, R = sp.S.Zero, e
        elif k < .3:
            L, R = e, sp.S.Zero
        else:
            L, R = sp.S.Zero, sp.S.Zero
            terms = list(sp.Add.make_args(e))
            mode = rng.random()
            for t in terms:
                if mode < .45:         # unknown on the right
                    side = t.has(self.u)
                elif mode < .6:        # unknown on the left
                    side = not t.has(self.u)
                else:
                    side = rng.random() < .5
                if side:
                    R += t
                else:
                    L -= t
        if rng.random() < .25:
            f = rng.choice([-1, -1, sp.Integer(2), self.known()])
            L, R = f * L, f * R
        if rng.random() < .12:
            L, R = sp.expand(L), sp.expand(R)
        if rng.random() < .08:
            extra = self.known()
            L, R = L + extra, R + extra
        return self.kc.kequation(L, R)

    def hostile(self, kind="angle"):
        """equations in u that no simple solver can handle, and equations of other unknowns"""
        sp, rng, u = self.sp, self.rng, self.u
        o = sp.Symbol(rng.choice(self.solved)) if self.solved else sp.Symbol("a_2")
        f, g = rng.choice([(sp.sin, sp.cos), (sp.cos, sp.sin)])
        c, d = self.coef(), self.coef()
        forms = [f(u) ** 2 * c, f(u) * g(u) * c, f(u + o) * c, f(u - o) * c + d * f(u), f(u - o) * c + d * g(u), f(2 * u) * c + f(u), u * f(u) * c,
                 f(u) + d * u, sp.sqrt(u ** 2 + d ** 2), u ** 2 * c, u ** 2 * c + u * d, sp.atan2(f(u), d), f(u) * (g(u) + c) + d, 1 / f(u) * c, f(u) ** 2 + g(u) ** 2 * c,
                 c * (1 + f(u)) - c * f(u), c * (1 + u) - c * u + d, c * (f(u) + g(u) + d) - c * f(u) - c * g(u), f(u) / g(u) * c, sp.sqrt(f(u) + d),
                 f(u) * f(u + o) * c, f(f(u)) * c, u ** 3, f(u) * u, f(u / 2) * c, sp.Abs(u) * c, c * u / (u + d)]
        if rng.random() < .25:      # what the solver knows how to handle, and the unknown once more where it does not look
            hidden = rng.choice([f(u + o), f(u - o), f(2 * u), f(u / 2), u, u ** 2, f(u) ** 2, f(u) * g(u), f(u) * f(u - o), sp.Abs(u), sp.atan2(u, c), sp.sqrt(u ** 2 + 1)])
            head = rng.choice([c * f(u) + d * g(u), c * f(u) + d * g(u), c * f(u), c * u])
            forms = [head + self.coef() * hidden]
        e = rng.choice(forms) + (self.additive() if rng.random() < .8 and len(self.pose) > 3 else 0)
        return self.equation(e)

    def other_equation(self, nu=1):
        """equation of another unknown"""
        sp, rng = self.sp, self.rng
        if not self.unsolved:
            return self.kc.kequation(self.coef(), self.coef())
        v = sp.Symbol(rng.choice(self.unsolved))
        w = v if nu == 1 else sp.Symbol(rng.choice(self.unsolved + [self.u_name]))
        e = self.coef() * sp.sin(v) + self.coef() * rng.choice([sp.cos(w), w, sp.sin(w)]) + self.additive(pose=len(self.pose) > 4)
        return self.kc.kequation(sp.S.Zero, e) if rng.random() < .5 else self.kc.kequation(e, sp.S.Zero)

    def n_unknowns(self, e):
        syms = e.LHS.free_symbols | e.RHS.free_symbols
        return sum(1 for n in [self.u_name] + self.unsolved if self.sp.Symbol(n) in syms)

    def values(self, exprs=(), u0=None):
        """random values; pose symbols with a free coefficient are chosen such that all exprs (each with its own fresh pose
        symbol) vanish at u0. Returns None when that is impossible."""
        sp, rng = self.sp, self.rng
        vals = {}
        for n in PNAMES + POSE + LEN:
            vals[sp.Symbol(n)] = rng.uniform(.3, 2.) * rng.choice([1, 1, -1])
        for n in ANG:
            vals[sp.Symbol(n)] = rng.uniform(-3.1, 3.1)
        if u0 is not None:
            vals[self.u] = u0
        todo = list(exprs)
        used = set()
        for _ in range(3):
            rest = []
            for e in todo:
                e = sp.sympify(e)
                zs = [z for z in sorted(self.z, key=str) if z in e.free_symbols and z not in used]
                zs = [z for z in zs if sp.diff(e, z) != 0 and not sp.diff(e, z).has(z) and not sp.diff(e, z).has(self.u)]
                if not zs:
                    rest.append(e)
                    continue
                z = zs[0]
                used.add(z)
                k = EV(sp.diff(e, z), vals)
                v0 = EV(e.subs(z, 0), vals)
                if k is None or v0 is None or abs(k) < 1e-3:
                    return None
                vals[z] = -v0 / k
            todo = rest
        for e in exprs:
            v = EV(sp.sympify(e), vals)
            if v is None or abs(v) > 1e-7:
                return None
        return vals


EV = num.Ev()


def blackboard(g, one, two=(), three=()):
    import b3
    bb = b3.Blackboard()
    bb.set("eqns_1u", list(one))
    bb.set("eqns_2u", list(two))
    bb.set("eqns_3pu", list(three))
    bb.set("unknowns", g.unknowns)
    bb.set("Robot", g.R)
    bb.set("curr_unk", g.objs[g.u_name])
    return bb


class Tick:
    def __init__(self, bb):
        self.blackboard = bb


def run_leaves(leaves, bb):
    """the pair as ikSolver uses it: the second only after the first succeeded. Returns (id_status, solve_status)."""
    import b3
    t = Tick(bb)
    s1 = leaves[0].tick(t)
    if s1 != b3.SUCCESS:
        return s1, None
    return s1, leaves[1].tick(t)


def instances(*classes):
    out = []
    for c in classes:
        o = c()
        o.BHdebug = False
        o.Name = c.__name__
        out.append(o)
    return out


def check_form(rec, g, sols, wit):
    """no solution holds the unknown itself or another unsolved unknown"""
    sp = g.sp
    ok = True
    for s in sols:
        s = sp.sympify(s)
        bad = [n for n in [g.u_name] + g.unsolved if s.has(sp.Symbol(n))]
        if bad:
            rec.violation("solution-contains-unsolved", dict(wit, solution=str(s), contains=bad))
            ok = False
        if s.has(sp.nan, sp.zoo, sp.oo, -sp.oo):
            rec.violation("solution-not-finite", dict(wit, solution=str(s)))
            ok = False
    return ok


def matches_offered(g, eq, offered, rng):
    """is the equation the leaf says it used (up to sign/side) one of those it was given? Returns the offered ones."""
    sp = g.sp
    e = sp.sympify(eq.RHS - eq.LHS)
    pts = [g.values() for _ in range(3)]
    res = []
    for o in offered:
        f = sp.sympify(o.RHS - o.LHS)
        v = [(EV(e, p), EV(f, p)) for p in pts]
        if any(a is None or b is None for a, b in v):
            if e == f or e == -f:
                res.append(f)
            continue
        if all(abs(a - b) < 1e-6 * (1 + abs(a)) for a, b in v) or all(abs(a + b) < 1e-6 * (1 + abs(a)) for a, b in v):
            res.append(f)
    return res


def wit(g, eqs, **kw):
    w = dict(unknown=g.u_name, solved=g.solved, unsolved=g.unsolved, equations=[repr(e) for e in eqs])
    w.update(kw)
    return w


# ---------------------------------------------------------------- full solves

KIND = {"algebra_solve": "C05", "sincos": "C06", "sinandcos_solve": "C07", "tan": "C08", "simu_solver": "C09"}


def who_solved(rec):
    """unknown symbol -> property id of the leaf that solved it, from the recorded trace"""
    res = {}
    ev = rec["events"]
    for i, (k, v) in enumerate(ev):
        if k != "set_solved" or "unk" not in v:
            continue
        nm = str(v["unk"]["symbol"])
        # the enclosing tick is recorded when it returns, i.e. right after
        leaf = next((w["leaf"] for kk, w in ev[i + 1:] if kk == "tick"), None)
        if leaf == "rank":
            m = v["unk"]["solvemethod"].rsplit("ranked", 1)
            if len(m) == 2:
                res[nm] = "C08" if "atan2" in m[1] else "C06"
            else:
                ok = [w["leaf"] for kk, w in ev[:i] if kk == "tick" and w["status"] == 1 and w["curr"] == nm and w["leaf"] in ("tan_solve", "sincos_solve")]
                res[nm] = {"tan_solve": "C08", "sincos_solve": "C06"}.get(ok[-1] if ok else None)
        else:
            res[nm] = KIND.get(leaf)
    return res


def observe(chk, pid, names, K=3, **kw):
    """Every unknown solved by the leaf of this property in full solves: at true configurations, the true value is among its
    solutions (dependencies at their true values), and every real solution satisfies the equations it was made from."""
    import sympy as sp
    import cases
    import vk
    for rec in cases.records(chk, names, **kw):
        who = who_solved(rec)
        rng = random.Random(rec["robot"] + str(vk.SEED) + pid)
        vac = rec["robot"] in cases.VACUOUS
        dh = rec["mech"]["DH"]
        arm = num.Arm(dh, sorted(dh.free_symbols, key=str))
        byname = {str(u["symbol"]): u for u in rec["unknowns"]}
        for nm, p in sorted(who.items()):
            if p != pid:
                continue
            u = byname[nm]
            chk.count("solved_in_full_runs")
            for _ in range(K):
                vals, jo = num.random_case(rec, rng)
                vals.update(num.pose_vals(arm.T(vals)))
                num.add_sums(vals, rec["R"]["aux"])
                true = vals[sp.Symbol(nm)]
                ang = num.is_angle(nm, dh)
                got = [EV(sp.sympify(s), vals) for s in u["solutions"]]
                chk.ev(("solve", rec["robot"], nm), sample=f"{rec['robot']} {nm} = {str(u['solutions'][0])[:80]}")
                w = dict(robot=rec["robot"], unknown=nm, solutions=[str(s)[:300] for s in u["solutions"]], method=u["solvemethod"],
                         equation=str(u["eqn"])[:400])
                if vac:
                    continue
                if not any(v is not None and num.same(nm, v, true, ang) for v in got):
                    chk.violation("true-value-lost-in-solve", dict(w, true=true, got=got))
                for q in ("eqn", "eqn2") if pid in ("C08", "C09") else ("eqn",):
                    if u[q] is None:
                        continue
                    e = sp.sympify(u[q][1] - u[q][0])
                    for v in got:
                        if v is None:
                            continue
                        pt = dict(vals)
                        pt[sp.Symbol(nm)] = v
                        r = EV(e, pt)
                        scale = 1 + max([abs(EV(t, pt) or 0) for t in sp.Add.make_args(e)] or [0])
                        chk.count("solutions_put_back")
                        if r is not None and abs(r) > 1e-5 * scale and not two_branch(pid, u):
                            chk.violation("solution-violates-its-equation", dict(w, residual=r, value=v))


def two_branch(pid, u):
    """arctangent with a cancelled unsolved factor: only one of its two solutions belongs to a given sign of the factor"""
    return pid == "C08" and len(u["solutions"]) == 2
