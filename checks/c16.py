import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C16: the LaTeX report is read back: structure, and its mathematics evaluated against what the solver recorded."""
import math
import random
import re

import sympy as sp

import cases
import latexdoc as ld
import vk


class Reader:
    """Judges one report against the facts of the run."""

    def __init__(self, chk, wit, text, rng, symbols):
        import num
        self.chk, self.wit = chk, wit
        self.rng = rng
        self.errors, self.pieces, self.t = ld.wellformed(text)
        self.ev = num.Ev()
        self.points = []
        names = {str(s) for s in symbols}
        for _ in range(4):
            env = {}
            for s in sorted(names):
                env[sp.Symbol(s)] = rng.uniform(-1, 1) if s[:2] == "r_" else rng.uniform(0.4, 1.9)
            self.points.append(env)
        for e in self.errors[:4]:
            chk.violation("malformed", dict(wit, error=e))
        self.seen = 0

    def full(self, env, e):
        """Values for the abbreviations c_12 = cos(th_1 + th_2) and for version names."""
        env = dict(env)
        for s in e.free_symbols:
            if s in env:
                continue
            n = str(s)
            if n[:2] in ("c_", "s_") and n[2:].isdigit():
                a = [sp.Symbol("th_" + c) for c in n[2:]]
                if all(x in env for x in a):
                    env[s] = (math.cos if n[0] == "c" else math.sin)(sum(env[x] for x in a))
                    continue
            n = n.replace("_", "")        # sa2 is printed as sa_{2}
            known = next((v for x, v in env.items() if str(x).replace("_", "") == n), None)
            if known is None:
                known = self.extra.setdefault(n, self.rng.uniform(0.4, 1.9))
            env[s] = known
        return env

    extra = {}

    def equal(self, printed, actual):
        """Same value (and existence) at several points?"""
        actual = sp.sympify(actual)
        self.seen += 1
        if printed == actual:
            return True
        some = False
        for env in self.points:
            env = self.full(self.full(env, actual), printed)
            a, b = self.ev(actual, env), self.ev(printed, env)
            if a is None and b is None:
                continue
            some = True
            if a is None or b is None or abs(a - b) > 1e-7 * (1 + abs(a)):
                return False
        if not some:      # nowhere real: compare as complex numbers
            def val(e, env):
                try:
                    return complex(e.subs(env).evalf(20))
                except Exception:
                    return None
            for env in self.points[:2]:
                env = self.full(self.full(env, actual), printed)
                a, b = val(actual, env), val(printed, env)
                if a is None or b is None or math.isnan(abs(a)) or math.isnan(abs(b)):
                    continue
                if abs(a - b) > 1e-6 * (1 + abs(a)):
                    return False
                some = True
            self.chk.count("compared_as_complex" if some else "not_comparable")
        return True

    def table(self, M, what):
        """Is the matrix printed (as one matrix, or column by column)?"""
        r, c = M.shape
        cols = []
        for kind, sec, body, pos in self.pieces:
            if kind not in ld.MATH_ENVS and kind not in ("[", "$"):
                continue
            try:
                ms = ld.matrices(body)
            except ld.Bad as e:
                self.chk.violation("unreadable-mathematics", dict(self.wit, error=str(e), text=body[:300]))
                continue
            run = []
            for m in ms:
                if len(m) == r and all(len(x) == c for x in m) and all(self.equal(m[i][j], M[i, j]) for i in range(r) for j in range(c)):
                    return True
                if len(m) == r and all(len(x) == 1 for x in m):
                    run.append([x[0] for x in m])
            if len(run) == c and all(self.equal(run[j][i], M[i, j]) for i in range(r) for j in range(c)):
                labels = [int(x) for x in re.findall(r"Column(?:\s|~|\\quad|\\,)*(\d+)", body)]
                if len(labels) == c and labels != list(range(1, c + 1)):
                    self.chk.violation("columns-numbered-wrongly:" + what, dict(self.wit, labels=labels))
                return True
            cols += [run] if run else []
        self.chk.violation("matrix-missing:" + what, dict(self.wit, shape=[r, c], columns_found=[len(x) for x in cols]))
        return False

    def all_equations(self):
        """[(position, name, expression)] of every display which consists of equations."""
        out = []
        for kind, sec, body, pos in sorted(self.pieces, key=lambda p: p[3]):
            if kind not in ld.MATH_ENVS or "\\begin{matrix}" in body or "=" not in body:
                continue
            try:
                out += [(pos, n, e) for n, e in ld.equations(body)]
            except ld.Bad as e:
                self.chk.violation("unreadable-mathematics", dict(self.wit, error=str(e), text=body[:300]))
        return out

    def variable(self, n):
        """x_2s1 -> (x_2, 's', 1)"""
        m = re.match(r"^(.*?)([sv])_?(\d+)$", n)
        return (m.group(1), m.group(2), int(m.group(3))) if m else (n, "", 0)

    def report(self, solved, final, sets, DH, T, J, unsolved, methods, edges):
        """solved: [(name, [solutions])] in solving order; final: rows of (LHS, RHS); sets: tuples of version names;
        methods: {name: method}; edges: [(unknown, unknown it depends on)]."""
        chk, wit = self.chk, self.wit
        if self.errors:
            return
        eqs = self.all_equations()
        first, have_s, have_v = {}, {}, {}
        for pos, n, e in eqs:
            v, k, i = self.variable(n)
            if v in unsolved:
                chk.violation("solution-for-an-unsolved-unknown", dict(wit, unknown=v, equation=str(e)[:200]))
            elif v not in [x for x, _ in solved]:
                chk.violation("equation-for-nothing", dict(wit, name=n, equation=str(e)[:200]))
                continue
            first.setdefault((v, k), pos)
            if k == "v":
                n = f"{v}v{i}"
                have_v.setdefault(n, []).append(e)
            else:
                have_s.setdefault(v, []).append(e)
        for v, sols in solved:
            got = have_s.get(v, [])
            if len(got) != len(sols) or not all(self.equal(g, s) for g, s in zip(got, sols)):
                chk.violation("solutions-of-an-unknown", dict(wit, unknown=v, solutions=[str(s) for s in sols], printed=[str(g) for g in got][:6]))
                return
            chk.count("solutions_read_back", len(sols))
        for k in "sv":
            p = [first.get((v, k), first.get((v, ""), -1)) for v, _ in solved]
            if p != sorted(p) and -1 not in p:
                chk.violation("order-of-unknowns", dict(wit, order=[v for v, _ in solved]))
        want = [(str(L), R) for row in final for L, R in row]
        left = {n: list(x) for n, x in have_v.items()}
        for n, R in want:
            hit = next((e for e in left.get(n, []) if self.equal(e, R)), None)
            if hit is None:
                chk.violation("entry-of-a-vector-missing", dict(wit, name=n, equation=str(R)[:300], printed=[str(e)[:200] for e in have_v.get(n, [])][:3]))
                return
            left[n].remove(hit)
            chk.count("vector_entries_read_back")
        bare = sorted({str(x) for g in sets for x in g} - set(have_v))
        if bare:
            chk.violation("vector-entry-without-equation", dict(wit, names=bare[:5]))
        if any(left.values()):
            chk.violation("more-vector-entries-than-vectors", dict(wit, names=[n for n, x in left.items() if x][:5]))
        # the list of the unknowns
        items = re.findall(r"\\item\s*\{?\s*\$([^$]*)\$", self.t)
        try:
            names = [str(ld.expr(x)) for x in items]
        except ld.Bad as e:
            names = [str(e)]
        if names != [v for v, _ in solved]:
            chk.violation("list-of-unknowns", dict(wit, printed=names, solved=[v for v, _ in solved]))
        # the list of the vectors, as text and as a table
        S = sorted(tuple(str(x) for x in g) for g in sets)
        lists = []
        for kind, sec, body, pos in self.pieces:
            if kind == "verbatim" and "depends on" not in body:
                tu = [tuple(re.findall(r"[A-Za-z]\w*", ln)) for ln in body.split("\n") if ln.strip()]
                lists.append(sorted(tu))
            if kind == "tabular":
                b = re.sub(r"^\s*\{[^}]*\}", "", body).replace("\\hline", "")
                tu = [tuple(re.findall(r"[A-Za-z]\w*", ln.replace("\\", ""))) for ln in re.split(r"\\\\", b) if ln.strip()]
                lists.append(sorted(tu))
        lists = [x for x in lists if x]
        if (S and not lists) or any(x != S for x in lists):
            chk.violation("list-of-vectors", dict(wit, vectors=S[:4], printed=[x[:4] for x in lists]))
        # the method named for each unknown, and the edges of the solution graph
        for part in self.t.split("\\subsection{")[1:]:
            m = re.match(r"\s*\$([^$]*)\$", part)
            n = re.search(r"Solution Method:([^\n]*)", part)
            if not m or not n:
                continue
            try:
                v = str(ld.expr(m.group(1)))
            except ld.Bad:
                continue
            if v in methods:
                chk.count("methods_read_back")
                if plain(n.group(1)) != plain(methods[v]):
                    chk.violation("method-of-an-unknown", dict(wit, unknown=v, method=methods[v], printed=n.group(1)))
        shown = [e for kind, sec, body, pos in self.pieces if kind == "verbatim" for e in re.findall(r"\((\w+)\s*-->\s*(\w+)\)", body)]
        chk.count("edges_read_back", len(shown))
        if sorted(shown) != sorted((str(a), str(b)) for a, b in edges):
            chk.violation("edges-of-the-solution-graph", dict(wit, printed=shown, edges=sorted(edges)))
        self.table(DH, "DH parameters")
        self.table(T, "forward kinematics")
        self.table(J, "Jacobian")

    def fk_report(self, DH, T, J):
        if self.errors:
            return
        self.table(DH, "DH parameters")
        self.table(T, "forward kinematics")
        self.table(J, "Jacobian")


def plain(t):
    return re.sub(r"[\s\\{}$~]", "", t)


def synth_mech(rng, R, order):
    """DH table, forward kinematics and Jacobian for a synthetic robot: expressions of the kinds that occur."""
    import synth
    SY = synth.SY
    U = [SY[n] for n in ("th_1", "th_2", "th_3", "th_4", "th_5", "th_6", "d_1", "d_2", "d_3")]
    P = R.params or [SY["a_1"]]

    def angle():
        k = rng.randrange(1, 6)
        return SY[f"th_{k}"] if rng.random() < .7 else SY[f"th_{k}"] + SY[f"th_{k + 1}"]

    def el():
        e = sp.S.Zero
        for _ in range(rng.randint(0, 3)):
            t = rng.choice([1, -1, 2, sp.Rational(1, 2), sp.sqrt(2) / 2])
            for _ in range(rng.randint(1, 3)):
                t *= rng.choice([sp.sin(angle()), sp.cos(angle()), rng.choice(P), rng.choice(U[6:])])
            e += t
        return e
    R.Mech.DH = sp.Matrix(6, 4, lambda i, j: [rng.choice([0, sp.pi / 2, -sp.pi / 2, sp.pi, sp.pi / 3]), rng.choice([0, rng.choice(P), -rng.choice(P)]),
                                              rng.choice([0, rng.choice(P), U[6]]), rng.choice([0, U[i], U[i] + sp.pi / 2])][j])
    R.Mech.T_06 = sp.Matrix(4, 4, lambda i, j: el() if i < 3 else (1 if j == 3 else 0))
    R.Mech.J66 = sp.Matrix(6, 6, lambda i, j: el())
    R.Mech.Ts = R.Mech.T_06


def work(rec):
    """Synthetic (partly) solved robots through the real report writers."""
    import os
    import shutil
    import synth
    import ikbtfunctions.output_latex as ol
    rng = rec.rng
    os.makedirs("LaTex", exist_ok=True)
    for f in ("IK_preamble.tex", "IK_close.tex"):
        shutil.copy(os.path.join(vk.REPO, "LaTex", f), "LaTex/" + f)
    k = 0
    while not rec.over() and k < (4000 if rec.thorough else 400):
        with rec.guard(60):
            k += 1
            name = rng.choice(["syn", "Syn-2", "test: Syn", "S_y_n"]) + str(k)
            many = rng.random() < .25      # many unknowns, each depending on most of those before
            R, objs, order, pvals = synth.robot(rng, name=name, cap=16, nmax=14 if many else 8, dens=.9 if many else None, partial=not many)
            synth_mech(rng, R, order)
            wit = dict(robot="synthetic", name=name, solutions=[(n, [str(x) for x in s]) for n, s in order])
            final = [[(e.LHS, e.RHS) for e in row] for row in R.FinalEqnMatrix]
            facts = (list(order), final, list(R.solutionSet), R.Mech.DH, R.Mech.T_06, R.Mech.J66, [u.name for u in objs if not u.solved],
                     {u.name: u.solvemethod for u in objs if u.solved}, [(str(e.StartNode), str(e.dependsOn)) for e in R.notation_graph_edges])
            syms = list(synth.SY.values())
            try:
                ol.output_latex_solution(R, objs, R.solutionSet)
                p = "LaTex/ik_solution_" + name.replace("test: ", "") + ".tex"
                doc = open(p).read()
                os.remove(p)
                Reader(rec, dict(wit, report="inverse kinematics"), doc, rng, syms).report(*facts)
                rec.ev((tuple(n for n, _ in order), len(final)), sample=f"report of a synthetic robot, solved {[n for n, _ in order]}, {len(final)} vectors")
                rec.count("synthetic_reports")
                if not order:
                    rec.count("synthetic_reports_nothing_solved")
                if rng.random() < .3:
                    ol.output_FK_equations(R)
                    p = "LaTex/fk_equations_" + name.replace("test: ", "") + ".tex"
                    doc = open(p).read()
                    os.remove(p)
                    Reader(rec, dict(wit, report="forward kinematics"), doc, rng, syms).fk_report(R.Mech.DH, R.Mech.T_06, R.Mech.J66)
                    rec.count("synthetic_fk_reports")
                    rec.ev()
            except ld.Bad as e:
                rec.violation("unreadable", dict(wit, error=str(e)))
            except Exception:
                import traceback
                rec.violation("report-raised", dict(wit, error=traceback.format_exc()[-800:]))


def judge(chk, rec):
    name = rec["robot"]
    text = rec["files"].get(f"LaTex/ik_solution_{name}.tex")
    wit = dict(robot=name)
    if text is None:
        chk.violation("report-missing", wit)
        return
    M = rec["mech"]
    order = sorted([u for u in rec["unknowns"] if u["solved"]], key=lambda u: u["solveorder"])
    syms = set(M["DH"].free_symbols) | set(M["T_06"].free_symbols) | {u["symbol"] for u in rec["unknowns"]} | \
        {s for u in order for e in u["solutions"] for s in sp.sympify(e).free_symbols} | {sp.Symbol(f"th_{k}") for k in range(1, 7)}
    Reader(chk, wit, text, random.Random(name), syms).report(
        [(u["name"], u["solutions"]) for u in order], rec["R"]["final"], rec["R"]["solutionSet"], M["DH"], M["T_06"], M["J66"],
        [u["name"] for u in rec["unknowns"] if not u["solved"]], {u["name"]: u["solvemethod"] for u in order}, rec["R"]["edges"])
    chk.ev((name,), sample=f"{name}: {len(order)} unknowns, {len(rec['R']['final'])} vectors read back from the report")
    chk.count("reports_read")


def main():
    import concurrent.futures as cf
    chk = vk.Check("C16", rule="one evaluation = one LaTeX report read back and compared with the run it describes; distinct = robots / (set of solved unknowns, number of vectors)")
    names = cases.CATALOG + sorted(cases.POOL) if vk.THOROUGH else \
        cases.VACUOUS + cases.SOLVED + ["ArmRobo"] + sorted(chk.rng.sample(cases.POOL_SOLVED, 6)) + ["S002", "S096", "S003"]
    vk.fuzz(chk, __file__, budget=120 if vk.THOROUGH else 12)
    for rec in cases.records(chk, names, budget=800 if vk.THOROUGH else 300, timeout=200, trace=0):
        judge(chk, rec)
    chk.finish(minimum=100, need=dict(reports_read=30, solutions_read_back=200, vector_entries_read_back=1000, synthetic_reports=60, synthetic_reports_nothing_solved=3))


if __name__ == "__main__":
    main()
