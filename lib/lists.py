"""Oracle for the equation lists: which equations belong into the lists of one, two, and three or more unsolved unknowns.
Works on plain data (pairs of expressions), so that it judges the real lists in full solves as well as random ones."""
import sympy as sp


def occurring(expr, unsolved):
    return {s for s in sp.sympify(expr).free_symbols if s in unsolved}


def count(eq, unsolved):
    """Once for each side of the equation an unknown appears on."""
    return len(occurring(eq[0], unsolved)) + len(occurring(eq[1], unsolved))


def norm(eq):
    return (sp.sympify(eq[0]), sp.sympify(eq[1]))


def equal(a, b):
    return a == b or (a[0] - b[0] == 0 and a[1] - b[1] == 0)


class Bag:
    """Equations, equal ones found even when they are written differently (1.0*x and x)."""

    def __init__(self, eqs=()):
        self.by = {}
        for e in eqs:
            self.add(e)

    @staticmethod
    def key(e):
        return (frozenset(e[0].free_symbols), frozenset(e[1].free_symbols))

    def add(self, e):
        self.by.setdefault(self.key(e), []).append(e)

    def has(self, e):
        c = self.by.get(self.key(e), [])
        return e in c or any(equal(e, x) for x in c)


def size(e):
    return int(sp.count_ops(e[1])) + int(sp.count_ops(e[0]))


def elements(meqs):
    """All elements of the matrix equations [(Td, Ts, aux)...]"""
    return [norm((Td[i, j], Ts[i, j])) for Td, Ts, _ in meqs for i in range(4) for j in range(4)]


def judge(report, wit, els, aux, unsolved, lists, differences=False, aux_in=(1, 2)):
    """lists: {1: [...], 2: [...], 3: [...]}; els: elements of the matrix equations, aux: definitions, which go to the lists aux_in;
    differences: the definitions may appear in the form 0 = difference, too (then counted in that form, after the scan).
    Returns the number of equations judged."""
    els, aux = [norm(e) for e in els], [norm(e) for e in aux]
    unsolved = set(unsolved)
    extra = Bag([(sp.S.Zero, sp.sympify(L - R)) for L, R in aux]) if differences else Bag()
    cls = lambda n: n if n < 3 else 3      # noqa: E731
    want = {1: Bag(), 2: Bag(), 3: Bag()}
    may = {1: Bag(), 2: Bag(), 3: Bag()}
    for e in els:
        n = count(e, unsolved)
        if n:
            want[cls(n)].add(e)
            may[cls(n)].add(e)
    for e in aux:
        n = count(e, unsolved)
        if n and cls(n) in aux_in:
            want[cls(n)].add(e)
        if n:
            may[cls(n)].add(e)
    total = 0
    for k, got in lists.items():
        got = [norm(e) for e in got]
        total += len(got)
        have = Bag(got)
        main = []
        for e in got:
            if may[k].has(e):
                main.append(e)
            elif extra.has(e):
                n = len(occurring(e[1], unsolved))
                if cls(n) != k:
                    report("wrong-list", dict(wit, equation=[str(x)[:300] for x in e], listed=k, unsolved_in_it=n))
            else:
                known = any(equal(e, x) for x in els + aux)
                report("wrong-list" if known else "foreign-equation", dict(wit, equation=[str(x)[:300] for x in e], listed=k, unsolved_in_it=count(e, unsolved)))
        for c in want[k].by.values():
            for e in c:
                if not have.has(e):
                    report("equation-missing", dict(wit, equation=[str(x)[:300] for x in e], list=k))
        if differences == "required":
            for c in extra.by.values():
                for e in c:
                    n = len(occurring(e[1], unsolved))
                    if n == k and n < 3 and not have.has(e):
                        report("difference-missing", dict(wit, equation=[str(x)[:300] for x in e], list=k))
        sizes = [size(e) for e in main if not (differences and extra.has(e))]
        if sizes != sorted(sizes):
            report("not-ordered-by-size", dict(wit, list=k, sizes=sizes[:40]))
        seen = Bag()
        auxbag = Bag(aux)
        for e in main:
            if seen.has(e) and not auxbag.has(e):
                report("listed-twice", dict(wit, list=k, equation=[str(x)[:300] for x in e]))
            seen.add(e)
    return total
