"""Independent numeric oracles (numpy only; nothing imported from the code under test)."""
import itertools
import math
import cmath

import numpy as np
import sympy as sp

R_NAMES = [f"r_{i}{j}" for i in (1, 2, 3) for j in (1, 2, 3)]


def link(al, a, d, th):
    """Craig (modified) DH link transform."""
    ca, sa, ct, st = math.cos(al), math.sin(al), math.cos(th), math.sin(th)
    return np.array([[ct, -st, 0, a], [st * ca, ct * ca, -sa, -sa * d], [st * sa, ct * sa, ca, ca * d], [0, 0, 0, 1.0]])


def dh_eval(dh, vals):
    """DH table (sympy) -> list of numeric rows under {symbol: number}."""
    rows = []
    for i in range(dh.shape[0]):
        rows.append([float(sp.sympify(dh[i, j]).subs(vals)) for j in range(4)])
    return rows


class Arm:
    """Numeric FK of a DH table: fast re-evaluation for many configurations."""

    def __init__(self, dh, syms):
        self.syms = list(syms)
        self.f = sp.lambdify(self.syms, dh.tolist(), modules="math")

    def rows(self, vals):
        return np.array(self.f(*[vals[s] for s in self.syms]), dtype=float)

    def links(self, vals):
        return [link(*r) for r in self.rows(vals)]

    def T(self, vals):
        T = np.eye(4)
        for L in self.links(vals):
            T = T @ L
        return T


def pose_vals(T):
    v = {}
    for i in range(3):
        for j in range(3):
            v[sp.Symbol(f"r_{i+1}{j+1}")] = float(T[i, j])
    v[sp.Symbol("Px")], v[sp.Symbol("Py")], v[sp.Symbol("Pz")] = (float(T[k, 3]) for k in range(3))
    return v


def angdiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def is_angle(name, dh):
    """An unknown is an angle when it appears in the theta column of the DH table (sums of joints are angles)."""
    s = sp.Symbol(name)
    return not any(sp.sympify(dh[i, 2]).has(s) for i in range(dh.shape[0]))


def same(name, a, b, angle, tol=1e-5):
    if angle:
        return angdiff(a, b) < tol
    return abs(a - b) < tol * max(1.0, abs(a), abs(b))


def _atan2(y, x):
    if isinstance(y, complex) or isinstance(x, complex):
        y, x = complex(y), complex(x)
        if abs(y.imag) > 1e-6 * max(1, abs(y)) or abs(x.imag) > 1e-6 * max(1, abs(x)):
            raise ValueError("complex atan2")
        y, x = y.real, x.real
    return math.atan2(y, x)


def _near1(x):
    x = _real(x)
    if 1 < abs(x) < 1 + 1e-9:
        return math.copysign(1.0, x)
    return x


def _real(x):
    if isinstance(x, complex):
        if abs(x.imag) > 1e-9 * max(1.0, abs(x)):
            raise ValueError("complex")
        return x.real
    return x


def _sqrt(x):
    x = _real(x)
    if -1e-12 < x < 0:
        return 0.0
    return math.sqrt(x)


def mods(eps):
    """Evaluation in which arguments of asin/acos/sqrt may leave their range by eps (eps < 0: must stay inside by -eps)."""
    def near1(x):
        x = _real(x)
        if abs(x) > 1 + eps:
            raise ValueError("range")
        return max(-1.0, min(1.0, x))

    def root(x):
        x = _real(x)
        if x < -eps:
            raise ValueError("range")
        return math.sqrt(max(0.0, x))
    return [{"atan2": _atan2, "asin": lambda x: math.asin(near1(x)), "acos": lambda x: math.acos(near1(x)), "sqrt": root}, "math"]


MODS = [{"atan2": _atan2, "asin": lambda x: math.asin(_near1(x)), "acos": lambda x: math.acos(_near1(x)), "sqrt": _sqrt}, "math"]


def fn(expr, syms, modules=None):
    return sp.lambdify(list(syms), expr, modules=modules or MODS)


class Ev:
    """Cached numeric evaluation of sympy expressions over {Symbol: float}. Returns None when undefined/complex."""

    def __init__(self, modules=None):
        self.cache = {}
        self.modules = modules

    def __call__(self, expr, vals):
        c = self.cache.get(expr)
        if c is None:
            expr_s = sp.sympify(expr)
            syms = sorted(expr_s.free_symbols, key=str)
            try:
                c = (syms, fn(expr_s, syms, self.modules))
            except Exception as e:  # unprintable expression (zoo etc.)
                c = (syms, None)
            self.cache[expr] = c
        syms, f = c
        if f is None:
            return None
        try:
            v = f(*[vals[s] for s in syms])
            if isinstance(v, complex):
                v = _real(v)
            v = float(v)
            return v if math.isfinite(v) else None
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return None


def param_symbols(rec, spec_params=None):
    """free symbols of DH that are not unknowns"""
    dh = rec["mech"]["DH"]
    unk = {u["symbol"] for u in rec["unknowns"]}
    return sorted((s for s in dh.free_symbols if s not in unk), key=str)


def random_case(rec, rng, generic=True):
    """Random parameters and joint values for a solve record -> (vals for params+q(+sums), arm)."""
    dh = rec["mech"]["DH"]
    unk = [u["symbol"] for u in rec["unknowns"]]
    jo = [s for s in unk if s in dh.free_symbols]
    pars = sorted((s for s in dh.free_symbols if s not in unk), key=str)
    vals = {}
    for p in pars:
        if str(p).startswith("al"):
            vals[p] = rng.uniform(0.3, 1.2)
        else:
            vals[p] = rng.uniform(0.3, 2.0)
    for s in jo:
        if is_angle(str(s), dh):
            vals[s] = rng.uniform(-3.1, 3.1)
        else:
            vals[s] = rng.uniform(-2, 2)
    # parameters made by the FK for odd twist angles
    for i in range(dh.shape[0]):
        al = sp.sympify(dh[i, 0])
        vals.setdefault(sp.Symbol(f"ca{i}"), math.cos(float(al.subs(vals))))
        vals.setdefault(sp.Symbol(f"sa{i}"), math.sin(float(al.subs(vals))))
    return vals, jo


def add_sums(vals, aux):
    """Values for the sum-of-angles variables from their defining equations (symbol = sum)."""
    todo = list(aux)
    for _ in range(10):
        rest = []
        for L, Rr in todo:
            L, Rr = sp.sympify(L), sp.sympify(Rr)
            if L.is_Symbol and L not in vals and all(s in vals for s in Rr.free_symbols):
                vals[L] = float(Rr.subs(vals))
            else:
                rest.append((L, Rr))
        todo = rest
    return vals
