"""Memo table for sympy's own simplify()/trigsimp().

90 % of the time of a solve is spent in sympy.simplify on equation-matrix elements.  Both functions are pure library
functions of the installed sympy: they are not part of the code under test.  The table (data/memo.bin, committed) maps
sha1(function name + srepr(argument)) to the pickled result sympy gave for exactly that argument; an argument that is
not in the table goes to the real function.  Code under test therefore gets, for every argument it passes, a result
sympy really computed for that argument - only faster.
"""
import hashlib
import os
import pickle
import zlib

import sympy
from sympy import srepr

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "memo.bin")

table = {}
stats = {"hit": 0, "miss": 0}
fresh = {}


def load():
    global table
    if os.path.exists(PATH):
        with open(PATH, "rb") as f:
            head, table = pickle.loads(zlib.decompress(f.read()))
        if head != sympy.__version__:
            table = {}


def key_of(fname, arg):
    return hashlib.sha1((fname + "|" + srepr(arg)).encode()).digest()[:12]


depth = 0


def wrap(fname, real):
    def memoized(arg, *a, **kw):
        global depth
        if depth or a or kw or isinstance(arg, (int, float, str, list, tuple, dict)) or not hasattr(arg, "free_symbols"):
            return real(arg, *a, **kw)
        if getattr(arg, "is_Atom", False):
            return real(arg)
        k = key_of(fname, arg)
        got = table.get(k)
        if got is None:
            got = fresh.get(k)
        if got is not None:
            stats["hit"] += 1
            return pickle.loads(got)
        stats["miss"] += 1
        depth += 1
        try:
            res = real(arg)
        finally:
            depth -= 1
        fresh[k] = pickle.dumps(res, protocol=4)
        return res

    memoized.__name__ = fname
    memoized._real = real
    return memoized


def install():
    if os.environ.get("IKBT_NO_MEMO"):
        return
    load()
    for fname in ("simplify", "trigsimp"):
        real = getattr(sympy, fname)
        if not hasattr(real, "_real"):
            setattr(sympy, fname, wrap(fname, real))
    for cls, fname in ((sympy.Basic, "simplify"), (sympy.Expr, "trigsimp")):   # expr.simplify(): the same functions
        m = getattr(cls, fname)
        if not hasattr(m, "_real"):
            setattr(cls, fname, wrap("." + fname, m))


def save(more):
    """Merge tables of fresh results into the committed file (maintenance only, never at check time)."""
    import fcntl
    os.makedirs(os.path.dirname(PATH), exist_ok=True)
    with open("/tmp/ikbt-memo.lock", "w") as lk:
      fcntl.flock(lk, fcntl.LOCK_EX)
      load()
      table.update(more)
      with open(PATH + ".new", "wb") as f:
        f.write(zlib.compress(pickle.dumps((sympy.__version__, dict(sorted(table.items()))), protocol=4), 9))
      os.replace(PATH + ".new", PATH)
