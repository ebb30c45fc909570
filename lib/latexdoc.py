"""A small reader of LaTeX documents: structure checks, and the mathematics turned back into sympy expressions."""
import re

import sympy as sp


class Bad(Exception):
    pass


MATH_ENVS = {"dmath", "dmath*", "align", "align*", "equation", "equation*", "gather", "gather*", "multline", "eqnarray", "displaymath", "math"}
VERB = {"verbatim", "lstlisting"}


def strip_comments(text):
    out, verb = [], False
    for line in text.split("\n"):
        if "\\begin{verbatim}" in line:
            verb = True
        if not verb:
            line = re.sub(r"(?<!\\)%.*", "", line)
            if line == "" and out and out[-1] is None:
                continue
        if "\\end{verbatim}" in line:
            verb = False
        out.append(line)
    return "\n".join(out)


def wellformed(text):
    """Errors of structure (list of texts) and the pieces: (kind, section path, body, position); kind: environment name, '$', '['."""
    t = strip_comments(text)
    errors, pieces, stack = [], [], []       # stack of (what, start, position)
    i, n = 0, len(t)
    section = ""
    body = t.find("\\begin{document}")
    if body < 0 or t.count("\\begin{document}") != 1 or t.count("\\end{document}") != 1:
        errors.append("document environment")
    pre = re.sub(r"\\[{}]", "", t[:max(body, 0)])
    if pre.count("{") != pre.count("}"):
        errors.append("braces before the document")
    i = max(body, 0)
    math = lambda: next((w for w, _ in reversed(stack) if w in MATH_ENVS or w in ("$", "[", "(")), None)  # noqa: E731
    while i < n:
        c = t[i]
        if c == "\\":
            m = re.compile(r"\\begin\{([^}]*)\}").match(t, i)
            if m:
                e = m.group(1)
                if e in VERB:
                    j = t.find("\\end{%s}" % e, m.end())
                    if j < 0:
                        errors.append("verbatim not closed")
                        break
                    pieces.append((e, section, t[m.end():j], i))
                    i = j + len("\\end{%s}" % e)
                    continue
                if e in MATH_ENVS and math():
                    errors.append(f"{e} inside mathematics")
                stack.append((e, m.end()))
                i = m.end()
                continue
            m = re.compile(r"\\end\{([^}]*)\}").match(t, i)
            if m:
                e = m.group(1)
                if not stack or stack[-1][0] != e:
                    errors.append(f"end of {e} closes {stack[-1][0] if stack else 'nothing'}")
                    if stack and any(w == e for w, _ in stack):
                        while stack[-1][0] != e:
                            stack.pop()
                if stack and stack[-1][0] == e:
                    w, s = stack.pop()
                    pieces.append((e, section, t[s:i], s))
                    if e == "document":
                        if t[m.end():].strip():
                            errors.append("text after the document")
                i = m.end()
                continue
            m = re.compile(r"\\(sub)*section\*?\{").match(t, i)
            if m and not math():
                j = close(t, m.end() - 1)
                if j is None:
                    errors.append("section title not closed")
                else:
                    section = t[m.end():j]
                i = m.end()
                stack.append(("{", i))
                continue
            two = t[i:i + 2]
            if two in ("\\[", "\\("):
                if math():
                    errors.append("nested mathematics")
                stack.append((two[1], i + 2))
            elif two in ("\\]", "\\)"):
                o = {"]": "[", ")": "("}[two[1]]
                if not stack or stack[-1][0] != o:
                    errors.append(f"{two} without its opening")
                else:
                    w, s = stack.pop()
                    pieces.append((o, section, t[s:i], s))
            elif t.startswith("\\left", i) and not t[i + 5:i + 6].isalpha():
                j = i + 5
                while t[j:j + 1] == " ":
                    j += 1
                d = t[j:j + 2] if t[j:j + 1] == "\\" else t[j:j + 1]
                stack.append(("left", i))
                i = j + len(d)
                continue
            elif t.startswith("\\right", i) and not t[i + 6:i + 7].isalpha():
                j = i + 6
                while t[j:j + 1] == " ":
                    j += 1
                d = t[j:j + 2] if t[j:j + 1] == "\\" else t[j:j + 1]
                if not stack or stack[-1][0] != "left":
                    errors.append("\\right without \\left")
                else:
                    stack.pop()
                i = j + len(d)
                continue
            elif two == "\\\\" and math() and any(w == "left" for w, _ in stack[max(k for k, (w, _) in enumerate(stack) if w in MATH_ENVS | {"$", "[", "("}):]) \
                    and not any(w in ("matrix", "bmatrix", "pmatrix", "array") for w, _ in stack):
                errors.append("line break between \\left and \\right")
            m = re.compile(r"\\([a-zA-Z]+|.)", re.S).match(t, i)
            i = m.end() if m else i + 1
            continue
        if c == "{":
            stack.append(("{", i + 1))
        elif c == "}":
            if not stack or stack[-1][0] != "{":
                errors.append(f"closing brace closes {stack[-1][0] if stack else 'nothing'}: ...{t[max(0, i - 40):i + 10]}")
            else:
                stack.pop()
        elif c == "$":
            if stack and stack[-1][0] == "$":
                w, s = stack.pop()
                pieces.append(("$", section, t[s:i], s))
            elif math():
                errors.append("$ inside mathematics: " + t[max(0, i - 40):i + 10])
            else:
                stack.append(("$", i + 1))
        elif c in "_^" and i > body and not math():
            errors.append(f"{c} outside mathematics: {t[max(0, i - 40):i + 10]!r}")
        elif c in "&#" and i > body and not any(w in ("tabular", "array", "matrix", "align", "align*", "eqnarray") for w, _ in stack):
            errors.append(f"{c} outside a table: {t[max(0, i - 40):i + 10]!r}")
        elif c == "\n" and math():
            m = re.compile(r"\n[ \t]*\n").match(t, i)
            if m:
                errors.append("empty line inside mathematics: " + t[max(0, i - 60):i])
                i = m.end() - 1
                continue
        i += 1
    if stack:
        errors.append("never closed: " + ", ".join(w for w, _ in stack[:5]))
    for kind, sec, b, p in pieces:
        if kind == "tabular":
            m = re.match(r"\s*\{([^}]*)\}", b)
            if not m:
                errors.append("tabular without columns")
                continue
            k = len(re.findall(r"[lcrp]", m.group(1)))
            for row in re.split(r"\\\\", b[m.end():]):
                cells = row.count("&") - row.count("\\&") + 1
                if cells > k:
                    errors.append(f"table row with {cells} cells, {k} columns")
    return errors, pieces, t


def close(t, i):
    """Index of the brace which closes t[i] == '{'."""
    d = 0
    while i < len(t):
        if t[i] == "\\":
            i += 2
            continue
        if t[i] == "{":
            d += 1
        elif t[i] == "}":
            d -= 1
            if d == 0:
                return i
        i += 1
    return None


TOK = re.compile(r"\s+|\\([a-zA-Z]+)|\\(.)|(\d+\.\d*(?:e[+-]?\d+)?|\.\d+|\d+)|([a-zA-Z]+)|(.)", re.S)
GREEK = {"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "nu", "xi", "rho", "sigma", "tau", "phi",
         "chi", "psi", "omega"}
FUNS = {"sin": sp.sin, "cos": sp.cos, "tan": sp.tan, "asin": sp.asin, "acos": sp.acos, "atan": sp.atan, "arcsin": sp.asin, "arccos": sp.acos, "arctan": sp.atan,
        "log": sp.log, "exp": sp.exp}


def tokens(s):
    out = []
    for m in TOK.finditer(s):
        cmd, esc, num, word, ch = m.groups()
        if cmd is not None:
            out.append(("c", cmd))
        elif esc is not None:
            if esc not in ",;:! ":
                out.append(("c", esc))
        elif num is not None:
            out.append(("n", num))
        elif word is not None:
            out.append(("w", word))
        elif ch is not None:
            out.append(("o", ch))
    out = [x for x in out if x not in (("c", "quad"), ("c", "limits"))]
    return out + [("e", "")]


class Math:
    """Recursive-descent reader of the mathematics sympy prints. Symbols are named as in IKBT (theta -> th)."""

    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    @property
    def k(self):
        return self.t[self.i]

    def eat(self, kind, v=None):
        k = self.k
        if k[0] == kind and (v is None or k[1] == v):
            self.i += 1
            return k[1]
        return None

    def need(self, kind, v=None):
        r = self.eat(kind, v)
        if r is None:
            raise Bad(f"expected {v or kind}, found {self.k[1]!r}")
        return r

    def group(self):
        """{ ... } or a single token; returned as an expression."""
        if self.eat("o", "{"):
            e = self.sum()
            self.need("o", "}")
            return e
        return self.atom()

    def rawgroup(self):
        """subscript text"""
        if self.eat("o", "{"):
            s, d = "", 0
            while True:
                k = self.k
                if k[0] == "e":
                    raise Bad("subscript not closed")
                if k == ("o", "{"):
                    d += 1
                if k == ("o", "}"):
                    if d == 0:
                        break
                    d -= 1
                s += k[1]
                self.i += 1
            self.need("o", "}")
            return s
        k = self.k
        self.i += 1
        return k[1]

    def sum(self):
        neg = False
        while self.k in (("o", "-"), ("o", "+")):
            neg ^= self.k[1] == "-"
            self.i += 1
        e = self.product()
        if neg:
            e = -e
        while self.k in (("o", "-"), ("o", "+")):
            m = self.k[1] == "-"
            self.i += 1
            f = self.product()
            e = e - f if m else e + f
        return e

    def starts(self):
        k = self.k
        if k[0] in "nw":
            return True
        if k[0] == "c":
            return k[1] not in ("right", "end", "\\", "]", ")", "}", "cdot", "times", "begin")
        return k[0] == "o" and k[1] in "({"

    def product(self):
        e = self.power()
        while True:
            if self.eat("c", "cdot") or self.eat("c", "times") or self.eat("o", "*"):
                e = e * self.power()
            elif self.eat("o", "/"):
                e = e / self.power()
            elif self.starts():
                e = e * self.power()
            else:
                return e

    def power(self):
        e = self.atom()
        while self.eat("o", "^"):
            e = e ** self.group()
        return e

    def args(self):
        """{\\left(a,b\\right)}"""
        wrapped = self.eat("o", "{")
        if self.eat("c", "left"):
            if not (self.eat("o", "(")):
                raise Bad("expected (")
            a = [self.sum()]
            while self.eat("o", ","):
                a.append(self.sum())
            self.need("c", "right")
            self.need("o", ")")
        else:
            a = [self.power()]
        if wrapped:
            self.need("o", "}")
        return a

    def name(self, base):
        if self.eat("o", "_"):
            return sp.Symbol(base + "_" + self.rawgroup())
        return sp.Symbol(base)

    def atom(self):
        k = self.k
        if k[0] == "n":
            self.i += 1
            return sp.Float(k[1]) if "." in k[1] else sp.Integer(k[1])
        if k[0] == "w":
            self.i += 1
            if k[1] == "atan" and self.k == ("n", "2"):
                self.i += 1
                return sp.atan2(*self.args())
            return self.name("th" if k[1] == "th" else k[1])
        if k[0] == "o" and k[1] == "(":
            self.i += 1
            e = self.sum()
            self.need("o", ")")
            return e
        if k[0] == "o" and k[1] == "{":
            return self.group()
        if k[0] == "c":
            c = k[1]
            self.i += 1
            if c == "frac" or c == "dfrac" or c == "Dfrac":
                a = self.group()
                return a / self.group()
            if c == "sqrt":
                if self.eat("o", "["):
                    n = self.sum()
                    self.need("o", "]")
                    return self.group() ** (1 / n)
                return sp.sqrt(self.group())
            if c == "pi":
                return sp.pi
            if c in ("left",):
                d = self.k
                self.i += 1
                e = self.sum()
                self.need("c", "right")
                self.i += 1
                return abs(e) if d == ("o", "|") else e
            if c == "operatorname" or c == "mathrm":
                f = self.rawgroup()
                two = bool(self.eat("o", "_") and self.rawgroup() == "2")
                if f == "atan2" or (two and f in ("atan", "arctan")):
                    return sp.atan2(*self.args())
                return self.fun(f)
            if c in FUNS:
                return self.fun(c)
            if c in GREEK:
                return self.name("th" if c == "theta" else c)
            raise Bad("unknown command \\" + c)
        raise Bad(f"unexpected {k[1]!r}")

    def fun(self, f):
        if f not in FUNS:
            raise Bad("unknown function " + f)
        p = None
        if self.eat("o", "^"):
            p = self.group()
        a = self.args()
        e = FUNS[f](*a)
        return e if p is None else e ** p

    def done(self):
        if self.k[0] != "e":
            raise Bad(f"unexpected {self.k[1]!r}")


def expr(s):
    m = Math(s)
    e = m.sum()
    m.done()
    return e


def equations(body):
    """The lines 'LHS = RHS' of a display: [(name, RHS expression)]."""
    out = []
    for line in re.split(r"\\\\", body):
        line = line.replace("&", "").strip()
        if not line:
            continue
        if "=" not in line:
            raise Bad("not an equation: " + line[:80])
        a, b = line.split("=", 1)
        L = expr(a)
        if not L.is_Symbol:
            raise Bad("left side is not a variable: " + a[:60])
        out.append((str(L), expr(b)))
    return out


def matrices(body):
    """All matrices printed in a piece of mathematics: [[row expressions]]."""
    out = []
    for m in re.finditer(r"\\begin\{(matrix|bmatrix|pmatrix|array)\}(.*?)\\end\{\1\}", body, re.S):
        rows = []
        for r in re.split(r"\\\\", re.sub(r"^\{[lcr|]*\}", "", m.group(2))):
            if r.strip():
                rows.append([expr(x) for x in r.split("&")])
        out.append(rows)
    return out
