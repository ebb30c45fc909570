import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C23: numeric and symbolic kinematics utilities against their definitions (numpy), for generic and singular arguments."""
import math

import numpy as np

import vk

TOL = 1e-9
SPECIAL = [0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 2 * math.pi, 3 * math.pi, -5 * math.pi, math.pi / 6, 1e-9, -1e-9, 1e-300, 7.5, -100.0, 1e3]


def Rx(t):
    return np.array([[1, 0, 0], [0, math.cos(t), -math.sin(t)], [0, math.sin(t), math.cos(t)]])


def Ry(t):
    return np.array([[math.cos(t), 0, math.sin(t)], [0, 1, 0], [-math.sin(t), 0, math.cos(t)]])


def Rz(t):
    return np.array([[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1]])


def h4(R, p=(0, 0, 0)):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = p
    return T


def work(rec):
    import sympy as sp
    import ikbtbasics.pykinsym as pk
    import num
    rng = rec.rng

    def ang():
        return rng.choice(SPECIAL) if rng.random() < 0.35 else rng.uniform(-9, 9)

    def A(x):
        return np.array(x.tolist() if hasattr(x, "tolist") else x, dtype=float)

    def same(name, got, want, wit):
        rec.count("calls_" + name)
        try:
            g = A(got)
        except Exception as e:
            rec.violation("not-numeric:" + name, dict(wit, got=str(got)[:300]))
            return
        want = np.array(want, dtype=float)
        if g.shape != want.shape:
            rec.violation("shape:" + name, dict(wit, got=list(g.shape), want=list(want.shape)))
        elif not np.all(np.abs(g - want) <= TOL * (1 + np.abs(want))):
            rec.violation("wrong:" + name, dict(wit, got=g.tolist(), want=want.tolist()))

    def rigid():
        R = Rz(ang()) @ Ry(ang()) @ Rx(ang())
        return h4(R, [rng.choice([0, 1, -1, rng.uniform(-50, 50)]) for _ in range(3)])

    t, r, p, y = sp.symbols("t r p y")
    sal, sa, sd, sth = sp.symbols("al a d th")
    vx, vy, vz = sp.symbols("vx vy vz")
    # symbolic results are evaluated numerically below
    SYM = {}
    try:
        SYM = {n: getattr(pk, n + "_S")(t) for n in ("RotX", "RotY", "RotZ", "RotX4", "RotY4", "RotZ4")}
        SYM["RPY3"], SYM["RPY4"] = pk.RPY3_S(r, p, y), pk.RPY4_S(r, p, y)
        SYM["Link"] = pk.Link_S(sal, sa, sd, sth)
        SYM["Trans4"] = pk.Trans4_S([vx, vy, vz])
    except Exception as e:
        rec.violation("raised:symbolic", dict(error=repr(e)))

    def call(name, f, wit):
        try:
            return f()
        except Exception as e:
            rec.violation(f"raised:{name}:{type(e).__name__}", dict(wit, error=repr(e)))
            return None

    n = 4000 if rec.thorough else 500
    for i in range(n):
        if rec.over():
            break
        a, b, c = ang(), ang(), ang()
        wit = dict(args=[a, b, c])
        rec.ev(f"rot {a} {b} {c}", sample=f"rotation utilities at angles {a}, {b}, {c}")
        for nm, f in (("RotX", Rx), ("RotY", Ry), ("RotZ", Rz)):
            for suffix, want in (("", f(a)), ("4", h4(f(a)))):
                g = call(nm + suffix + "_N", lambda: getattr(pk, nm + suffix + "_N")(a), wit)
                if g is not None:
                    same(nm + suffix + "_N", g, want, wit)
                if nm + suffix in SYM:
                    same(nm + suffix + "_S", np.array(SYM[nm + suffix].subs(t, a).evalf().tolist(), dtype=float), want, wit) if i % 8 == 0 else None
        want = Rz(c) @ Ry(b) @ Rx(a)
        for nm, w in (("RPY3", want), ("RPY4", h4(want))):
            g = call(nm + "_N", lambda: getattr(pk, nm + "_N")(a, b, c), wit)
            if g is not None:
                same(nm + "_N", g, w, wit)
                M = A(g)[:3, :3]
                if M.shape == (3, 3) and (abs(M @ M.T - np.eye(3)).max() > 1e-9 or abs(np.linalg.det(M) - 1) > 1e-9):
                    rec.violation("not-a-rotation:" + nm, wit)
            if nm in SYM and i % 8 == 0:
                same(nm + "_S", np.array(SYM[nm].subs({r: a, p: b, y: c}).evalf().tolist(), dtype=float), w, wit)
        al, aa, d, th = a, rng.choice([0, rng.uniform(-9, 9)]), rng.choice([0, rng.uniform(-9, 9)]), b
        want = num.link(al, aa, d, th)
        g = call("Link_N", lambda: pk.Link_N(al, aa, d, th), wit)
        if g is not None:
            same("Link_N", g, want, dict(args=[al, aa, d, th]))
        if "Link" in SYM and i % 8 == 0:
            same("Link_S", np.array(SYM["Link"].subs({sal: al, sa: aa, sd: d, sth: th}).evalf().tolist(), dtype=float), want, dict(args=[al, aa, d, th]))
        # special symbolic arguments
        if i % 16 == 0:
            k, j = rng.randint(-4, 4), rng.randint(-4, 4)
            g = call("Link_S", lambda: pk.Link_S(k * sp.pi / 2, aa, d, j * sp.pi / 6), wit)
            if g is not None:
                same("Link_S", np.array(g.evalf().tolist(), dtype=float), num.link(k * math.pi / 2, aa, d, j * math.pi / 6), dict(args=[k, aa, d, j]))
        # translation
        v = [rng.choice([0, 1, rng.uniform(-1e3, 1e3)]) for _ in range(3)]
        for vv in (v, tuple(v), np.array(v)):
            g = call("Trans4_N", lambda: pk.Trans4_N(vv), dict(v=v))
            if g is not None:
                same("Trans4_N", g, h4(np.eye(3), v), dict(v=v))
        if "Trans4" in SYM and i % 16 == 0:
            same("Trans4_S", np.array(SYM["Trans4"].subs({vx: v[0], vy: v[1], vz: v[2]}).tolist(), dtype=float), h4(np.eye(3), v), dict(v=v))
        # inverse of a rigid transform
        T = rigid()
        keep = T.copy()
        for form in (T, np.matrix(T)):
            g = call("H_inv_N", lambda: pk.H_inv_N(form), dict(T=T.tolist()))
            if g is not None:
                same("H_inv_N", g, np.linalg.inv(T), dict(T=T.tolist()))
                same("H_inv_N twice", pk.H_inv_N(g), T, dict(T=T.tolist()))
        if not np.array_equal(keep, T):
            rec.violation("modifies-argument:H_inv_N", dict(T=keep.tolist()))
        if i % 8 == 0:
            g = call("H_inv_S", lambda: pk.H_inv_S(sp.Matrix(T.tolist())), dict(T=T.tolist()))
            if g is not None:
                same("H_inv_S", np.array(g.evalf().tolist(), dtype=float), np.linalg.inv(T), dict(T=T.tolist()))
        rec.ev("T" + str(T[:3].tolist()), sample=f"inverse of {T.round(3).tolist()}")
        # angle wrapping
        x = rng.choice(SPECIAL + [rng.uniform(-50, 50), rng.uniform(-1e4, 1e4)]) + rng.choice([0, 0, 1e-12])
        w = call("wrap_angle_N", lambda: pk.wrap_angle_N(x), dict(x=x))
        if w is not None:
            rec.count("calls_wrap_angle_N")
            w = float(w)
            if not (-math.pi - 1e-9 <= w <= math.pi + 1e-9) or abs(math.sin(w) - math.sin(x)) > 1e-8 or abs(math.cos(w) - math.cos(x)) > 1e-8:
                rec.violation("wrong:wrap_angle_N", dict(x=x, got=w))
        rec.ev(f"wrap {x}")
        # degree conversion and approximate equality
        if abs(pk.deg * 180 - math.pi) > 1e-9 or abs(pk.deg * pk.rad2deg - 1) > 1e-12:
            rec.violation("wrong:deg", dict(deg=float(pk.deg), rad2deg=float(pk.rad2deg)))
        b_ = rng.choice([0.0, 1.0, -3.0, 1e6, rng.uniform(-5, 5)])
        k = rng.choice([0, 0.3, 0.9, 1.1, 3, 50])
        thr = max(0.001 * abs(b_), 1e-5)
        a_ = b_ - math.copysign(1, b_) * k * thr       # not larger in size than b_, so that the threshold is thr
        if abs(a_) <= abs(b_) or thr == 1e-5:
            for u, v_ in ((a_, b_), (b_, a_)):
                got = call("approx_N", lambda: pk.approx_N(u, v_, False), dict(a=u, b=v_))
                rec.count("calls_approx_N")
                if bool(got) != (k < 1):
                    rec.violation("wrong:approx_N", dict(a=u, b=v_, got=str(got)))
    # fully symbolic identities
    al1, a1, d1, th1, al2, th2 = sp.symbols("al1 a1 d1 th1 al2 th2")
    for _ in range(4):
        with rec.guard(60):
            T = pk.Link_S(al1, a1, d1, th1)
            if rng.random() < 0.7:
                T = T * pk.Link_S(rng.choice([0, sp.pi / 2, -sp.pi / 2, al2]), sp.Symbol("l_1"), sp.Symbol("d_2"), th2)
            I = pk.H_inv_S(T)
            for X in (I * T, T * I):
                f = sp.lambdify(sorted(X.free_symbols, key=str), X, "numpy")
                for _ in range(5):
                    v = [rng.uniform(-4, 4) for _ in X.free_symbols]
                    if abs(np.array(f(*v), dtype=float) - np.eye(4)).max() > 1e-9:
                        rec.violation("wrong:H_inv_S", dict(T=str(T)))
                    rec.count("symbolic_inverse_evaluations")
    # exact arguments (multiples of pi/6 and pi/4, which sympy evaluates at once), alone and in products with translations
    exact = [k * sp.pi / 2 for k in range(-4, 5)] + [k * sp.pi / q for q in (3, 4, 6) for k in range(-7, 8)]
    l1, l2 = sp.symbols("l_1 l_2")
    ref = dict(RotX=Rx, RotY=Ry, RotZ=Rz)

    def f8(M, vals):
        return np.array(sp.Matrix(M).subs(vals).evalf().tolist(), dtype=float)

    for i in range(600 if rec.thorough else 60):
        if rec.over():
            break
        vals = {l1: rng.uniform(-3, 3), l2: rng.uniform(-3, 3), th1: rng.uniform(-4, 4), th2: rng.uniform(-4, 4)}
        T, N, parts = sp.eye(4), np.eye(4), []
        for _ in range(rng.choice([1, 1, 2, 3])):
            nm, q = rng.choice(["RotX", "RotY", "RotZ", "Link", "Trans", "RPY"]), [rng.choice(exact) for _ in range(3)]
            if rng.random() < 0.2:
                q[rng.randrange(3)] = rng.choice([th1, th2])
            ln = [rng.choice([0, 0, 1, -2, l1, l2]) for _ in range(3)]
            nq, nl = [float(sp.sympify(x).subs(vals)) for x in q], [float(sp.sympify(x).subs(vals)) for x in ln]
            parts.append((nm, str(q), str(ln)))
            wit = dict(parts=parts)
            if nm in ref:
                g, w = call(nm + "4_S", lambda: getattr(pk, nm + "4_S")(q[0]), wit), h4(ref[nm](nq[0]))
                g3 = call(nm + "_S", lambda: getattr(pk, nm + "_S")(q[0]), wit)
                if g3 is not None:
                    same(nm + "_S", f8(g3, vals), ref[nm](nq[0]), wit)
            elif nm == "Link":
                g, w = call("Link_S", lambda: pk.Link_S(q[0], ln[0], ln[1], q[1]), wit), num.link(nq[0], nl[0], nl[1], nq[1])
            elif nm == "Trans":
                g, w = call("Trans4_S", lambda: pk.Trans4_S(ln), wit), h4(np.eye(3), nl)
            else:
                g, w = call("RPY4_S", lambda: pk.RPY4_S(*q), wit), h4(Rz(nq[2]) @ Ry(nq[1]) @ Rx(nq[0]))
            if g is None:
                break
            same(nm + "_S exact", f8(g, vals), w, wit)
            T, N = T * g, N @ w
            if rng.random() < 0.5:
                T, N = T * sp.Matrix(4, 4, lambda i, j: 1 if i == j else (ln[i] if j == 3 and i < 3 else 0)), N @ h4(np.eye(3), nl)
        keep = sp.Matrix(T)
        for form in (sp.Matrix(T), sp.ImmutableMatrix(T)):
            I = call("H_inv_S", lambda: pk.H_inv_S(form), wit)
            if I is not None:
                same("H_inv_S exact", f8(I, vals), np.linalg.inv(N), dict(wit, T=str(T.tolist())))
            if sp.Matrix(form) != keep:
                rec.violation("modifies-argument:H_inv_S", wit)
        rec.ev("exact " + str(parts), sample=f"exact transform {parts} and its inverse")
    # Jacobian of velocities with respect to joint rates
    qd = sp.symbols("qd_1:7")
    for _ in range(60 if rec.thorough else 15):
        m = rng.choice([2, 3, 5, 6])
        V = sp.Matrix([sum(rng.randint(-3, 3) * rng.choice([1, sp.sin(th1), sp.Symbol("l_2") * sp.cos(th2)]) * q for q in qd[:m]) for _ in range(3)])
        W = sp.Matrix([sum(rng.randint(-3, 3) * rng.choice([1, sp.cos(th1)]) * q for q in qd[:m]) for _ in range(3)])
        J = call("ManipJacobian_S", lambda: pk.ManipJacobian_S(V, W, sp.Matrix(qd[:m])), dict(v=str(V)))
        if J is None:
            continue
        if J.shape != (6, m):
            rec.violation("shape:ManipJacobian_S", dict(shape=list(J.shape), rates=m))
            continue
        back = (J * sp.Matrix(qd[:m]) - V.col_join(W)).expand()
        rec.count("calls_ManipJacobian_S")
        if any(x != 0 for x in back) or any(x.has(*qd) for x in J):
            rec.violation("wrong:ManipJacobian_S", dict(v=str(V), w=str(W), J=str(J)))
    # the numeric check accepts numeric matrices and refuses symbolic ones
    for _ in range(30):
        M = sp.Matrix(4, 4, lambda i, j: rng.choice([sp.Float(rng.uniform(-2, 2)), sp.Integer(rng.choice([-1, 0, 1, 5]))]))
        bad = rng.random() < 0.5
        if bad:
            M[rng.randrange(4), rng.randrange(4)] = rng.choice([sp.Symbol("q"), sp.sin(sp.Symbol("q")), sp.Symbol("q") + 1.5])
        try:
            pk.Num_check(M)
            refused = False
        except SystemExit:
            refused = True
        rec.count("calls_Num_check")
        if refused != bad:
            rec.violation("wrong:Num_check", dict(matrix=str(M.tolist()), refused=refused))


if __name__ == "__main__":
    chk = vk.Check("C23", rule="one evaluation = all utilities called for one argument (angles incl. multiples of pi/2 and huge ones; rigid transforms) and compared "
                   "with an independent numpy computation; distinct = different arguments")
    vk.fuzz(chk, __file__, budget=300 if vk.THOROUGH else 45)
    chk.finish(minimum=3000, need={"calls_H_inv_N": 1000, "calls_wrap_angle_N": 1000, "calls_RPY4_N": 1000, "symbolic_inverse_evaluations": 50, "calls_H_inv_S exact": 300})
