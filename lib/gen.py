"""Random arms (DH tables) for workloads which do not need the slow solver."""


def random_spec(rng, dof=None, twists=None, name="G", ntab=6, odd=False):
    dof = dof or rng.choice([2, 3, 3, 4, 4, 5, 6])
    twists = twists or ["0", "-pi/2", "pi/2", "pi/2", "-pi/2", "0", "pi"]
    L = 0
    dh, vv, unk, par, pv, n = [], [], [], [], {}, []

    def param():
        nonlocal L
        L += 1
        p = f"l_{L}"
        par.append(p)
        pv[p] = round(rng.uniform(0.3, 6), 2)
        return p

    npris = 0
    for i in range(dof):
        al = rng.choice(twists)
        if odd and rng.random() < (0.35 if dof <= 4 else 0.1):
            al = rng.choice(["pi/3", "-pi/4", "2*pi/3", "5*pi/6", "AL"])
            if al == "AL":
                al = f"al_{i}"
                par.append(al)
                pv[al] = round(rng.uniform(0.2, 1.4), 3)
        a = rng.choice([param, lambda: "0", lambda: "0"])() if i or rng.random() < 0.3 else "0"
        if a != "0" and rng.random() < 0.15:
            a = rng.choice(["-" + a, a + "/2", "2*" + a])
        if rng.random() < 0.25 and npris < 3:
            npris += 1
            dh.append([al, a, f"d_{i+1}", "0"])
            if rng.random() < 0.2:
                dh[-1][3] = rng.choice(["pi/2", "-pi/2", "pi"])
            vv.append(0)
            unk.append(f"d_{i+1}")
        else:
            d = param() if rng.random() < 0.4 else "0"
            if d != "0" and rng.random() < 0.15:
                d = "-" + d
            dh.append([al, a, d, f"th_{i+1}"])
            vv.append(1)
            unk.append(f"th_{i+1}")
        n.append(i + 1)
    for i in range(dof, 6):
        dh.append(["0", "0", "0", "0"])
        vv.append(rng.choice([0, 1]))
    return dict(dh=dh, vv=vv, unknowns=unk, params=par, pvals=pv, name=name, dof=dof)
