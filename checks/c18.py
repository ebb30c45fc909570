import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C18: random trees of the real b3 nodes over scripted leaves; every tick is compared with an independent model of the
node types (returned status, order of leaf ticks, enter/open/tick/close/exit callbacks of every node)."""
import itertools
import random
import time as _time

import vk

S, F, R, E = 1, 2, 3, 4
NAMES = {1: "SUCCESS", 2: "FAILURE", 3: "RUNNING", 4: "ERROR"}


# ------------------------------------------------------------------ model (no code of the repository)
class Model:
    """A tree description: ("leaf", n) | (kind, [children]) | (deco, child, parameter)"""

    def __init__(self, desc, clock):
        self.desc, self.clock = desc, clock
        self.state = {}        # path -> dict(open=bool, ...)
        self.log = []

    def run(self, results):
        self.results = results       # leaf number -> iterator of statuses
        self.log = []
        return self.execute(self.desc, ())

    def execute(self, d, path):
        st = self.state.setdefault(path, dict(open=False))
        name = d[1] if d[0] == "leaf" else path
        self.log.append(("enter", path))
        if not st["open"]:
            st["open"] = True
            self.log.append(("open", path))
            st["idx"], st["i"] = 0, 0
            st["t0"] = self.clock() if d[0] in ("MaxTime", "Wait") else None
        self.log.append(("tick", path))
        r = self.tick(d, path, st)
        if r != R:
            st["open"] = False
            self.log.append(("close", path))
        self.log.append(("exit", path))
        return r

    def tick(self, d, path, st):
        k = d[0]
        if k == "leaf":
            return next(self.results[d[1]])
        if k == "Succeeder":
            return S
        if k == "Failer":
            return F
        if k == "Runner":
            return R
        if k == "Error":
            return E
        if k == "Wait":
            return S if self.clock() - st["t0"] > d[2] / 1000. else R
        if k in ("Sequence", "Priority", "MemSequence", "MemPriority"):
            go_on = S if "Sequence" in k else F
            i0 = st["idx"] if k.startswith("Mem") else 0
            for i in range(i0, len(d[1])):
                r = self.execute(d[1][i], path + (i,))
                if r != go_on:
                    if r == R and k.startswith("Mem"):
                        st["idx"] = i
                    return r
            return go_on
        if k == "OrNode":
            r = F
            for i, c in enumerate(d[1]):
                if self.execute(c, path + (i,)) == S:
                    r = S
            return r
        # decorators
        if d[1] is None:
            return E
        run = lambda: self.execute(d[1], path + (0,))
        if k == "Inverter":
            r = run()
            return {S: F, F: S}.get(r, r)
        if k == "Limiter":
            if st["i"] < d[2]:
                r = run()
                if r in (S, F):
                    st["i"] += 1
                return r
            return F
        if k == "MaxTime":
            now = self.clock()
            r = run()
            return F if now - st["t0"] > d[2] else r
        r = S if k == "Repeater" else E
        again = {"Repeater": (S, F), "RepeatUntilFailure": (S,), "RepeatUntilSuccess": (F,)}[k]
        while d[2] < 0 or st["i"] < d[2]:
            r = run()
            if r not in again:
                break
            st["i"] += 1
        return r


COMP = ["Sequence", "Priority", "MemSequence", "MemPriority", "OrNode"]
LOOPS = ["Repeater", "RepeatUntilFailure", "RepeatUntilSuccess"]


def rand_tree(rng, depth, counter, running_ok):
    """Below an OrNode no child may return RUNNING or ERROR (what the or-node does then is not specified)."""
    x = rng.random()
    if depth == 0 or x < 0.25:
        n = next(counter)
        y = rng.random()
        if y < 0.08:
            return (rng.choice(["Succeeder", "Failer"] + (["Runner", "Error"] if running_ok else [])),)
        if y < 0.12 and running_ok:
            return ("Wait", None, rng.choice([0, 1000, 2500]))
        return ("leaf", n, running_ok)
    if x < 0.72:
        k = rng.choice(COMP)
        n = rng.choice([0, 1, 2, 2, 3, 3, 4])
        return (k, [rand_tree(rng, depth - 1, counter, running_ok and k != "OrNode") for _ in range(n)])
    k = rng.choice(LOOPS + ["Inverter", "Limiter", "MaxTime"])
    if k == "RepeatUntilSuccess" or k == "RepeatUntilFailure":
        p = rng.choice([0, 1, 2, 3, 6] if running_ok else [1, 2, 3])     # 0 loops = ERROR
    elif k == "MaxTime":
        p = rng.choice([0, 0.5, 1.5, 3])
    else:
        p = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.03 and running_ok and k in ("Inverter",):
        return (k, None, p)
    return (k, rand_tree(rng, depth - 1, counter, running_ok), p)


def leaves(d):
    if d[0] == "leaf":
        return [d]
    if len(d) == 1 or d[1] is None:
        return []
    if isinstance(d[1], list):
        return [x for c in d[1] for x in leaves(c)]
    return leaves(d[1])


def kinds(d):
    out = [d[0]]
    if len(d) > 1 and isinstance(d[1], list):
        for c in d[1]:
            out += kinds(c)
    elif len(d) > 1 and isinstance(d[1], tuple):
        out += kinds(d[1])
    return out


def small_trees():
    """Every composite with up to 3 leaves and every decorator over one leaf, for the exhaustive part."""
    for k in COMP:
        for n in range(0, 4):
            yield (k, [("leaf", i, k != "OrNode") for i in range(n)])
    for k in LOOPS + ["Limiter"]:
        for p in (0, 1, 2, 3):
            yield (k, ("leaf", 0, True), p)
    yield ("Inverter", ("leaf", 0, True), 0)
    for p in (0, 0.5, 1.5):
        yield ("MaxTime", ("leaf", 0, True), p)


def work(rec):
    clock = [1000.0]
    _time.time = _time.monotonic = _time.perf_counter = lambda: clock[0]     # before b3 is imported
    import b3

    class Leaf(b3.Action):
        def __init__(self, n, results, log):
            super().__init__()
            self.n, self.results, self.log = n, results, log

        def tick(self, tick):
            clock[0] += self.results[1].get(self.n, 0)
            return next(self.results[0][self.n])

    def hook(node, path, log):
        """Record the callbacks a user can override on every node."""
        for cb in ("enter", "open", "close", "exit"):
            orig = getattr(node, cb)

            def f(tick, orig=orig, cb=cb):
                log.append((cb, path))
                return orig(tick)
            setattr(node, cb, f)
        orig = node.tick

        def tick(t, orig=orig):
            log.append(("tick", path))
            return orig(t)
        node.tick = tick

    def build(d, path, res, log, allnodes):
        k = d[0]
        if k == "leaf":
            node = Leaf(d[1], res, log)
        elif k == "Wait":
            node = b3.Wait(d[2])
        elif len(d) == 1:
            node = getattr(b3, k)()
        elif isinstance(d[1], list):
            node = getattr(b3, k)([build(c, path + (i,), res, log, allnodes) for i, c in enumerate(d[1])])
        elif d[1] is None:
            node = getattr(b3, k)() if k == "Inverter" else getattr(b3, k)(None, d[2])
        else:
            c = build(d[1], path + (0,), res, log, allnodes)
            node = b3.Inverter(c) if k == "Inverter" else getattr(b3, k)(c, d[2])
        hook(node, path, log)
        allnodes.append((path, node))
        return node

    def one(desc, script, steps, nticks, share):
        """script: leaf -> list of statuses (cyclic); steps: leaf -> time used by one tick of the leaf"""
        log, allnodes = [], []
        res = [None, steps]
        tree = b3.BehaviorTree()
        tree.root = build(desc, (), res, log, allnodes)
        bb = b3.Blackboard()
        other = None
        if share:        # a second tree with its own state on the same blackboard, and the same tree on a second blackboard
            other = b3.BehaviorTree()
            olog, onodes = [], []
            ores = [{l[1]: itertools.cycle([R, S]) for l in leaves(desc)}, {}]
            other.root = build(desc, (), ores, olog, onodes)
        start = clock[0]
        model_clock = [start]
        mres = {l[1]: itertools.cycle(script[l[1]]) for l in leaves(desc)}
        model = Model(desc, lambda: model_clock[0])
        # the model's leaves advance the model clock
        orig_tick = model.tick

        def mtick(d, path, st):
            if d[0] == "leaf":
                model_clock[0] += steps.get(d[1], 0)
            return orig_tick(d, path, st)
        model.tick = mtick
        res[0] = {l[1]: itertools.cycle(script[l[1]]) for l in leaves(desc)}
        hist = []
        for t in range(nticks):
            clock[0] += 0.25
            model_clock[0] += 0.25
            log.clear()
            want = model.run(mres)
            got = tree.tick("target", bb)
            hist.append((NAMES.get(want), NAMES.get(got, got)))
            rec.count("tree_ticks")
            rec.count("callbacks_compared", len(log))
            wit = dict(tree=str(desc), leaf_results={str(k): [NAMES[x] for x in v] for k, v in script.items()}, leaf_times=steps, tick=t,
                       history=hist)
            if got != want:
                rec.violation("status:" + desc[0], dict(wit, got=NAMES.get(got, got), want=NAMES[want]))
                return
            if log != model.log:
                i = next((i for i, (a, b) in enumerate(itertools.zip_longest(log, model.log)) if a != b), 0)
                ga, wa = (log[i] if i < len(log) else None), (model.log[i] if i < len(model.log) else None)
                rec.violation("callbacks", dict(wit, position=i, got=ga, want=wa))
                return
            for path, node in allnodes:
                if node.N_ticks_all != sum(1 for x in model_total if x == path) + sum(1 for e, p in model.log if e == "tick" and p == path):
                    rec.violation("tick-counter", dict(wit, node=path, got=node.N_ticks_all))
                    return
            model_total.extend(p for e, p in model.log if e == "tick")
            if tree.tick_count != t + 1:
                rec.violation("tree-tick-counter", dict(wit, got=tree.tick_count))
                return
            if other is not None:
                other.tick("target", bb)
                if clock[0] != model_clock[0]:
                    clock[0] = model_clock[0]

    model_total = []

    def guarded(desc, script, steps, nticks, share=False):
        model_total.clear()
        try:
            with rec.guard(15, hang=("tick-does-not-return", dict(tree=str(desc), script=str(script)))):
                one(desc, script, steps, nticks, share)
        except Exception as e:
            import traceback
            rec.violation("raised:" + type(e).__name__, dict(tree=str(desc), script=str(script), error=traceback.format_exc()[-800:]))
        rec.ev(str(desc) + str(sorted(script.items())) + str(sorted(steps.items())), sample=f"{desc} with leaf results {script}")
        for k in set(kinds(desc)):
            rec.count("trees_with_" + k)

    # exhaustive: all status histories of small trees
    n = 0
    for desc in small_trees():
        ls = leaves(desc)
        per = 2 if len(ls) > 2 else 3 if len(ls) == 2 else (5 if rec.thorough else 4)
        alpha = [S, F, R, E] if not ls or ls[0][2] else [S, F]
        if len(ls) == 3 and not rec.thorough and len(alpha) == 4:
            alpha = [S, F, R]
        for combo in itertools.product(*[list(itertools.product(alpha, repeat=per)) for _ in ls]):
            n += 1
            if n % rec.nshards != rec.shard:
                continue
            if rec.over():
                break
            if desc[0] in ("RepeatUntilFailure", "RepeatUntilSuccess", "Repeater") and desc[2] < 0:
                continue
            guarded(desc, {l[1]: list(c) for l, c in zip(ls, combo)}, {0: 0.6} if desc[0] == "MaxTime" else {}, per + 1)
            rec.count("exhaustive_cases")
    # unlimited repetition, ended by the child
    for k, stop in (("Repeater", (R, E)), ("RepeatUntilFailure", (F, R, E)), ("RepeatUntilSuccess", (S, R, E))):
        cont = [x for x in (S, F) if x not in stop]
        for s in stop:
            for m in range(0, 6):
                if rec.over():
                    break
                guarded((k, ("leaf", 0, True), -1), {0: [rec.rng.choice(cont) for _ in range(m)] + [s]}, {}, 3)
    # random trees and histories
    for _ in range(6000 if rec.thorough else 700):
        if rec.over():
            break
        desc = rand_tree(rec.rng, rec.rng.choice([1, 2, 3, 3, 4]), itertools.count(), True)
        script, steps = {}, {}
        for l in leaves(desc):
            alpha = rec.rng.choice([[S, F], [S, F, R], [S, F, R, R], [S, F, R, E]]) if l[2] else [S, F]
            script[l[1]] = [rec.rng.choice(alpha) for _ in range(rec.rng.randint(1, 6))]
            if rec.rng.random() < 0.3:
                steps[l[1]] = rec.rng.choice([0.25, 0.5, 1.0])
        guarded(desc, script, steps, rec.rng.randint(2, 9), share=rec.rng.random() < 0.3)
        rec.count("random_trees")


if __name__ == "__main__":
    chk = vk.Check("C18", rule="one evaluation = one tree of real b3 nodes ticked several times over scripted leaves, with the status and the complete "
                   "callback log of every tick compared with an independent model; distinct = different (tree, leaf scripts)")
    vk.fuzz(chk, __file__, budget=400 if vk.THOROUGH else 40)
    chk.assumptions.append("children of an or-node return only SUCCESS or FAILURE (its reaction to RUNNING/ERROR is not specified); "
                           "a Limiter counts the calls of its child since it was opened")
    chk.finish(minimum=3000, need=dict(random_trees=1000, exhaustive_cases=1000))
