import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib"); sys.path.insert(0, __file__.rsplit("/", 1)[0])
"""C31: what behaviour-tree nodes record about themselves (tick and success counters, per-state statistics, success probability,
utility, costs, the running total of costs, the log file), in random trees and tick histories, against an independent account."""
import itertools
import random
import time as _time

import vk
from c18 import S, F, R, E, NAMES, Model, rand_tree, leaves, kinds


class Account(Model):
    """The model of C18, which also keeps books."""

    def __init__(self, desc, clock, leafcost, leafstate, name):
        super().__init__(desc, clock)
        self.leafcost, self.leafstate, self.name = leafcost, leafstate, name
        self.n, self.ok, self.cost, self.total = {}, {}, {}, 0
        self.ok_state, self.lines, self.entered = {}, [], 0
        self.flag = 0
        self.running = []
        self.stack = []

    def execute(self, d, path):
        self.entered += 1
        self.stack.append(path)
        r = super().execute(d, path)
        self.stack.pop()
        if r == R:
            self.running.append(path)
        return r

    def tick(self, d, path, st):
        self.n[path] = self.n.get(path, 0) + 1
        state = 0
        if d[0] == "leaf":
            k = self.n[path] - 1
            self.cost[path] = self.leafcost[d[1]][k % len(self.leafcost[d[1]])]
            state = self.leafstate[d[1]][k % len(self.leafstate[d[1]])]
        before = dict(self.n)
        r = super().tick(d, path, st)
        if d[0] in ("Sequence", "Priority", "OrNode"):
            self.cost[path] = sum(self.cost.get(path + (i,), 0) for i in range(len(d[1])) if self.n.get(path + (i,), 0) > before.get(path + (i,), 0))
        self.total += self.cost.get(path, 0)
        if r == S:
            self.ok[path] = self.ok.get(path, 0) + 1
            self.ok_state[path, state] = self.ok_state.get((path, state), 0) + 1
        if r == S and self.flag > 0:
            self.lines.append("S " + self.name(path))
        if r == F and self.flag > 1:
            self.lines.append("F " + self.name(path))
        return r


def work(rec):
    clock = [1000.0]
    _time.time = _time.monotonic = _time.perf_counter = lambda: clock[0]     # before b3 is imported
    import b3
    rng = rec.rng

    class Leaf(b3.Action):
        def __init__(self, results, costs, states):
            super().__init__()
            self.results, self.costs, self.states, self.k = results, costs, states, 0

        def tick(self, tick):
            self.Cost = self.costs[self.k % len(self.costs)]
            self.state = self.states[self.k % len(self.states)]
            self.N_ticks += 1
            self.N_tik2[self.state] += 1
            self.k += 1
            if not (tick.target is self.seen[0] and tick.blackboard is self.seen[1] and tick.tree is self.seen[2] and tick.debug is self.seen[3]):
                raise AssertionError("a leaf does not see the target, blackboard, tree and debug object of the tick")
            return next(self.results)

    class File:
        def __init__(self):
            self.text = ""

        def write(self, s):
            self.text += s

    def build(d, path, script, costs, states, nodes):
        k = d[0]
        if k == "leaf":
            node = Leaf(itertools.cycle(script[d[1]]), costs[d[1]], states[d[1]])
        elif k == "Wait":
            node = b3.Wait(d[2])
        elif len(d) == 1:
            node = getattr(b3, k)()
        elif isinstance(d[1], list):
            node = getattr(b3, k)([build(c, path + (i,), script, costs, states, nodes) for i, c in enumerate(d[1])])
        elif d[1] is None:
            node = getattr(b3, k)() if k == "Inverter" else getattr(b3, k)(None, d[2])
        else:
            c = build(d[1], path + (0,), script, costs, states, nodes)
            node = b3.Inverter(c) if k == "Inverter" else getattr(b3, k)(c, d[2])
        node.Name = "n" + "".join(map(str, path))
        nodes[path] = node
        return node

    def close(a, b):
        return abs(a - b) < 1e-12 * (1 + abs(b))

    def stats(node, n, ok, state, okst, tikst, cost, wit):
        """The derived figures of one node, in both modes."""
        p = ok / n if n else 0.1
        if not close(node.prob(), p):
            return rec.violation("probability", dict(wit, got=node.prob(), want=p))
        ps = [okst.get(s, 0) / tikst[s] if tikst[s] else 0.5 for s in range(4)]
        got = node.prob_state()
        if len(got) != 4 or not all(close(a, b) for a, b in zip(got, ps)):
            return rec.violation("probability-by-state", dict(wit, got=list(got), want=ps))
        for mode in ("RATIO", "NEG_COST"):
            node.Utility_Mode = mode
            for f, q in ((node.get_Utility, p), (node.get_Utility2, ps[state])):
                want = -q * cost if mode == "NEG_COST" else q / cost if cost > 0 else q
                u = f()
                rec.count("utilities_compared")
                if not close(u, want) or not close(node.Utility, want):
                    return rec.violation("utility:" + mode, dict(wit, got=u, attribute=node.Utility, want=want))
        node.Utility_Mode = "RATIO"
        return False

    def one(desc, script, costs, states, nticks, flags, resets):
        nodes = {}
        tree = b3.BehaviorTree()
        tree.root = build(desc, (), script, costs, states, nodes)
        bb = b3.Blackboard()
        tree.log_file = File()
        tree.debug = object()
        Leaf.seen = [object(), bb, tree, tree.debug]
        acc = Account(desc, lambda: clock[0], costs, states, lambda p: "n" + "".join(map(str, p)))
        mres = {l[1]: itertools.cycle(script[l[1]]) for l in leaves(desc)}
        base_n, base_ok, base_st, tik, tiks = {}, {}, {}, {}, {}
        wit0 = dict(tree=str(desc), leaf_results={str(k): [NAMES[x] for x in v] for k, v in script.items()}, costs=costs, states=states, log_flags=flags)
        if bb.get("TotalCost") != 0:
            return rec.violation("total-cost-start", dict(wit0, got=bb.get("TotalCost")))
        for t in range(nticks):
            clock[0] += 0.25
            tree.log_flag = acc.flag = flags[t]
            acc.entered, acc.running = 0, []
            n0 = dict(acc.n)
            want = acc.run(mres)
            got = tree.tick(Leaf.seen[0], bb)
            if got != want:
                return None                      # status: C18's subject
            wit = dict(wit0, tick=t)
            rec.count("tree_ticks")
            # leaves count their own trials, as user leaves do
            for path, node in nodes.items():
                n, ok = acc.n.get(path, 0) - base_n.get(path, 0), acc.ok.get(path, 0) - base_ok.get(path, 0)
                st = {s: acc.ok_state.get((path, s), 0) - base_st.get((path, s), 0) for s in range(4)}
                w = dict(wit, node=path, type=type(node).__name__)
                rec.count("nodes_compared")
                if node.N_ticks_all != n:
                    return rec.violation("tick-counter", dict(w, got=node.N_ticks_all, want=n))
                if node.N_success != ok:
                    return rec.violation("success-counter", dict(w, got=node.N_success, want=ok))
                if [node.N_suc2[s] for s in range(4)] != [st[s] for s in range(4)]:
                    return rec.violation("success-by-state", dict(w, got=list(node.N_suc2), want=st))
                if type(node).__name__ not in ("MemSequence", "MemPriority") and node.category != b3.DECORATOR and node.Cost != acc.cost.get(path, 0):
                    return rec.violation("node-cost:" + type(node).__name__, dict(w, got=node.Cost, want=acc.cost.get(path, 0)))
            if bb.get("TotalCost") != acc.total:
                return rec.violation("total-cost", dict(wit, got=bb.get("TotalCost"), want=acc.total))
            if tree.log_file.text.split("\n")[:-1] != acc.lines or (acc.lines and not tree.log_file.text.endswith("\n")):
                return rec.violation("log-file", dict(wit, got=tree.log_file.text[-200:], want=acc.lines[-10:]))
            rec.count("log_lines", len(acc.lines))
            if bb.get("node_count", tree.id) != acc.entered:
                return rec.violation("node-count", dict(wit, got=bb.get("node_count", tree.id), want=acc.entered))
            if tree.tick_count != t + 1:
                return rec.violation("tree-tick-count", dict(wit, got=tree.tick_count))
            if "MaxTime" not in kinds(desc):     # (a MaxTime which gives up leaves its child open)
                names = sorted(x.Name for x in bb.get("open_nodes", tree.id))
                if names != sorted("n" + "".join(map(str, p)) for p in acc.running):
                    return rec.violation("open-nodes", dict(wit, got=names, want=acc.running))
            for path, node in nodes.items():
                if isinstance(node, Leaf):
                    n = acc.n.get(path, 0) - base_n.get(path, 0)
                    tk = [0] * 4
                    seq = node.states
                    for k in range(base_n.get(path, 0), acc.n.get(path, 0)):
                        tk[seq[k % len(seq)]] += 1
                    st = {s: acc.ok_state.get((path, s), 0) - base_st.get((path, s), 0) for s in range(4)}
                    if stats(node, n, acc.ok.get(path, 0) - base_ok.get(path, 0), node.state, st, tk, node.Cost, dict(wit, node=path)):
                        return
                else:
                    ok = acc.ok.get(path, 0) - base_ok.get(path, 0)
                    if not close(node.prob(), 0.1):
                        return rec.violation("probability", dict(wit, node=path, got=node.prob(), want=0.1))
            if t in resets:
                for path, node in nodes.items():
                    if rng.random() < 0.5:
                        node.p_reset()
                        rec.count("resets")
                        base_n[path], base_ok[path] = acc.n.get(path, 0), acc.ok.get(path, 0)
                        for s in range(4):
                            base_st[path, s] = acc.ok_state.get((path, s), 0)
                        if node.N_ticks or node.N_ticks_all or node.N_success or node.Ps or any(node.N_tik2) or any(node.N_suc2):
                            return rec.violation("reset", dict(wit, node=path))
                        if not close(node.prob(), 0.1) or not all(close(x, 0.5) for x in node.prob_state()):
                            return rec.violation("reset-probability", dict(wit, node=path))

    def blackboard():
        bb = b3.Blackboard()
        vals = {}
        for _ in range(rng.randint(1, 15)):
            sc = rng.choice([(), ("t1",), ("t2",), ("t1", "n1"), ("t1", "n2"), ("t2", "n1")])
            k = rng.choice(["a", "b", "c"])
            if (sc, k) not in vals or rng.random() < 0.3:
                vals[sc, k] = rng.randint(-5, 5)
                bb.set(k, vals[sc, k], *sc)
            else:
                d = rng.randint(-3, 9)
                vals[sc, k] += d
                bb.inc(k, d, *sc)
                rec.count("increments")
            for (s2, k2), v in vals.items():
                if bb.get(k2, *s2) != v:
                    return rec.violation("increment", dict(scope=s2, key=k2, got=bb.get(k2, *s2), want=v))

    for _ in range(8000 if rec.thorough else 900):
        if rec.over():
            break
        desc = rand_tree(rng, rng.choice([1, 2, 2, 3, 4]), itertools.count(), True)
        script, costs, states = {}, {}, {}
        for l in leaves(desc):
            alpha = rng.choice([[S, F], [S, F, R], [S, F, R, R], [S, F, R, E]]) if l[2] else [S, F]
            script[l[1]] = [rng.choice(alpha) for _ in range(rng.randint(1, 6))]
            costs[l[1]] = [rng.choice([0, 0, 1, 2, 5, 7, 100]) for _ in range(rng.choice([1, 1, 3]))]
            states[l[1]] = [rng.randint(0, 3) for _ in range(rng.choice([1, 2, 5]))]
        nt = rng.randint(2, 9)
        flags = [rng.choice([0, 1, 2])] * nt if rng.random() < 0.7 else [rng.choice([0, 1, 2]) for _ in range(nt)]
        try:
            with rec.guard(15, hang=("tick-does-not-return", dict(tree=str(desc), script=str(script)))):
                one(desc, script, costs, states, nt, flags, {t for t in range(nt) if rng.random() < 0.15})
                blackboard()
        except Exception as e:
            import traceback
            rec.violation("raised:" + type(e).__name__, dict(tree=str(desc), script=str(script), error=traceback.format_exc()[-800:]))
        rec.ev(str(desc) + str(script) + str(costs) + str(states), sample=f"{desc} with leaf results {script}, costs {costs}")


if __name__ == "__main__":
    chk = vk.Check("C31", rule="one evaluation = one tree of real b3 nodes ticked several times, with every node's counters, statistics, costs and the "
                   "log compared with an independent account after every tick; distinct = different (tree, leaf scripts, costs, states)")
    vk.fuzz(chk, __file__, budget=300 if vk.THOROUGH else 30)
    chk.assumptions.append("memory composites and decorators have no cost of their own (what they report is not judged); children of an or-node return only "
                           "SUCCESS or FAILURE; the list of open nodes is not judged in trees with a time limit")
    chk.finish(minimum=2000, need=dict(tree_ticks=5000, nodes_compared=20000, log_lines=1000, resets=100, increments=500))
