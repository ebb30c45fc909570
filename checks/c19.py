import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
"""C19: dump/load round trips of random trees (structure and behaviour), and random histories of blackboard operations
against a model with one dictionary per scope."""
import itertools
import json

import vk

S, F, R, E = 1, 2, 3, 4
COMP = ["Sequence", "Priority", "MemSequence", "MemPriority", "OrNode"]
DECO = ["Inverter", "Repeater", "RepeatUntilFailure", "RepeatUntilSuccess"]


def work(rec):
    import b3
    rng = rec.rng
    PARAM = {"Repeater": "max_loop", "RepeatUntilFailure": "max_loop", "RepeatUntilSuccess": "max_loop", "Limiter": "max_loop", "MaxTime": "max_time", "Wait": "end_time"}
    script = {}
    log = []

    class ScriptLeaf(b3.Action):          # a user's own node class
        def __init__(self):
            super().__init__()

        def tick(self, tick):
            key = self.properties["key"]
            log.append(key)
            it = script[key]
            return next(it)

    class OtherLeaf(ScriptLeaf):
        pass

    class Cond(b3.Condition):
        def tick(self, tick):
            log.append(self.properties["key"])
            return next(script[self.properties["key"]])

    CUSTOM = {"ScriptLeaf": ScriptLeaf, "OtherLeaf": OtherLeaf, "Cond": Cond}

    def decorate(node, key):
        node.properties = {"key": key}
        if rng.random() < 0.4:
            node.title = rng.choice(["node", "Größe", "a \"b\"", "x" * 40, "0"]) + str(key)
        if rng.random() < 0.4:
            node.description = rng.choice(["does things", "", "line\nline", "éé"])
        if rng.random() < 0.3:
            node.properties["extra"] = rng.choice([1, "s", [1, 2], {"a": None}, 0.5, False])
        return node

    def build(depth, cnt, limited):
        k = next(cnt)
        x = rng.random()
        if depth == 0 or x < 0.25:
            c = rng.choice(list(CUSTOM) + ["Succeeder", "Failer", "Runner", "Error"])
            if rng.random() < 0.1:
                return decorate(b3.Wait(rng.choice([0, 1500, 10 ** 9])), k)
            return decorate(CUSTOM[c]() if c in CUSTOM else getattr(b3, c)(), k)
        if x < 0.75:
            return decorate(getattr(b3, rng.choice(COMP))([build(depth - 1, cnt, limited) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]), k)
        d = rng.choice(DECO + (["Limiter", "MaxTime"] if limited else []))
        child = build(depth - 1, cnt, limited)
        if d == "Inverter":
            return decorate(b3.Inverter(child), k)
        if limited:
            return decorate(getattr(b3, d)(child, rng.choice([1, 2, 3, 5])), k)
        return decorate(getattr(b3, d)(child), k)

    def shape(n, params):
        d = dict(type=type(n).__name__, title=n.title, description=n.description, properties=n.properties, category=n.category, id=n.id)
        if params and type(n).__name__ in PARAM:
            d["param"] = getattr(n, PARAM[type(n).__name__], None)
        if n.category == b3.COMPOSITE:
            d["children"] = [shape(c, params) for c in n.children]
        if n.category == b3.DECORATOR:
            d["child"] = shape(n.child, params) if n.child else None
        return d

    def nodes(n):
        out = [n]
        if n.category == b3.COMPOSITE:
            for c in n.children:
                out += nodes(c)
        elif n.category == b3.DECORATOR and n.child:
            out += nodes(n.child)
        return out

    def diff(a, b, path=""):
        if isinstance(a, dict) and isinstance(b, dict) and "type" in a and "type" in b:
            for k in a:
                if k in ("children", "child"):
                    continue
                if a[k] != b.get(k):
                    return f"{path}/{k}", a[k], b.get(k)
            ca, cb = a.get("children", []), b.get("children", [])
            if len(ca) != len(cb):
                return path + "/number of children", len(ca), len(cb)
            for i, (x, y) in enumerate(zip(ca, cb)):
                r = diff(x, y, path + f"/{i}")
                if r:
                    return r
            if "child" in a and a["child"] is not None:
                return diff(a["child"], b.get("child"), path + "/child")
        elif a != b:
            return path, a, b

    def play(tree, hist, nticks):
        """The statuses and leaf ticks of nticks ticks; leaves get fresh copies of their scripts. Endless repeaters are
        cut off by an exception after 60 leaf ticks in one tick of the tree."""
        class Enough(Exception):
            pass

        script.clear()
        cnt = [0]

        def stream(vals):
            for v in itertools.cycle(vals):
                cnt[0] += 1
                if cnt[0] > 60:
                    raise Enough()
                yield v
        for n in nodes(tree.root):
            key = n.properties.get("key") if isinstance(n.properties, dict) else None
            if key is not None:
                script[key] = stream(hist[key % len(hist)])
        bb = b3.Blackboard()
        out = []
        for _ in range(nticks):
            cnt[0] = 0
            log.clear()
            try:
                r = tree.tick(None, bb)
            except Enough:
                r = "endless"
            except StopIteration:
                r = "script ended"
            out.append((r, list(log)[:40]))
            if r in ("endless", "script ended"):
                break
        return out

    # a repeater over a child that never ends it, without any leaf of ours: avoid (would really loop for ever)
    def loops_forever(n):
        if type(n).__name__ in ("Repeater", "RepeatUntilFailure", "RepeatUntilSuccess") and getattr(n, "max_loop", -1) < 0:
            return not any(type(x).__name__ in CUSTOM for x in nodes(n)) or any(type(x).__name__ in ("Succeeder", "Failer", "Wait") for x in nodes(n)) \
                or any(x.category == b3.COMPOSITE and not x.children for x in nodes(n))
        return False

    N = 4000 if rec.thorough else 500
    for i in range(N):
        if rec.over():
            break
        tree = b3.BehaviorTree()
        tree.title = rng.choice(["tree", "T 2", "Behavior3"])
        tree.description = rng.choice(["", "a tree", "x\ny"])
        tree.properties = rng.choice([{}, {"a": 1}, {"deep": {"x": [1, 2]}}])
        tree.root = build(rng.choice([0, 1, 2, 3, 4]), itertools.count(), rng.random() < 0.6)
        try:
            with rec.guard(20, hang=("does-not-return", dict(tree=str(shape(tree.root, True))[:2000]))):
                before = shape(tree.root, True)
                data = tree.dump()
                if shape(tree.root, True) != before:
                    rec.violation("dump-modifies-tree", dict(tree=before))
                text = json.dumps(data)            # "saved": through a file
                t2 = b3.BehaviorTree()
                t2.load(json.loads(text), CUSTOM)
                after = shape(t2.root, True) if t2.root is not None else None
                rec.ev(json.dumps(before, sort_keys=True, default=str), sample=str(before)[:300])
                rec.count("trees_round_tripped")
                rec.count("nodes_round_tripped", len(nodes(tree.root)))
                d = diff(before, after)
                if d:
                    rec.violation("reloaded-tree-differs:" + d[0].rsplit("/", 1)[-1].strip("0123456789") , dict(where=d[0], saved=d[1], reloaded=d[2], tree=before))
                for a in ("title", "description", "properties"):
                    if getattr(t2, a) != getattr(tree, a):
                        rec.violation("reloaded-tree-differs:tree-" + a, dict(saved=getattr(tree, a), reloaded=getattr(t2, a)))
                custom = {type(n).__name__ for n in nodes(tree.root)} & set(CUSTOM)
                listed = [c["name"] for c in data["custom_nodes"]]
                if sorted(listed) != sorted(custom):
                    rec.violation("custom-nodes-list", dict(listed=listed, used=sorted(custom)))
                again = t2.dump()
                if json.loads(json.dumps(again)) .get("nodes") != json.loads(text)["nodes"]:
                    rec.violation("second-dump-differs", dict(tree=before))
                if not d and not any(loops_forever(n) for n in nodes(tree.root)):
                    hist = [[rng.choice([S, F, S, F, R, E]) for _ in range(rng.randint(2, 6))] for _ in range(7)]
                    a = play(tree, hist, 5)
                    b = play(t2, hist, 5)
                    rec.count("histories_compared")
                    if a != b:
                        rec.violation("reloaded-tree-behaves-differently", dict(tree=before, history=hist, original=a, reloaded=b))
        except Exception as e:
            import traceback
            rec.violation("round-trip-raised:" + type(e).__name__, dict(error=traceback.format_exc()[-1000:]))
    # a tree loaded into an object that already has a tree, and an empty tree
    with rec.guard(20, hang=("does-not-return", {})):
        t = b3.BehaviorTree()
        d = t.dump()
        t3 = b3.BehaviorTree()
        t3.load(d)
        if t3.root is not None:
            rec.violation("empty-tree", dict(root=str(t3.root)))
        t.root = b3.Succeeder()
        t3.load(t.dump())
        t.root = b3.Sequence([b3.Failer()])
        t3.load(t.dump())
        if type(t3.root).__name__ != "Sequence" or len(t3.root.children) != 1:
            rec.violation("load-over-existing-tree", dict(root=str(t3.root)))
        try:
            t3.load({"title": "", "description": "", "properties": {}, "root": "1", "nodes": {"1": dict(id="1", name="NoSuchNode", title="", description="", properties={})}})
            rec.violation("unknown-node-type-accepted", {})
        except AttributeError as e:
            if "NoSuchNode" not in str(e):
                rec.violation("unknown-node-type-message", dict(error=str(e)))
    # parameters of repeating/limiting decorators are part of the behaviour
    for d in ("Repeater", "RepeatUntilFailure", "RepeatUntilSuccess", "Limiter", "MaxTime"):
        t = b3.BehaviorTree()
        t.root = getattr(b3, d)(b3.Failer(), 3)
        try:
            t2 = b3.BehaviorTree()
            t2.load(t.dump())
            got = getattr(t2.root, PARAM[d])
        except Exception as e:
            got = repr(e)
        if got != 3:
            rec.violation("parameter-not-saved:" + d, dict(decorator=d, saved=3, reloaded=got))
        rec.count("decorator_parameters_round_tripped")

    # ---------------------------------------------------------------- blackboard
    for i in range(3000 if rec.thorough else 400):
        if rec.over():
            break
        bb = b3.Blackboard()
        model = {(None, None): {"TotalCost": 0}}
        keys = ["a", "b", "curr_unk", "is_open", "i", "k" + str(rng.randint(0, 3))]
        trees = [None, "t1", "t2", "n1", "", 0]
        nds = [None, "n1", "n2", "t1", "is_open", "", 0]
        ops = []
        try:
            for _ in range(rng.randint(5, 60)):
                t, n, k = rng.choice(trees), rng.choice(nds), rng.choice(keys)
                sc = (t, n if t is not None else None)      # a node scope needs a tree scope
                if t is None:
                    n = None
                op = rng.choice(["set", "set", "get", "get", "get", "inc"])
                cell = model.setdefault(sc, {})
                if op == "set":
                    v = rng.choice([0, 1, 7, None, False, "", "x", [1], {"q": 1}, 2.5])
                    ops.append((op, k, v, t, n))
                    bb.set(k, v, t, n) if n is not None else (bb.set(k, v, t) if t is not None else bb.set(k, v))
                    cell[k] = v
                elif op == "inc":
                    if type(cell.get(k)) is not int:
                        continue
                    v = rng.randint(-3, 9)
                    ops.append((op, k, v, t, n))
                    bb.inc(k, v, t, n)
                    cell[k] = cell[k] + v
                else:
                    ops.append((op, k, t, n))
                    got = bb.get(k, t, n) if n is not None else (bb.get(k, t) if t is not None else bb.get(k))
                    want = cell.get(k)
                    rec.count("blackboard_reads")
                    if type(got) is not type(want) or got != want or (isinstance(want, (list, dict)) and got is not want):
                        rec.violation("blackboard-scope", dict(operations=ops[-12:], got=repr(got), want=repr(want)))
                        break
            for (t, n), cell in model.items():      # finally every cell of every scope
                for k in keys:
                    got = bb.get(k, t, n)
                    rec.count("blackboard_reads")
                    if got is not cell.get(k) and got != cell.get(k):
                        rec.violation("blackboard-scope-at-end", dict(scope=[t, n], key=k, got=repr(got), want=repr(cell.get(k)), operations=ops[-12:]))
        except Exception as e:
            rec.violation("blackboard-raised:" + type(e).__name__, dict(operations=ops[-12:], error=repr(e)))
        rec.ev("bb" + str(ops), sample="blackboard operations " + str(ops[:6]))
        rec.count("blackboard_histories")


if __name__ == "__main__":
    chk = vk.Check("C19", rule="one evaluation = one random tree dumped to JSON, loaded and compared (types, order, titles, descriptions, properties, behaviour under a "
                   "random child-status history), or one random history of blackboard operations against a per-scope model; distinct = different trees/histories")
    vk.fuzz(chk, __file__, budget=300 if vk.THOROUGH else 40)
    chk.finish(minimum=3000, need=dict(histories_compared=500, blackboard_reads=5000))
