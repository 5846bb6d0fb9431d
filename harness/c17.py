"""C17 on real bi-nodes: an independent reading of the message protocol against the real methods."""
import numpy as np
import mdp
import bimdp
from bimdp import BiNode, BiNodeException, binode_coroutine
from .base import *

SEP = "->"
NAMES = ["a", "b", "c", "d", "e"]
IDS = ["n", "other", "n2", ""]


def rand_msg(rng, node_id, extra=(), magic=True):
    m = {}
    for _ in range(rng.randrange(0, 6)):
        name = rng.choice(NAMES + list(extra))
        kind = rng.choice(["plain", "plain", "own", "other"])
        if kind == "own":
            name = "%s%s%s" % (node_id, SEP, name) if node_id is not None else "None" + SEP + name
        elif kind == "other":
            name = rng.choice(["zz", "nn", "n2", "None"]) + SEP + name + rng.choice(["", "", SEP + "q"])
        elif rng.random() < .1:
            name = SEP + name
        m[name] = rng.choice([rng.randrange(100), None, "s%d" % rng.randrange(9), [1, 2]])
    if magic and rng.random() < .5:
        k = "target"
        m[k if node_id is None or rng.random() < .5 else node_id + SEP + k] = rng.choice([1, -1, 2, "n", None, 0])
    if magic and rng.random() < .2 and node_id is not None:
        m["target"] = rng.choice([3, "q"])
    items = list(m.items())
    rng.shuffle(items)
    return dict(items)


def split(msg, node_id):
    own, rest = {}, {}
    for k, v in msg.items():
        i = k.find(SEP)
        if i > 0 and k[:i] == node_id:
            own[k[i + len(SEP):]] = v
        else:
            rest[k] = v
    return own, rest


def magic(key, own, rest):
    if key in own:
        return own.pop(key)
    return rest.get(key)


def combine(result, msg, target):
    """what must come out: the own entries win, the rest is forwarded, own target wins"""
    if not isinstance(result, tuple):
        result = (result,)
    y = result[0]
    out = dict(msg or {})
    if len(result) > 1 and result[1]:
        out.update(result[1])
    t = result[2] if len(result) > 2 else target
    return y, out, t


def norm(result):
    """y, message, target of a returned value"""
    if not isinstance(result, tuple):
        return result, {}, None
    check(len(result) in (2, 3), "result of length %d", len(result))
    return result[0], dict(result[1] or {}), result[2] if len(result) == 3 else None


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and (a == b).all()
    return type(a) is type(b) and a == b


def make_method(rng, name, with_x=True):
    """a method with a random signature that records its arguments"""
    args = rng.sample(NAMES + ["target"], rng.randrange(0, 4))
    if rng.random() < .3:
        args.append("msg")
    nodefault = rng.randrange(0, len(args) + 1) if rng.random() < .2 else 0
    sig = [a if i < nodefault else a + "='<none>'" for i, a in enumerate(args)]
    head = ["self"] + (["x"] if with_x else [])
    src = "def %s(%s):\n    return self.got('%s', %s, %s)\n" % (
        name, ", ".join(head + sig), name, "x" if with_x else "None", "dict(%s)" % ", ".join("%s=%s" % (a, a) for a in args))
    ns = {}
    exec(src, ns)
    return ns[name], args, args[:nodefault]


def rand_result(rng, allow_none):
    y = rng.choice(["y", "y", None]) if allow_none else "y"
    msg = rng.choice([None, {}, {"a": "ra"}, {"b": "rb", "new": 5}, {"target": 9}])
    t = rng.choice([1, -1, "n", 4])
    return rng.choice([lambda: "y" if not allow_none else y, lambda: (y, msg), lambda: (y, msg, t)])()


class Base(BiNode):
    def got(self, name, x, args):
        self.calls.append((name, x, dict(args, msg=dict(args["msg"])) if isinstance(args.get("msg"), dict) else args))
        r = self.results[name]
        if self.edit_msg and isinstance(args.get("msg"), dict):
            args["msg"].pop("a", None)
            args["msg"]["edited"] = 1
            if isinstance(r, tuple) and len(r) > 1:
                r = (r[0], args["msg"]) + r[2:]
        self.returned = tuple(dict(q) if isinstance(q, dict) else q for q in r) if isinstance(r, tuple) else r
        return r


def build(rng, trainable=False, names=("_execute", "_inverse", "_other"), **kw):
    d, sigs = {}, {}
    for nm in names:
        f, args, req = make_method(rng, nm, with_x=nm != "_stop_training")
        d[nm] = f
        sigs[nm] = (args, req)
    if not trainable:
        d["is_trainable"] = staticmethod(lambda: False)
    cls = type("RandomBiNode", (Base,), d)
    node_id = rng.choice(["n", "n", "other", None])
    node = cls(node_id=node_id, input_dim=2, output_dim=2, **kw)
    node.calls = []
    node.edit_msg = rng.random() < .5
    node.results = {nm: rand_result(rng, nm in ("_train", "_stop_training")) for nm in names}
    return node, sigs, node_id


def expected_call(msg, node_id, sigs, default, names):
    """(method, args, rest, target, missing)"""
    own, rest = split(msg, node_id)
    target = magic("target", own, rest)
    mname = magic("method", own, rest)
    nm = "_" + mname if mname else default
    if mname == "inverse" and target is None:
        target = -1
    if nm not in names:
        return nm, None, None, None, None
    args, req = sigs[nm]
    got = {k: rest[k] for k in args if k in rest}
    got.update({k: own[k] for k in args if k in own})
    missing = [r for r in req if r not in got and r != "msg"]
    full = {k: got.get(k, "<none>") for k in args}
    out = rest
    if "msg" in args:
        full["msg"] = dict(rest)
        out = None
    return nm, full, out, target, missing


def run_case(rng, note, which):
    names = ("_execute", "_inverse", "_other", "_train", "_stop_training")
    node, sigs, node_id = build(rng, trainable=True, names=names)
    x = np.random.random((3, 2)) if rng.random() < .6 else None
    if which == "stop_training":
        x = None
    msg = rand_msg(rng, node_id)
    if rng.random() < .4:
        mname = rng.choice(["execute", "inverse", "other", "nothing", "input_dim", "node_id"] if which != "stop_training"
                           else ["stop_training", "stop_training", "nothing", "input_dim"])
        msg["method" if node_id is None or rng.random() < .5 else node_id + SEP + "method"] = mname
    default = {"execute": "_execute", "train": "_train", "stop_training": "_stop_training"}[which]
    before = dict(msg)
    note(which=which, msg=before, sigs=sigs, node_id=node_id, results=node.results, x=x is not None)
    node._train_phase_started = which == "stop_training"
    if which == "execute":
        node._training, node._train_phase = False, 1
    nm, args, rest, target, missing = expected_call(before, node_id, sigs, default, names)
    if which == "stop_training" and not msg:
        args = {a: "<none>" for a in sigs[nm][0]}
        missing = sigs[nm][1]
        rest, target = None, None
    if which == "train" and x is not None and nm == "_inverse":
        raise Skip()          # inverting ends the training of a node
    f = getattr(node, which)
    call = (lambda: f(msg)) if which == "stop_training" else (lambda: f(x, msg))
    if args is None:
        raises(BiNodeException, call)
        check(not node.calls, "nothing is called")
        return
    if missing or (not msg and which == "stop_training" and missing):
        raises((TypeError, BiNodeException), call)
        return
    result = call()
    check(len(node.calls) == 1 and node.calls[0][0] == nm, "method %s was called (%s)", nm, [c[0] for c in node.calls])
    check(same(node.calls[0][1], x), "data arrives")
    got = node.calls[0][2]
    check(same(args, got), "arguments: %s arrived, %s expected", got, args)
    raw = node.returned
    if which == "train" and raw is None:
        check(result is None, "None ends the training")
        return
    want = combine(raw, rest, target)
    if which == "train" and want[0] is None and want[2] is None:
        check(result is None, "a message without data and target is dropped: %s", result)
        return
    check(same(dict(zip("yma", want)), dict(zip("yma", norm(result)))), "result %s expected %s", result, want)


@scenario("execute with message", n=400, thorough=30)
def execute_msg(rng, note):
    run_case(rng, note, "execute")


@scenario("train with message", n=300, thorough=30)
def train_msg(rng, note):
    run_case(rng, note, "train")


@scenario("stop_training with message", n=200, thorough=30)
def stop_msg(rng, note):
    run_case(rng, note, "stop_training")


@scenario("without message", n=80, thorough=10)
def without(rng, note):
    names = ("_execute", "_train", "_stop_training")
    node, sigs, node_id = build(rng, trainable=True, names=names)
    which = rng.choice(["execute", "train"])
    note(which=which, sigs=sigs, results=node.results)
    x = np.random.random((3, 2))
    f = getattr(node, which)
    raises(BiNodeException, f, None) if which == "train" else None
    if which == "execute":
        node._training, node._train_phase = False, 1
        raises(BiNodeException, f, None)
    nm = "_" + which
    if sigs[nm][1]:
        raises((TypeError, BiNodeException), f, x)
        return
    result = f(x)
    check(len(node.calls) == 1 and same(node.calls[0][1], x), "called once with the data")
    r = node.returned
    if which == "train" and isinstance(r, tuple) and len(r) == 2 and r[0] is None:
        check(result is None, "a message without data is dropped: %s", result)
    else:
        check(same(dict(zip("yma", norm(r) if r is not None else (None, {}, None))), dict(zip("yma", norm(result) if result is not None else (None, {}, None)))), "passed through")


@scenario("checks and casts as in a node", n=80, thorough=10)
def checks(rng, note):
    names = ("_execute", "_inverse", "_other", "_train")
    node, sigs, node_id = build(rng, trainable=True, names=names, dtype="f")
    which = rng.choice(["execute", "train"])
    mname = rng.choice([None, which, "inverse", "other"])
    if which == "execute":
        node._training, node._train_phase = False, 1
    elif mname == "inverse":
        raise Skip()          # inverting ends the training of a node
    bad = rng.random() < .4
    note(which=which, method=mname, bad=bad, sigs=sigs)
    nm = "_" + (mname or which)
    if sigs[nm][1] or "target" in sigs[nm][0]:
        raise Skip()
    x = np.random.random((3, 3 if bad else 2))
    if bad and nm != "_other":
        raises(mdp.NodeException, getattr(node, which), x, {"method": mname} if mname else {})
        check(not node.calls, "nothing is called")
        return
    getattr(node, which)(x, {"method": mname} if mname else {})
    if nm != "_other":
        check(node.calls[0][1].dtype == np.float32, "data are cast to the node's dtype")
    check((node.calls[0][1] == x.astype("f")).all() or nm == "_other", "same values")
    check(node._train_phase_started == (which == "train" and nm == "_train"), "training phase started exactly when trained")


@scenario("stop_result", n=120, thorough=10)
def stop_result(rng, note):
    phases = rng.randrange(1, 4)
    mk = lambda: (rng.choice([None, {}, {"s": 1}, {"a": 2, "s": 3}]), rng.choice([None, 1, "n"]))
    stored = [mk() for _ in range(phases)]
    rets = [rng.choice([None, "y", ("y", {"a": 7}), (None, {"s": 9}, 5)]) for _ in range(phases)]
    msgs = [rng.choice([None, {}, {"a": 4}, {"target": 8}, {"n" + SEP + "target": 6, "z": 1}]) for _ in range(phases)]
    note(stored=stored, rets=rets, msgs=msgs)

    class Multi(BiNode):
        def _get_train_seq(self):
            return [(lambda x: None, lambda i=i: rets[i]) for i in range(phases)]
    keep = [(dict(a) if a else a, b) for a, b in stored]
    node = Multi(node_id="n", stop_result=stored if phases > 1 else stored[0])
    for i in range(phases):
        check(node.is_training(), "in training")
        raises(mdp.TrainingException, node.stop_training, dict(msgs[i]) if msgs[i] else None)
        node.train(np.ones((2, 2)))
        m = dict(msgs[i]) if msgs[i] else msgs[i]
        own, rest = split(m or {}, "n")
        t = magic("target", own, rest)
        if t is None:
            t = stored[i][1]
        base = dict(stored[i][0] or {})
        base.update(rest)
        r = node.stop_training(m)
        want = combine(rets[i], base, t)
        check(same(dict(zip("yma", want)), dict(zip("yma", norm(r)))), "phase %d: %s expected %s", i, r, want)
        check(node.get_current_train_phase() == i + 1, "the phase is closed")
    check(not node.is_training(), "training is over")
    raises(mdp.TrainingFinishedException, node.stop_training)
    check([(dict(a) if a else a, b) for a, b in stored] == keep, "the stored result is not modified")


@scenario("coroutines", n=80, thorough=10)
def coroutines(rng, note):
    steps = rng.randrange(0, 4)
    final = rng.choice(["none", "value", "tuple", "fall"])
    note(steps=steps, final=final)

    class Co(BiNode):
        is_trainable = staticmethod(lambda: False)

        @binode_coroutine(["a", "b"], defaults=(7,))
        def _execute(self, x, a, b=5):
            self.seen.append((x, a, b))
            for i in range(steps):
                x, a, b = yield (x, {"step": i})
                self.seen.append((x, a, b))
            if final == "value":
                return "end"
            if final == "tuple":
                return "end", {"step": "last"}
    node = Co(node_id="c")
    node.seen = []
    other = Co(node_id="d")
    other.seen = []
    for rnd in range(2):
        total = rng.randrange(0, steps + 1) if rnd == 0 else steps + 1
        for i in range(total):
            x = np.full((1, 2), float(i))
            m = {"a": i, "z": 1}
            if rng.random() < .5:
                m["c->b"] = i * 10
            n0 = len(node.seen)
            r = norm(node.execute(x, dict(m)) or (None, {}))
            first = i == 0
            check(len(node.seen) == n0 + 1 and node.seen[-1][1] == i and node.seen[-1][2] == m.get("c->b", 5 if first else 7)
                  and (node.seen[-1][0] == x).all(), "arguments of step %d: %s", i, node.seen[-1])
            if i < steps:
                check(r[1].get("step") == i and r[1].get("z") == 1, "step %d: %s", i, r)
            else:
                want = {"none": (None, 1), "fall": (None, 1), "value": ("end", 1), "tuple": ("end", 1)}[final]
                check(same(r[0], want[0]) and r[1].get("z") == 1 and (final != "tuple" or r[1]["step"] == "last"), "end: %s", r)
        node.bi_reset()
        check(node._coroutine_instances is None, "no coroutine is left")
    check(not other.seen, "other nodes are not affected")


@scenario("node ids", n=40, thorough=5)
def ids(rng, note):
    i = rng.choice(IDS + [None])
    node = BiNode(node_id=i)
    check(node.node_id == i, "node id")
    for q in IDS:
        check((node._request_node_id(q) is node) == (q == i), "answers exactly its id")
        check(node._request_node_id(q) in (node, None), "node or None")


@scenario("bi versions of the nodes", n=40, thorough=5)
def autogen(rng, note):
    name = rng.choice(["PCANode", "SFANode", "FDANode", "IdentityNode", "CutoffNode", "PolynomialExpansionNode", "KNNClassifier"])
    cls = getattr(mdp.nodes, name)
    bicls = getattr(bimdp.nodes, {"KNNClassifier": "KNNBiClassifier"}.get(name, name.replace("Node", "BiNode")))
    kw = {"PolynomialExpansionNode": dict(degree=2), "CutoffNode": dict(lower_bound=.2)}.get(name, {})
    args = (2,) if name == "PolynomialExpansionNode" else ()
    kw = {} if args else kw
    node, bi = cls(*args, **kw), bicls(*args, node_id="b", **kw)
    note(node=name)
    x = np.random.random((40, 3))
    labels = np.arange(40) % 2
    while node.is_training():
        a = (labels,) if name in ("FDANode", "KNNClassifier") else ()
        node.train(x, *a)
        node.stop_training()
        r = bi.train(x, {"b->labels": labels, "other->labels": 3} if a else rng.choice([None, {}, {"q": 1}]))
        check(r is None, "training continues")
        check(bi.stop_training() is None, "no result")
    y = node.execute(x)
    m = {"k": 1, "other->k": 2}
    y2, m2 = bi.execute(x, m)
    check(np.allclose(y, y2), "same values as the node")
    check(dict(m2) == {"k": 1, "other->k": 2}, "the message is forwarded: %s", m2)
    check(np.allclose(bi.execute(x), y), "without message")
    if node.is_invertible() and name != "CutoffNode":
        z, m3, t = bi.execute(y, {"method": "inverse", "k": 1})
        check(np.allclose(z, node.inverse(y)) and t == -1 and m3.get("k") == 1, "inverse")
