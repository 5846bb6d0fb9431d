"""C18 on real bi-flows: an independent interpreter of targets and messages against the real flows."""
import copy
import functools
import numpy as np
import mdp
import bimdp
from bimdp import BiNode, BiFlow, BiFlowException, EXIT_TARGET
from .base import *

SEP = "->"


class Stop(Exception):
    """the flow must raise a BiFlowException"""


class Plain(mdp.Node):
    def __init__(self, k, log):
        mdp.Node.__init__(self)
        self.k, self.log = k, log

    is_trainable = staticmethod(lambda: False)

    def _execute(self, x):
        self.log.append(("execute", self.k, float(x[0, 0]), None))
        return x + 2. ** self.k


class PlainTrain(Plain):
    is_trainable = staticmethod(lambda: True)

    def _train(self, x):
        self.log.append(("train", self.k, float(x[0, 0]), None))

    def _stop_training(self):
        self.log.append(("stop", self.k, None, None))


class Bi(BiNode):
    """executes its script: a list of (own message, own target); then passes on"""
    def __init__(self, k, log, script=(), train_script=(), stop_script=(), **kw):
        self.k, self.log, self.script = k, log, list(script)
        self.train_script, self.stop_script = list(train_script), list(stop_script)
        self.resets = 0
        BiNode.__init__(self, **kw)

    def is_trainable(self):
        return bool(self.stop_script)

    def _get_train_seq(self):
        return [(self._train, self._stop)] * len(self.stop_script) if self.stop_script else []

    def out(self, y, entry):
        return y if entry is None or entry[0] is None and entry[1] is None else (y, copy.copy(entry[0])) if entry[1] is None else (y, copy.copy(entry[0]), entry[1])

    def _execute(self, x, a=None, b=None):
        self.log.append(("execute", self.k, None if x is None else float(x[0, 0]), (a, b)))
        return self.out(None if x is None else x + 2. ** self.k, self.script.pop(0) if self.script else None)

    def _train(self, x, a=None):
        self.log.append(("train", self.k, None if x is None else float(x[0, 0]), a))
        if not self.train_script:
            return None
        e = self.train_script.pop(0)
        return None if e is None else self.out(x + .5, e)

    def _stop(self, a=None):
        self.log.append(("stop", self.k, None, a))
        e = self.stopping[self._train_phase]
        return None if e is None else self.out(np.full((2, 2), 7.), e)

    def _bi_reset(self):
        self.resets += 1


class Raw(Bi):
    """with an execute and train of its own, which drop the message they are given"""
    def execute(self, x, msg=None):
        return self._execute(x)

    def train(self, x, msg=None):
        self._train_phase_started = True
        return self._train(x)


class Ref(object):
    """the same by the book"""
    def __init__(self, specs):
        self.specs = [dict(s, script=list(s.get("script", ())), train_script=list(s.get("train_script", ()))) for s in specs]
        self.log = []
        self.resets = 0
        self.dropped = False

    def take(self, s, msg, names):
        if s.get("raw"):
            return (None,) * len(names), {}
        own = {k[len(s["id"] or "") + 2:]: v for k, v in msg.items() if s["id"] and k.startswith(s["id"] + SEP)}
        rest = {k: v for k, v in msg.items() if not (s["id"] and k.startswith(s["id"] + SEP))}
        return tuple(own.get(n, rest.get(n)) for n in names), rest

    def index(self, target, i):
        """node reached from node i"""
        if target is None:
            target = 1
        if isinstance(target, int):
            return i + target
        for j, s in enumerate(self.specs):
            if s["kind"] == "bi" and s["id"] == target:
                return j
        return None

    def run(self, x, msg, i, until=None):
        """-> (how it ended, x, msg): 'end', 'front', 'until', 'lost'"""
        msg = dict(msg or {})
        while i != until:
            s = self.specs[i]
            if s.get("open"):
                raise Skip()      # executing a node ends its training
            if s["kind"] != "bi":
                self.log.append(("execute", i, float(x[0, 0]), None))
                x, target = x + 2. ** i, 1
            else:
                if x is None and not msg and self.dropped:
                    raise Skip()      # nothing at all to work on
                self.dropped = bool(s.get("raw"))
                (a, b), rest = self.take(s, msg, ("a", "b"))
                self.log.append(("execute", i, None if x is None else float(x[0, 0]), (a, b)))
                x = None if x is None else x + 2. ** i
                e = s["script"].pop(0) if s["script"] else None
                msg = rest
                target = 1
                if e:
                    msg.update(e[0] or {})
                    target = 1 if e[1] is None else e[1]
            if isinstance(target, int):
                i = i + target
                if i == len(self.specs):
                    return "end", x, msg
                if i == -1:
                    return "front", x, msg
                if not 0 <= i < len(self.specs):
                    raise Stop()
            else:
                i = self.index(target, i)
                if i is None:
                    return ("exit" if target == EXIT_TARGET else "lost"), x, msg
        return "until", x, msg

    def execute(self, xs, msgs, targets):
        ys, out = [], []
        for x, m, t in zip(xs, msgs, targets):
            i = 0
            if t:
                i = self.index(t, 0)
                if t == EXIT_TARGET:
                    ys.append(x)
                    out.append(m or {})
                    continue
                if i is None or not 0 <= i < len(self.specs):
                    raise Stop()
            how, x, m = self.run(x, m, i)
            if how == "lost":
                raise Stop()
            ys.append(x)
            out.append(m)
        return ys, out

    def train_node(self, nr, xs, msgs, stop_msg):
        s = self.specs[nr]
        phases = len(s["stop_script"]) if s["kind"] == "bi" else 1 if s["kind"] == "train" else 0
        for ph in range(phases):
            s["open"] = True
            for x, m in zip(xs, msgs):
                i = 0
                while True:
                    how, x, m = self.run(x, m, i, until=nr)
                    if how != "until":
                        raise Stop()
                    if s["kind"] != "bi":
                        self.log.append(("train", nr, float(x[0, 0]), None))
                        break
                    (a,), rest = self.take(s, m, ("a",))
                    self.log.append(("train", nr, float(x[0, 0]), a))
                    e = s["train_script"].pop(0) if s["train_script"] else None
                    if e is None:
                        break
                    x = x + .5
                    m = rest
                    m.update(e[0] or {})
                    i = self.index(e[1], nr)
                    if i is None or not 0 <= i < len(self.specs):
                        raise Stop()
            s["open"] = ph < phases - 1
            if s["kind"] != "bi":
                self.log.append(("stop", nr, None, None))
                continue
            (a,), rest = self.take(dict(s, raw=False), stop_msg or {}, ("a",))
            self.log.append(("stop", nr, None, a))
            e = s["stop_script"][ph]
            if e is None and not rest:
                continue
            x = np.full((2, 2), 7.) if e is not None else None
            t = e[1] if e is not None else None
            rest.update((e[0] if e is not None else None) or {})
            if t == EXIT_TARGET:
                continue
            i = self.index(t, nr)
            if i is None or not 0 <= i < len(self.specs):
                raise Stop()
            how, x, m = self.run(x, rest, i)
            if how == "lost":
                raise Stop()


def rand_entry(rng, ids, lists=True):
    msg = rng.choice([None, {}, {"a": rng.randrange(9)}, {"k": rng.randrange(9)}, {rng.choice(ids) + SEP + "a": rng.randrange(100)},
                      {"l": [rng.randrange(9)]}, {"arr": np.full((1, 2), float(rng.randrange(9)))}])
    t = rng.choice([None, None, 1, -1, 2, -2, 0, rng.choice(ids), EXIT_TARGET, "nowhere" if rng.random() < .2 else None, rng.choice([-4, 5]) if rng.random() < .3 else None])
    return msg, t


def build(rng, train=False):
    n = rng.randrange(1, 5)
    ids = ["p", "q", "r", "s"]
    specs = []
    for k in range(n):
        kind = rng.choice(["bi", "bi", "bi", "plain"] + (["train"] if train else []))
        s = {"kind": kind, "id": None}
        if kind == "bi":
            s["id"] = rng.choice([None, ids[k]])
            s["raw"] = rng.random() < .2
            s["script"] = [rand_entry(rng, ids) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            s["train_script"] = [rng.choice([None, (None, None), rand_entry(rng, ids), rand_entry(rng, ids)]) for _ in range(rng.choice([0, 0, 1, 3]))] if train else []
            s["stop_script"] = [rng.choice([None, None, rand_entry(rng, ids)]) for _ in range(rng.choice([0, 1, 1, 2]))] if train else []
        specs.append(s)
    return specs, make(specs)


def make(specs):
    log, nodes = [], []
    for k, s in enumerate(specs):
        if s["kind"] == "bi":
            nodes.append((Raw if s.get("raw") else Bi)(k, log, s["script"], s["train_script"], s["stop_script"], node_id=s["id"]))
            nodes[-1].stopping = s["stop_script"]
        else:
            nodes.append((Plain if s["kind"] == "plain" else PlainTrain)(k, log))
    return BiFlow(nodes), log


def rand_msg(rng):
    return rng.choice([None, {}, {"a": rng.randrange(9)}, {"p" + SEP + "a": 1, "q" + SEP + "b": 2, "z": 3}, {"k": 5, "l": [1]}, {"arr": np.ones((1, 2))}])


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and (a == b).all()
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


@scenario("targets and chunks", n=500, thorough=30)
def execution(rng, note):
    specs, (flow, log) = build(rng)
    nc = rng.choice([1, 1, 2, 3])
    xs = [np.full((rng.randrange(1, 3), 2), float(100 * c)) for c in range(nc)]
    msgs = [rand_msg(rng) for _ in range(nc)]
    targets = [rng.choice([None, None, 0, 1, "p", "q", "nowhere", EXIT_TARGET, -1, 2]) if rng.random() < .3 else None for _ in range(nc)]
    note(specs=specs, msgs=msgs, targets=targets, chunks=nc)
    ref = Ref(specs)
    keep = copy.deepcopy(msgs)
    if nc == 1 and rng.random() < .5:
        call = lambda: flow.execute(xs[0], msgs[0], targets[0])
    else:
        call = lambda: flow.execute(iter(xs) if rng.random() < .5 else xs, msgs, targets)
    try:
        ys, out = ref.execute(xs, copy.deepcopy(msgs), targets)
    except Stop:
        raises(BiFlowException, call)
        check([l[:3] for l in log] == [l[:3] for l in ref.log], "calls up to the exception: %s expected %s", log, ref.log)
        return
    joined, bad = join(out)
    if bad:
        raises(BiFlowException, call)
        return
    y, msg = call()
    check(log == ref.log, "calls %s expected %s", log, ref.log)
    check(eq(y, np.concatenate(ys)), "data %s expected %s", y, ys)
    check(eq(msg, joined), "message %s expected %s", msg, joined)
    check(all(eq(a, b) or a is b is None for a, b in zip(msgs, keep)), "the messages given are not modified")
    n_bi = [n for n in flow if isinstance(n, Bi)]
    check(all(n.resets == nc + 1 for n in n_bi), "reset after each chunk: %s", [n.resets for n in n_bi])


def join(out):
    """join the messages entry by entry"""
    r = {}
    for m in out:
        for k, v in (m or {}).items():
            r.setdefault(k, []).append(v)
    res = {}
    for k, vs in r.items():
        if any(isinstance(v, np.ndarray) for v in vs):
            if not all(isinstance(v, np.ndarray) for v in vs):
                return None, True
            res[k] = np.concatenate(vs)
        else:
            t = vs[0]
            for v in vs[1:]:
                try:
                    t = t + v
                except TypeError:
                    return None, True
            res[k] = t
    return res, False


@scenario("training", n=400, thorough=30)
def training(rng, note):
    specs, (flow, log) = build(rng, train=True)
    n = len(specs)
    nc = [rng.choice([1, 2, 3]) for _ in range(n)]
    xs = [[np.full((2, 2), float(100 * c + 1000 * j)) for c in range(nc[j])] for j in range(n)]
    msgs = [[rand_msg(rng) for _ in range(nc[j])] for j in range(n)]
    stop = [rng.choice([None, None, {"a": 4}, {"p" + SEP + "a": 3}, {"z": 1}]) if s["kind"] == "bi" else None for s in specs]
    note(specs=specs, msgs=msgs, stop=stop, chunks=nc)
    ref = Ref(specs)
    keep = copy.deepcopy((msgs, stop))
    use_stop = any(stop) or rng.random() < .5

    def call():
        flow.train(xs, msgs, stop if use_stop else None)
    for s in ref.specs:
        s["open"] = s["kind"] == "train" or bool(s.get("stop_script"))
    try:
        for j in range(n):
            ref.train_node(j, xs[j], copy.deepcopy(msgs[j]), copy.deepcopy(stop[j]))
    except Stop:
        raises(BiFlowException, call)
        check([l[:3] for l in log] == [l[:3] for l in ref.log], "calls up to the exception: %s expected %s", log, ref.log)
        return
    except (TypeError, AttributeError):
        raise Skip()          # a normal node without data
    call()
    check(log == ref.log, "calls %s expected %s", log, ref.log)
    check(not any(nd.is_training() for nd in flow), "trained")
    check(eq({"m": 0}, {"m": 0}) and all(eq(a, b) or a is b is None for p, q in zip(msgs, keep[0]) for a, b in zip(p, q)) and stop == keep[1], "the messages given are not modified")


@scenario("chunks without data", n=60, thorough=10)
def nodata(rng, note):
    nc = rng.randrange(1, 4)
    gives = [rng.random() < .5 for _ in range(nc)] if rng.random() < .5 else [rng.random() < .5] * nc
    none_in = rng.random() < .3
    note(gives=gives, none_in=none_in)

    class N(BiNode):
        is_trainable = staticmethod(lambda: False)
        c = -1

        def _execute(self, x):
            N.c += 1
            return (np.full((1, 2), float(N.c)) if gives[N.c] else None), {"i": N.c, "l": [N.c]}
    flow = BiFlow([N()])
    xs = None if none_in else [np.ones((1, 2))] * nc
    msgs = [{"q": 1}] * nc if none_in else None
    if any(gives) and not all(gives):
        raises(BiFlowException, flow.execute, xs, msgs)
        return
    y, msg = flow.execute(xs, msgs)
    check(msg["i"] == sum(range(nc)) and msg["l"] == list(range(nc)), "joined message %s", msg)
    if any(gives):
        check(eq(y, np.array([[float(c)] * 2 for c in range(nc)])), "joined data")
    else:
        check(y is None, "no data: %s", y)
    raises(BiFlowException, flow.execute, [])
    raises(BiFlowException, flow.execute, None)


@scenario("values of the nodes are not changed by joining", n=30, thorough=5)
def aliasing(rng, note):
    nc = rng.randrange(1, 5)
    note(chunks=nc)
    v = {"l": [1, 2], "t": (1,), "n": 3, "s": "x", "arr": np.ones((2, 1))}
    keep = copy.deepcopy(v)

    class N(BiNode):
        is_trainable = staticmethod(lambda: False)

        def _execute(self, x):
            return x, dict(v)
    y, msg = BiFlow([N()]).execute([np.ones((1, 2))] * nc)
    check(eq(msg, {"l": [1, 2] * nc, "t": (1,) * nc, "n": 3 * nc, "s": "x" * nc, "arr": np.ones((2 * nc, 1))}), "joined %s", msg)
    check(eq(v, keep), "own values %s", v)


@scenario("values of different types in the chunks", n=150, thorough=10)
def mixed(rng, note):
    """a name is either used for arrays in all chunks that have it, or for values that can be added; all else is refused"""
    pool = [None, lambda: np.full((rng.randint(1, 2), 2), rng.randint(0, 5)), lambda: rng.choice([0, 1, 2.5, 0.0]), lambda: rng.choice([[], [1], [2, 3]]),
            lambda: rng.choice(["", "ab"]), lambda: rng.choice([(), (1,)])]
    vals = [rng.choice(pool[:4] if rng.random() < .7 else pool) for _ in range(rng.randint(1, 4))]
    if rng.random() < .4:
        vals = [rng.choice([None, vals[0]]) for _ in vals]
    vals = [f and f() for f in vals]
    have = [q for q in vals if q is not None]
    note(values=[repr(q) for q in vals])

    class N(BiNode):
        is_trainable = staticmethod(lambda: False)
        c = -1

        def _execute(self, x):
            N.c += 1
            return x, {} if vals[N.c] is None else {"m": vals[N.c]}
    flow = BiFlow([N()])
    xs = [np.ones((1, 2))] * len(vals)
    arrays = [isinstance(q, np.ndarray) for q in have]
    try:
        want = (np.concatenate(have) if all(arrays) else functools.reduce(lambda a, b: a + b, have)) if have else None
    except (TypeError, ValueError):
        want = None
    if have and (want is None or any(arrays) and not all(arrays)):
        raises(BiFlowException, flow.execute, xs)
        return
    y, msg = flow.execute(xs)
    check(("m" in msg) == bool(have), "message %s", msg)
    if have:
        check(type(msg["m"]) is type(want) and eq(msg["m"], want), "%r instead of %r", msg["m"], want)


@scenario("lookup by id", n=60, thorough=10)
def lookup(rng, note):
    specs, (flow, log) = build(rng)
    if rng.random() < .5:
        # ids are found inside of flow nodes as well
        inner, _ = make([dict(kind="bi", id="inner", script=[], train_script=[], stop_script=[]) for _ in range(2)])
        flow.append(bimdp.hinet.BiFlowNode(inner))
    note(specs=specs)
    have = {s["id"]: k for k, s in reversed(list(enumerate(specs))) if s["id"]}
    for i in ["p", "q", "r", "s", "nowhere", "inner"]:
        if i == "inner" and len(flow) > len(specs):
            check(i in flow and flow[i] is flow[-1]._flow[0], "inner node")
            check(flow._target_to_index(i) == len(specs), "index of the container of %s", i)
            continue
        check((i in flow) == (i in have), "%s in flow", i)
        if i in have:
            check(flow[i] is flow.flow[have[i]], "%s is found", i)
            check(flow._target_to_index(i) == have[i], "index of %s", i)
        else:
            raises(KeyError, lambda: flow[i])
    raises(BiFlowException, flow.__setitem__, "p", Plain(0, []))
    raises(BiFlowException, flow.__delitem__, "p")
    for k in range(len(flow)):
        check(flow[k] is flow.flow[k] and flow.flow[k] in flow, "by position")


@scenario("single arrays and iterables in training", n=60, thorough=10)
def train_forms(rng, note):
    form = rng.choice(["array", "lists", "lists, no messages", "none"])
    phases = rng.randrange(1, 3)
    note(form=form, phases=phases)
    specs = [dict(kind="bi", id=i, script=[], train_script=[], stop_script=[None] * phases) for i in "pq"]
    flow, log = make(specs)
    x = np.ones((2, 2))
    m = {"p" + SEP + "a": 1, "a": 2}
    ncalls = 1
    if form == "array":
        flow.train(x, m)
    elif form == "lists":
        flow.train([[x, x], [x, x]], [[m, m], [m, m]])
        ncalls = 2
    elif form == "lists, no messages":
        flow.train([[x], [x]])
        m = {}
    else:
        raises(BiFlowException, flow.train, None)
        return
    want = []
    for k, i in enumerate("pq"):
        for ph in range(phases):
            for c in range(ncalls):
                want += [("execute", 0, 1., (m.get("p->a", m.get("a")), None))] if k else []
                want.append(("train", k, 1. + k, m.get(i + "->a", m.get("a"))))
            want.append(("stop", k, None, None))
    check(log == want, "calls %s expected %s", log, want)
    if m:
        check(m == {"p" + SEP + "a": 1, "a": 2}, "the message is not modified")
