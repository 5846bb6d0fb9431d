"""C01 on concrete nodes: random operation sequences against a reference state machine."""
import inspect
import numpy as np
import mdp
from mdp import (Node, TrainingException, TrainingFinishedException, IsNotTrainableException, IsNotInvertibleException,
                 NodeException)
from .base import *


def make(phases, trainable, invertible, log, style, **kw):
    class N(Node):
        def __init__(self, **k):
            super(N, self).__init__(**k)

        def is_trainable(self):
            return trainable

        def is_invertible(self):
            return invertible

        def _get_supported_dtypes(self):
            return ['float32', 'float64', 'int32', 'int64', 'complex128']

        def _get_train_seq(self):
            if style == "default":
                return [(self._train, self._stop_training)]
            return [(self._mk("train", i), self._mk("stop", i)) for i in range(phases)]

        def _mk(self, kind, i):
            def f(*a, **k):
                log.append((kind, i, a, k))
            return f

        def _train(self, *a, **k):
            log.append(("train", 0, a, k))

        def _stop_training(self, *a, **k):
            log.append(("stop", 0, a, k))

        def _execute(self, *a, **k):
            log.append(("execute", None, a, k))
            return a[0] * 2

        def _inverse(self, *a, **k):
            log.append(("inverse", None, a, k))
            return a[0] / 2
    return N(**kw)


DT = ['float32', 'float64', 'int32', 'int64']


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def call_same(c, want):
    return c[0] == want[0] and c[1] == want[1] and same(c[2], want[2]) and same(c[3], want[3])


STATE = ("is_training()", "get_current_train_phase()", "get_remaining_train_phase()", "input_dim", "output_dim", "dtype")


def look(n, f):
    return getattr(n, f[:-2])() if f.endswith("()") else getattr(n, f)


@scenario("state machine", n=400, thorough=20)
def sm(rng, note):
    style = rng.choice(["default", "seq", "seq", "seq"])
    phases = 1 if style == "default" else rng.randint(1, 4)
    trainable = rng.random() < .85
    invertible = rng.random() < .8
    dim = rng.randint(1, 4)
    kw = {}
    if rng.random() < .4:
        kw["input_dim"] = dim
    if rng.random() < .3:
        kw["output_dim"] = dim
    if rng.random() < .5:
        kw["dtype"] = rng.choice(DT)
    log = []
    n = make(phases, trainable, invertible, log, style, **kw)
    m = {"phase": 0, "started": False, "training": trainable, "in": kw.get("input_dim"), "out": kw.get("output_dim"),
         "dt": np.dtype(kw["dtype"]) if "dtype" in kw else None}
    ops = []
    note(style=style, phases=phases, trainable=trainable, kw=kw, ops=ops)

    def data():
        d = dim if rng.random() < .85 else rng.randint(1, 5)
        r = rng.choice([0, 1, 2, 3, 3, 3]) if rng.random() < .3 else rng.randint(1, 5)
        x = np.array([[rng.randint(-9, 9) for _ in range(d)] for _ in range(r)], dtype=rng.choice(DT)).reshape(r, d)
        if rng.random() < .06:
            x = x.reshape(-1) if rng.random() < .5 else x.reshape(1, r, d)
        if rng.random() < .2 and x.ndim == 2:
            x = np.asfortranarray(x)
        return x

    def valid(x, use):
        if x.ndim != 2:
            return False
        w = m["in"] if m["in"] is not None else x.shape[1]
        return x.shape[1] == w and x.shape[0] > 0

    def absorb(x):
        if m["in"] is None:
            m["in"] = x.shape[1]
        if m["dt"] is None:
            m["dt"] = x.dtype

    def extra():
        a = tuple(rng.choice([3, "a", None, (1, 2), np.arange(3)]) for _ in range(rng.choice([0, 0, 1, 2])))
        k = {c: rng.randint(0, 9) for c in rng.sample("abc", rng.choice([0, 0, 0, 1]))}
        return a, k

    for step in range(rng.randint(1, 14)):
        op = rng.choice(["train", "train", "train", "stop", "stop", "execute", "inverse", "query"])
        before = {f: look(n, f) for f in STATE}
        del log[:]
        if op == "query":
            check(n.is_training() == m["training"], "is_training")
            check(n.get_current_train_phase() == (m["phase"] if trainable else -1) or not trainable, "current phase %s", n.get_current_train_phase())
            check(n.get_remaining_train_phase() == (phases - m["phase"] if trainable else 0), "remaining phases")
            check(not log, "queries call nothing")
            continue
        if op == "train":
            x = data()
            a, k = extra()
            ops.append(("train", x.shape, str(x.dtype), len(a), sorted(k)))
            if not trainable:
                raises(IsNotTrainableException, n.train, x, *a, **k)
            elif not m["training"]:
                raises(TrainingFinishedException, n.train, x, *a, **k)
            elif not valid(x, "in"):
                e = raises(NodeException, n.train, x, *a, **k)
                check(not isinstance(e, (TrainingException,)), "rejected data: plain node error, got %s", type(e).__name__)
                check(not log, "learner called with rejected data")
                check(n.get_current_train_phase() == m["phase"] and n.is_training(), "rejected data changed the training state")
                # the dimensions may have been taken from the data; read them back
                m["in"], m["out"], m["dt"] = n.input_dim, n.output_dim, n.dtype
                continue
            else:
                x0 = x.copy()
                absorb(x)
                r = n.train(x, *a, **k)
                want = ("train", m["phase"], (x.astype(m["dt"]),) + a, k)
                check(len(log) == 1 and call_same(log[0], want), "train: expected exactly the call %r, got %r", want, log)
                check(np.array_equal(x, x0), "train changed its input")
                m["started"] = True
                check(n.get_current_train_phase() == m["phase"] and n.is_training(), "phase changed by train")
                continue
            check(not log, "refused train called %r", log)
            check(all(before[f] is look(n, f) or before[f] == look(n, f) for f in STATE), "refused train changed the node")
        elif op == "stop":
            a, k = extra()
            ops.append(("stop", len(a), sorted(k)))
            if not m["training"]:
                e = raises(TrainingFinishedException, n.stop_training, *a, **k)
            elif not m["started"]:
                e = raises(TrainingException, n.stop_training, *a, **k)
                check(not isinstance(e, (TrainingFinishedException, IsNotTrainableException)), "closing an empty phase: plain training exception")
            else:
                n.stop_training(*a, **k)
                want = ("stop", m["phase"], a, k)
                check(len(log) == 1 and call_same(log[0], want), "stop: expected exactly the call %r, got %r", want, log)
                m["phase"] += 1
                m["started"] = False
                m["training"] = m["phase"] < phases
                check(n.is_training() == m["training"], "training flag after closing phase %d of %d", m["phase"], phases)
                check(n.get_current_train_phase() == m["phase"], "phase not advanced by one")
                check(n.get_remaining_train_phase() == phases - m["phase"], "remaining phases")
                continue
            check(not log, "refused stop called %r", log)
            check(all(before[f] is look(n, f) or before[f] == look(n, f) for f in STATE), "refused stop changed the node")
        elif op == "execute":
            x = data()
            a, k = extra()
            ops.append(("execute", x.shape, str(x.dtype)))
            fresh = trainable and m["training"] and m["phase"] == 0 and not m["started"]
            if fresh:
                if not valid(x, "in"):
                    raises(NodeException, n.execute, x, *a, **k)
                    check(not log, "rejected data reached %r", log)
                    m["in"], m["out"], m["dt"] = n.input_dim, n.output_dim, n.dtype
                    continue
                absorb(x)
                xx = x.astype(m["dt"])
                want = []
                for i in range(phases):
                    want += [("train", i, (xx,), {}), ("stop", i, (), {})]
                want.append(("execute", None, (xx,) + a, k))
                n.execute(x, *a, **k)
                check(len(log) == len(want) and all(call_same(c, w) for c, w in zip(log, want)),
                      "executing an untrained node: expected %r, got %r", [w[:2] for w in want], [w[:2] for w in log])
                m.update(phase=phases, started=False, training=False)
                m["out"] = m["in"] if m["out"] is None else m["out"]
                check(not n.is_training(), "still training after execute")
                continue
            if m["training"] and not (m["started"] and m["phase"] == phases - 1):
                e = raises(TrainingException, n.execute, x, *a, **k)
                check(not any(c[0] == "execute" for c in log), "executed with phases remaining")
                # the open phase may have been closed by the attempt
                if m["started"]:
                    m["phase"] += 1
                    m["started"] = False
                check(n.get_current_train_phase() == m["phase"] and n.is_training(), "state after a refused execute")
                continue
            want = []
            if m["training"]:
                want.append(("stop", m["phase"], (), {}))
            ok = valid(x, "in")
            if not ok:
                raises(NodeException, n.execute, x, *a, **k)
                check(not any(c[0] in ("execute", "train") for c in log), "rejected data reached %r", log)
            else:
                absorb(x)
                r = n.execute(x, *a, **k)
                want.append(("execute", None, (x.astype(m["dt"]),) + a, k))
                check(len(log) == len(want) and all(call_same(c, w) for c, w in zip(log, want)), "execute: expected %r, got %r", want, log)
                check(same(r, x.astype(m["dt"]) * 2), "execute returns the implementation's result")
                m["out"] = m["in"] if m["out"] is None else m["out"]
            if m["training"]:
                m.update(phase=m["phase"] + 1, started=False, training=False)
            if not ok:
                m["in"], m["out"], m["dt"] = n.input_dim, n.output_dim, n.dtype
        else:
            y = data()
            a, k = extra()
            ops.append(("inverse", y.shape, str(y.dtype)))
            if not invertible:
                raises(IsNotInvertibleException, n.inverse, y, *a, **k)
                check(not log, "inverse of a non-invertible node called %r", log)
                check(all(before[f] is look(n, f) or before[f] == look(n, f) for f in STATE), "refused inverse changed the node")
                continue
            if m["training"] and not (m["started"] and m["phase"] == phases - 1):
                raises(TrainingException, n.inverse, y, *a, **k)
                check(not any(c[0] == "inverse" for c in log), "inverted with phases remaining")
                if m["started"]:
                    m["phase"] += 1
                    m["started"] = False
                continue
            want = []
            if m["training"]:
                want.append(("stop", m["phase"], (), {}))
                m.update(phase=m["phase"] + 1, started=False, training=False)
            out = m["out"] if m["out"] is not None else m["in"]
            if out is None or y.ndim != 2 or y.shape[1] != out:
                raises(NodeException, n.inverse, y, *a, **k)
                check(not any(c[0] == "inverse" for c in log), "rejected data reached the inverter")
                m["in"], m["out"], m["dt"] = n.input_dim, n.output_dim, n.dtype
            elif m["dt"] is None:
                return
            else:
                n.inverse(y, *a, **k)
                want.append(("inverse", None, (y.astype(m["dt"]),) + a, k))
                check(len(log) == len(want) and all(call_same(c, w) for c, w in zip(log, want)), "inverse: expected %r, got %r", want, log)
                m["out"] = out
        check(n.is_training() == m["training"] and (not trainable or n.get_current_train_phase() == m["phase"]), "state after %s: %s/%s expected %s", op,
              n.is_training(), n.get_current_train_phase(), m)


LIB = None


def lib_nodes():
    """library nodes that can be built without arguments, with the number of their phases"""
    global LIB
    if LIB is None:
        LIB = []
        for nm in sorted(dir(mdp.nodes)):
            c = getattr(mdp.nodes, nm)
            if isinstance(c, type) and issubclass(c, Node) and not nm.endswith("ScikitsLearnNode"):
                try:
                    n = c()
                except Exception:
                    continue
                LIB.append(c)
    return LIB


@scenario("library nodes follow the protocol", n=120, thorough=6)
def lib(rng, note):
    cls = rng.choice(lib_nodes())
    n = cls()
    note(node=cls.__name__)
    if issubclass(cls, (mdp.OnlineNode,)):
        raise Skip()
    if not n.is_trainable():
        check(not n.is_training(), "a non-trainable node is never training")
        raises(IsNotTrainableException, n.train, np.ones((4, 3)))
        e = raises(TrainingFinishedException, n.stop_training)
        return
    k = len(n._train_seq)
    check(n.get_remaining_train_phase() == k and n.get_current_train_phase() == 0 and n.is_training(), "a new node is in phase 0 of %d", k)
    check(n.has_multiple_training_phases() == (k > 1), "multiple phases")
    e = raises(TrainingException, n.stop_training)
    sig = inspect.signature(n._train)
    names = [p.name for p in sig.parameters.values() if p.default is p.empty and p.kind == p.POSITIONAL_OR_KEYWORD][1:]
    extra = [np.arange(5) if "label" in q else np.random.random((5, 2)) for q in names]
    calls = []
    seq = [((lambda *a, i=i, **kw: calls.append(("train", i, a, kw))), (lambda *a, i=i, **kw: calls.append(("stop", i, a, kw)))) for i in range(k)]
    n._get_train_seq = lambda: seq
    n._check_train_args = lambda *a, **kw: None
    for i in range(k):
        chunks = rng.randint(1, 3)
        for c in range(chunks):
            x = np.random.random((5, 3))
            n.train(x, *extra)
            check(calls[-1][:2] == ("train", i) and same(calls[-1][2][0], x.astype(n.dtype)), "chunk of phase %d goes to its learner", i)
        if i < k - 1:
            check(n.get_remaining_train_phase() == k - i, "remaining")
        n.stop_training()
        check(calls[-1][:2] == ("stop", i) and len(calls) == chunks + 1, "phase %d closed by its own finisher once", i)
        del calls[:]
    check(not n.is_training() and n.get_remaining_train_phase() == 0, "finished after %d closings", k)
    raises(TrainingFinishedException, n.stop_training)
    raises(TrainingFinishedException, n.train, np.random.random((5, 3)), *extra)
    check(not calls, "refused calls call nothing")
