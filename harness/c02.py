"""C02 on concrete nodes."""
import numpy as np
import mdp
import bimdp
from mdp import Node, NodeException, InconsistentDimException, PreserveDimNode
from .base import *

DT = ['float32', 'float64', 'int32', 'int64', 'complex128', 'bool', 'int8', 'S1']


def mk(base, dts, log):
    class N(base):
        def is_trainable(self):
            return self._tr
        _tr = True

        def _get_supported_dtypes(self):
            return dts

        def _train(self, x):
            log.append(("train", x))

        def _execute(self, x):
            log.append(("execute", x))
            return x

        def _inverse(self, y):
            log.append(("inverse", y))
            return y
    return N


def snap(n):
    return n.input_dim, n.output_dim, n.dtype


BASES = [Node, PreserveDimNode, mdp.PreserveDimOnlineNode, bimdp.PreserveDimBiNode, bimdp.BiNode]


@scenario("setters", n=400, thorough=20)
def setters(rng, note):
    base = rng.choice(BASES)
    bound = issubclass(base, PreserveDimNode)
    dts = rng.sample(['float32', 'float64', 'int32', 'int64'], rng.randint(1, 4))
    if rng.random() < .3:
        dts = [np.dtype(d) for d in dts]
    log = []
    cls = mk(base, dts, log)
    kw = {}
    if rng.random() < .3:
        kw["input_dim"] = rng.randint(1, 3)
    if rng.random() < .3:
        kw["output_dim"] = rng.randint(1, 3)
    if rng.random() < .3:
        kw["dtype"] = rng.choice(dts)
    ops = []
    note(base=base.__name__, dts=dts, kw=kw, ops=ops)
    if bound and len(set(v for k, v in kw.items() if "dim" in k)) == 2:
        raises(InconsistentDimException, cls, **kw)
        return
    n = cls(**kw)
    m = [kw.get("input_dim"), kw.get("output_dim"), np.dtype(kw["dtype"]) if "dtype" in kw else None]
    if bound:
        m[0] = m[1] = m[0] if m[0] is not None else m[1]
    for _ in range(rng.randint(1, 8)):
        check(list(snap(n)) == m, "state %r, expected %r", snap(n), m)
        w = rng.choice(["input_dim", "output_dim", "dtype"])
        how = rng.choice(["attr", "method"])

        def put(v):
            ops.append((w, v))
            if how == "attr":
                setattr(n, w, v)
            else:
                getattr(n, "set_" + w)(v)
        if rng.random() < .15:
            put(None)
            continue
        if w == "dtype":
            t = rng.choice(DT + ["float32", "float64"])
            okk = np.dtype(t) in [np.dtype(d) for d in dts] and (m[2] is None or m[2] == np.dtype(t))
            if okk:
                put(t)
                m[2] = np.dtype(t)
            else:
                e = raises(NodeException, put, t)
            continue
        i = 0 if w == "input_dim" else 1
        d = rng.choice([1, 2, 3, np.int64(2)])
        cur = m[i]
        if cur is not None and cur != d:
            raises(InconsistentDimException, put, d)
        else:
            put(d)
            m[i] = d
            if bound:
                m[0] = m[1] = d
    check(list(snap(n)) == m, "state %r, expected %r", snap(n), m)


@scenario("data", n=400, thorough=20)
def data(rng, note):
    base = rng.choice(BASES)
    bound = issubclass(base, PreserveDimNode)
    log = []
    dts = ['float32', 'float64', 'int64', 'int16']
    cls = mk(base, dts, log)
    cls._tr = rng.random() < .6
    n = cls(input_dim=rng.choice([None, None, 2, 3]), dtype=rng.choice([None, None] + dts))
    if not bound and rng.random() < .4:
        n.output_dim = rng.choice([2, 3])
    ops = []
    note(base=base.__name__, start=snap(n), trainable=cls._tr, ops=ops)
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["train", "execute", "inverse"])
        if op == "train" and not n.is_training():
            continue
        if op == "inverse" and n.is_training():
            continue
        sh = rng.choice([(2,), (0, 2), (0, 3), (4, 2), (4, 2), (1, 2), (5, 3), (5, 3), (2, 2, 2), (3, 0), ()])
        x = np.array(np.arange(int(np.prod(sh)) if sh else 1).reshape(sh) % 7, dtype=rng.choice(dts + ['float64', 'uint8']))
        if rng.random() < .15:
            x = x.astype(x.dtype.newbyteorder())       # the other byte order is another dtype
        before = snap(n)
        del log[:]
        ops.append((op, sh, str(x.dtype)))
        x0 = x.copy()
        try:
            getattr(n, op)(x)
            ok = True
        except NodeException as e:
            ok = False
        check(np.array_equal(x, x0), "the input was changed")
        after = snap(n)
        for nm, b, a in zip(("input_dim", "output_dim", "dtype"), before, after):
            check(b is None or a == b, "%s silently changed from %r to %r", nm, b, a)
        if bound:
            check(after[0] == after[1], "dimension-preserving node with dims %r", after[:2])
        width = before[0] if op != "inverse" else (before[1] if before[1] is not None else before[0])
        dt_ok = before[2] is not None or x.dtype in [np.dtype(d) for d in dts]
        valid = len(sh) == 2 and (sh[0] > 0 or op == "inverse") and (width is None and op != "inverse" or width == sh[1]) and dt_ok
        if not valid:
            check(not ok, "%s accepted invalid data of shape %r (dims %r)", op, sh, before)
            check(not any(c[0] in ("train", "execute", "inverse") for c in log), "rejected data reached the implementation")
            continue
        check(ok, "%s refused valid data of shape %r dtype %s (dims %r)", op, sh, x.dtype, before)
        check(after[2] is not None and (before[2] is not None or after[2] == x.dtype), "an unset dtype is the data's, not %r", after[2])
        want = after[2]
        if issubclass(base, mdp.OnlineNode) and op in ("train", "execute") and log and log[0][0] == "train":
            # online learners get the samples one by one
            tr = [c[1] for c in log if c[0] == "train"]
            check(all(c.dtype == want for c in tr) and np.array_equal(np.concatenate(tr), x.astype(want)), "online learner: wrong samples")
            del log[:len(tr)]
            if op == "train":
                log.append(("train", x.astype(want)))
        for c in log:
            check(c[1].dtype == want and np.array_equal(c[1], x.astype(want)), "%s received dtype %s, node has %s", c[0], c[1].dtype, want)
        check(log and log[-1][0] == op, "the implementation was not called last")
        if op != "inverse":
            check(after[0] == sh[1], "dims not taken from the data")
        if op == "execute" and before[1] is None:
            check(after[1] == after[0], "unset output dim becomes the input dim")


LIB = None


def lib_nodes():
    global LIB
    if LIB is None:
        LIB = []
        for nm in sorted(dir(mdp.nodes)):
            c = getattr(mdp.nodes, nm)
            if isinstance(c, type) and issubclass(c, Node) and not nm.endswith("ScikitsLearnNode"):
                for kw in ({}, {"degree": 2}, {"n": 2}, {"time_frames": 2}, {"hidden_dim": 2, "visible_dim": 3},
                           {"hidden_dim": 2, "labels_dim": 1, "visible_dim": 2}):
                    try:
                        c(**kw)
                    except Exception:
                        continue
                    LIB.append((c, kw))
                    break
    return LIB


@scenario("library nodes", n=250, thorough=6)
def lib(rng, note):
    cls, kw = rng.choice(lib_nodes())
    n = cls(**kw)
    steps = []
    note(node=cls.__name__, steps=steps)
    for _ in range(rng.randint(2, 6)):
        w = rng.choice(["input_dim", "output_dim", "dtype"])
        before = snap(n)
        cur = getattr(n, w)
        if w == "dtype":
            sup = [np.dtype(t) for t in n.get_supported_dtypes()]
            t = np.dtype(rng.choice(['float32', 'float64', 'int32', 'complex64', 'S1', 'bool']))
            steps.append((w, t.name))
            if t not in sup or (cur is not None and cur != t):
                raises(NodeException, setattr, n, w, t)
                check(snap(n) == before, "a refused dtype changed %r to %r", before, snap(n))
            else:
                try:
                    n.dtype = t
                except NodeException as e:
                    check(cur is None, "setting the same dtype again: %s" % e)
                    check(snap(n) == before, "a refused dtype changed %r to %r", before, snap(n))
                    continue
                check(n.dtype == t, "dtype %r was not taken", t)
                check(snap(n)[:2] == before[:2], "setting the dtype changed the dims")
            continue
        d = rng.randint(2, 5)
        if rng.random() < .5 and cur is not None:
            d = cur
        steps.append((w, d))
        if cur is not None and cur != d:
            raises((InconsistentDimException,), setattr, n, w, d)
            check(snap(n) == before, "a refused %s changed %r to %r", w, before, snap(n))
            continue
        try:
            setattr(n, w, d)
        except NodeException as e:
            check(snap(n) == before, "a refused %s changed %r to %r (%s)", w, before, snap(n), e)
            continue
        check(getattr(n, w) == d, "%s=%r was not taken: %r", w, d, getattr(n, w))
        for nm, b, a in zip(("input_dim", "output_dim", "dtype"), before, snap(n)):
            check(b is None or a == b, "%s silently changed from %r to %r", nm, b, a)
        if isinstance(n, PreserveDimNode):
            check(n.input_dim == n.output_dim, "dimension-preserving node with dims %r", snap(n))
