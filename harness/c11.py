"""C11 on concrete flows."""
import numpy as np
import mdp
from mdp import Flow
from mdp.hinet import FlowNode
from .base import *
from .nodes import Rec, arr, learn, ex


class FRec(Rec):
    """appends `inc` columns; its output dimension follows from its input dimension"""
    def __init__(self, log, name, inc=0, inv=True, **kw):
        self.inc, self.inv = inc, inv
        super(FRec, self).__init__(log, name, **kw)

    def _set_input_dim(self, n):
        self._input_dim = n
        self.output_dim = n + self.inc

    def is_invertible(self):
        return self.inv

    def _execute(self, x):
        y = super(FRec, self)._execute(x)
        return np.hstack([y] + [y[:, :1] * (k + 2) for k in range(self.inc)])

    def _inverse(self, y):
        return super(FRec, self)._inverse(y[:, :y.shape[1] - self.inc])


def make(rng, n=None, nest=False):
    """-> twin lists of nodes (to be wrapped / to be used as a flow), logs"""
    n = n or rng.randint(1, 5)
    spec = [dict(inc=rng.choice([0, 0, 1, 2]), phases=rng.choice([1, 1, 2, 3]), trainable=rng.random() < .6, inv=rng.random() < .9) for _ in range(n)]
    la, lb = [], []
    return [FRec(la, i, **s) for i, s in enumerate(spec)], la, [FRec(lb, i, **s) for i, s in enumerate(spec)], lb, spec


def same(a, b, what):
    key = lambda l: [(k, n, p, None if x is None else x.shape, g) for k, n, p, x, g in l]
    check(key(a) == key(b), "%s: calls %r instead of %r", what, key(a), key(b))
    for u, w in zip(a, b):
        check(u[3] is None or np.array_equal(u[3], w[3]), "%s: %r received %r instead of %r", what, u[:3], u[3], w[3])


def reference(nodes, x, upto):
    for n in nodes[:upto]:
        x = n.execute(x)
    return x


@scenario("flow node", n=700, thorough=20)
def flownode(rng, note):
    A, la, B, lb, spec = make(rng)
    d = rng.randint(1, 4)
    pre = rng.randint(0, 3) if rng.random() < .4 else 0
    note(spec=spec, dim=d, pretrained_phases=pre)
    todo = [(i, p) for i, s in enumerate(spec) if s["trainable"] for p in range(s["phases"])]
    # train some phases before the nodes are wrapped
    for i, p in todo[:pre]:
        x = arr(rng, d)
        for L in (A, B):
            L[i].train(reference(L, x, i))
            L[i].stop_training()
    todo = todo[pre:]
    dims = rng.random() < .5
    kw = {"input_dim": d} if dims and A[0].input_dim in (None, d) else {}
    fn = FlowNode(Flow(A), **kw)
    check(fn.is_trainable() == bool(todo), "is_trainable %r with %r to train", fn.is_trainable(), todo)
    check(fn.is_training() == bool(todo), "is_training")
    check(bool(fn.is_invertible()) == all(s["inv"] for s in spec), "is_invertible")
    check(len(fn) == len(A) and all(fn[i] is A[i] for i in range(len(A))) and [n for n in fn] == A and A[-1] in fn, "containers")
    if todo:
        check(fn.get_remaining_train_phase() == len(todo), "%r phases instead of %r", fn.get_remaining_train_phase(), todo)
    stop_by_execute = rng.random() < .3
    for c, (i, p) in enumerate(todo):
        check(fn.get_current_train_phase() == c, "current phase")
        for _ in range(rng.randint(1, 3)):
            x = arr(rng, d)
            a = tuple(rng.random() for _ in range(rng.choice([0, 0, 1])))
            del la[:], lb[:]
            fn.train(x, *a)
            B[i].train(reference(B, x, i), *a)
            same([l for l in la if l[0] == "train"], [l for l in lb if l[0] == "train"], "training")
            check([l[:3] for l in la if l[0] == "train"] == [("train", i, p)], "phase %r reached %r", (i, p), [l[:3] for l in la])
        if stop_by_execute and c == len(todo) - 1:
            break
        del la[:], lb[:]
        fn.stop_training()
        B[i].stop_training()
        same(la, lb, "stop_training")
    if todo and stop_by_execute:
        B[todo[-1][0]].stop_training()
    x = arr(rng, d)
    del la[:], lb[:]
    want = reference(B, x, len(B))
    y = fn.execute(x) if rng.random() < .5 else fn(x)
    same([l for l in la if l[0] == "execute"], lb, "execution")
    check(np.array_equal(y, want), "executes to %r instead of %r", y, want)
    check(not fn.is_training() and not any(n.is_training() for n in A), "still training")
    check(fn.input_dim == d and fn.output_dim == want.shape[1], "dims %r %r instead of %r %r", fn.input_dim, fn.output_dim, d, want.shape[1])
    y = arr(rng, fn.output_dim)
    if not fn.is_invertible():
        raises(mdp.IsNotInvertibleException, fn.inverse, y)
    else:
        want = y
        for n in B[::-1]:
            want = n.inverse(want)
        check(np.array_equal(fn.inverse(y), want), "inverse")
    raises(mdp.InconsistentDimException, setattr, fn, "input_dim", d + 1)
    raises(mdp.InconsistentDimException, setattr, fn, "output_dim", fn.output_dim + 1)
    raises(mdp.NodeException, fn.execute, arr(rng, d + 1))


@scenario("in a flow", n=250, thorough=20)
def in_a_flow(rng, note):
    """a flow with flow nodes trains like the flat flow"""
    A, la, B, lb, spec = make(rng, rng.randint(2, 6))
    d = rng.randint(1, 3)
    cuts = sorted(rng.sample(range(1, len(A)), rng.randint(1, min(2, len(A) - 1))))
    parts = [A[a:b] for a, b in zip([0] + cuts, cuts + [len(A)])]
    note(spec=spec, parts=[len(p) for p in parts])
    wrapped = []
    for p in parts:
        f = FlowNode(Flow(p))
        while rng.random() < .3:
            f = FlowNode(Flow([f]))
        wrapped.append(f if rng.random() < .8 or len(p) > 1 else p[0])
    data = [arr(rng, d) for _ in range(rng.randint(1, 3))]
    f, g = Flow(wrapped), Flow(B)
    it = lambda nodes: [data if n.is_trainable() else None for n in nodes]
    f.train(it(wrapped))
    g.train(it(B))
    x = arr(rng, d)
    check(np.array_equal(f(x), g(x)), "the flow with flow nodes differs from the flat one")
    same([l for l in la if l[0] in ("train", "stop")], [l for l in lb if l[0] in ("train", "stop")], "training")
    if f.flow and all(s["inv"] for s in spec):
        y = f(x)
        check(np.allclose(f.inverse(y), x), "inverse")


@scenario("copy", n=150, thorough=20)
def copies(rng, note):
    A, la, B, lb, spec = make(rng)
    d = rng.randint(1, 3)
    k = rng.randint(0, sum(s["phases"] for s in spec if s["trainable"]))
    note(spec=spec, trained=k)
    fn = FlowNode(Flow(A))
    for _ in range(k):
        fn.train(arr(rng, d))
        fn.stop_training()
    c = fn.copy()
    check(len(fn) == len(A) and all(a is b for a, b in zip(fn, A)) and all(a is b for a, b in zip(fn.flow.flow, A)), "copying changed the original")
    check(isinstance(c, FlowNode) and len(c) == len(fn) and not any(a is b for a, b in zip(c, fn)), "the inner nodes are shared")
    check(c.is_training() == fn.is_training() and (not c.is_training() or c.get_current_train_phase() == fn.get_current_train_phase()),
          "the copy is in another phase")
    state = [(n.s, n.get_current_train_phase(), n.is_training(), n.input_dim) for n in fn]
    while c.is_training():
        c.train(arr(rng, d))
        c.stop_training()
    c.execute(arr(rng, d))
    check([(n.s, n.get_current_train_phase(), n.is_training(), n.input_dim) for n in fn] == state, "training the copy changed the original")
    check(bool(fn.is_training()) == (k < sum(s["phases"] for s in spec if s["trainable"])), "training the copy closed the original")
    s2 = [n.s for n in c]
    x = arr(rng, d)
    while fn.is_training():
        fn.train(arr(rng, d))
        fn.stop_training()
    fn.execute(x)
    check([n.s for n in c] == s2, "training the original changed the copy")


@scenario("preset dimensions", n=150, thorough=20)
def preset(rng, note):
    d = rng.randint(1, 4)
    q = d + d * (d + 1) // 2
    I, Q, P = (lambda **k: mdp.nodes.IdentityNode(**k)), (lambda **k: mdp.nodes.QuadraticExpansionNode(**k)), (lambda **k: mdp.nodes.PCANode(**k))
    kind = rng.choice(["Q", "IQ", "QI", "QQ", "PQ", "QP"])
    note(d=d, kind=kind)
    nodes = [{"I": I, "Q": Q, "P": P}[c](**({"input_dim": d} if i == 0 and rng.random() < .5 else {})) for i, c in enumerate(kind)]
    fn = FlowNode(Flow(nodes), **({"input_dim": d} if rng.random() < .3 else {}))
    check(fn.input_dim in (None, d) and fn.output_dim == nodes[-1].output_dim, "dims %r %r", fn.input_dim, fn.output_dim)
    x = np.random.RandomState(rng.randrange(10 ** 6)).uniform(-1, 1, (4 * q, d))
    while fn.is_training():
        fn.train(x)
        fn.stop_training()
    y = fn.execute(x)
    want = {"Q": q, "IQ": q, "QI": q, "QQ": q + q * (q + 1) // 2, "PQ": q, "QP": q}[kind]
    check(y.shape == (len(x), want) and fn.output_dim == want and fn.input_dim == d, "shape %r, dims %r %r, expected %d", y.shape, fn.input_dim, fn.output_dim, want)
    # dimensions that differ from the inner nodes' are refused
    node = I(input_dim=d)
    raises(mdp.NodeException, FlowNode, Flow([node]), input_dim=d + 1)
    raises(mdp.NodeException, FlowNode, Flow([I(input_dim=d)]), output_dim=d + 1)
    raises(mdp.NodeException, FlowNode, Flow([I(input_dim=d), Q(input_dim=d)]), output_dim=q + 1)


class Plain(mdp.Node):
    """the most basic node: nothing about dimensions"""
    def is_trainable(self):
        return False

    def _execute(self, x):
        return 2. * x


@scenario("dtypes", n=150, thorough=20)
def dtypes(rng, note):
    kinds = ["f", "d", "D", "F"]
    some = [sorted(rng.sample(kinds, rng.randint(1, 4))) for _ in range(rng.randint(1, 4))]

    class T(mdp.Node):
        def __init__(self, ts, dtype=None):
            self.ts = [np.dtype(t) for t in ts]
            super(T, self).__init__(dtype=dtype)

        def is_trainable(self):
            return False

        def _get_supported_dtypes(self):
            return self.ts
    common = set(kinds).intersection(*some)
    one = rng.choice(sorted(common) or [None])
    preset = [one if one in ts and rng.random() < .3 else None for ts in some]
    note(supported=some, preset=preset)
    nodes = [T(ts, dtype=p) for ts, p in zip(some, preset)]
    fn = FlowNode(Flow(nodes))
    check(set(fn.get_supported_dtypes()) == set(np.dtype(c) for c in common), "supports %r", fn.get_supported_dtypes())
    for t in kinds:
        f2 = FlowNode(Flow([T(ts) for ts in some]))
        if t in common:
            f2.dtype = t
            check(f2.dtype == np.dtype(t) and all(n.dtype == np.dtype(t) for n in f2._flow), "dtype %s is not the one of all nodes", t)
        else:
            raises(mdp.NodeException, setattr, f2, "dtype", t)
            check(f2.dtype is None and all(n.dtype is None for n in f2._flow), "a refused dtype was set")


def late(rng, note, mk):
    """inner nodes that fix their output dimension only when they are executed"""
    d = rng.randint(2, 4)
    nodes = mk()
    note(nodes=[type(n).__name__ for n in nodes], d=d)
    x = arr(rng, d, 12)
    f = Flow(mk())
    fn = FlowNode(Flow(nodes))
    if fn.is_training():
        fn.train(x)
        fn.stop_training()
        f.train(x)
    want = f(x)
    try:
        y = fn.execute(x)
    except mdp.InconsistentDimException as e:
        check("its input_dim is undefined" not in str(e), "a FlowNode whose inner dimensions are unknown before the first execution refuses to execute")
        raise
    check(np.allclose(y, want), "differs from the flow")
    check(fn.output_dim in (want.shape[1], d), "output_dim")
    check(fn.output_dim == want.shape[1], "a FlowNode whose last node fixes its output dimension on execution reports its input dimension as output dimension")


Q = mdp.nodes.QuadraticExpansionNode


@scenario("dimensions left to the first execution", n=2)
def late_refused(rng, note):
    late(rng, note, rng.choice([lambda: [Plain(), Plain()], lambda: [Plain(), Q()]]))


@scenario("last dimension left to the first execution", n=2)
def late_wrong(rng, note):
    late(rng, note, rng.choice([lambda: [Q(), Plain()], lambda: [mdp.nodes.PCANode(output_dim=1), Plain()]]))


@scenario("same dimension left to the first execution", n=20)
def late_fine(rng, note):
    late(rng, note, rng.choice([lambda: [Plain()], lambda: [mdp.nodes.IdentityNode(), Plain()], lambda: [mdp.nodes.PCANode(), Plain()]]))
