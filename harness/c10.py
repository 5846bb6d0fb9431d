"""C10 on concrete layers."""
import numpy as np
import mdp
from mdp.hinet import Layer, CloneLayer, SameInputLayer
from .base import *
from .nodes import arr


class LRec(mdp.Node):
    """invertible node with its own widths and phases, recording what reaches it"""
    def __init__(self, log, name, phases=0, late=False, inv=True, **kw):
        self.log, self.nm, self.ph, self.late, self.inv = log, name, phases, late, inv
        out = kw.pop("output_dim")
        super(LRec, self).__init__(output_dim=None if late else out, **kw)
        self.out = out

    def is_trainable(self):
        return self.ph > 0

    def is_invertible(self):
        return self.inv

    def _get_train_seq(self):
        return [((lambda x, *a, p=p, **k: self.rec("train", p, x, a, k)), (lambda *a, p=p, **k: self.rec("stop", p, None, a, k)))
                for p in range(self.ph)]

    def rec(self, kind, p, x, a, k):
        self.log.append((kind, self.nm, p, None if x is None else np.array(x), a, tuple(sorted(k.items()))))
        if kind == "stop" and p == self.ph - 1 and self.late and self.output_dim is None:
            self.output_dim = self.out

    def _set_output_dim(self, n):
        self._output_dim = n

    def _check_input(self, x):
        super(LRec, self)._check_input(x)

    def _pre_execution_checks(self, x):
        if self.late and self.output_dim is None:
            self.output_dim = self.out
        super(LRec, self)._pre_execution_checks(x)

    def weights(self):
        r = np.random.RandomState(self.nm + 1)
        return r.uniform(-1, 1, (self.input_dim, self.out))

    def _execute(self, x):
        self.log.append(("execute", self.nm, None, np.array(x), (), ()))
        return x.dot(self.weights()) + self.nm

    def _inverse(self, y):
        self.log.append(("inverse", self.nm, None, np.array(y), (), ()))
        return y.dot(self.weights().T) - self.nm


def make(rng, log, i, phases=None, dims=None, late=False, inv=True):
    a, b = dims or (rng.randint(1, 6), rng.randint(1, 6))
    return LRec(log, i, rng.choice([0, 0, 1, 1, 2, 3]) if phases is None else phases, late, inv, input_dim=a, output_dim=b)


def offs(ds):
    return [sum(ds[:i]) for i in range(len(ds) + 1)]


def same_log(got, want, what):
    check(len(got) == len(want), "%s: calls %r instead of %r", what, [g[:3] for g in got], [w[:3] for w in want])
    for g, w in zip(got, want):
        check(g[:3] == w[:3] and g[4:] == w[4:], "%s: call %r instead of %r", what, g, w)
        check((g[3] is None) == (w[3] is None) and (g[3] is None or (g[3].shape == w[3].shape and np.array_equal(g[3], w[3]))),
              "%s: call %r received %r instead of %r", what, g[:3], g[3], w[3])


def train_layer(rng, layer, nodes, cut, total_in, log):
    """drive all phases; the expected calls are computed here"""
    top = max(n.ph for n in nodes)
    check(layer.is_trainable() == (top > 0), "is_trainable %r with phases %r", layer.is_trainable(), [n.ph for n in nodes])
    check(layer.is_training() == (top > 0), "is_training")
    for p in range(top):
        check(layer.get_current_train_phase() == p, "phase %r", layer.get_current_train_phase())
        check(layer.get_remaining_train_phase() == top - p, "remaining phases")
        for _ in range(rng.randint(1, 3)):
            x = arr(rng, total_in)
            a = tuple(rng.random() for _ in range(rng.choice([0, 0, 1, 2])))
            k = {"label": rng.random()} if rng.random() < .3 else {}
            del log[:]
            layer.train(x, *a, **k)
            same_log(log, [("train", n.nm, p, cut(x, i), a, tuple(sorted(k.items()))) for i, n in enumerate(nodes) if n.ph > p], "train")
        a = tuple(rng.random() for _ in range(rng.choice([0, 0, 1])))
        del log[:]
        layer.stop_training(*a)
        same_log(log, [("stop", n.nm, p, None, a, ()) for n in nodes if n.ph > p], "stop_training")
    check(not layer.is_training(), "still training")
    check(not any(n.is_training() for n in nodes), "a node still trains")


def run(rng, layer, nodes, cut, total_in, log, out):
    single = layer.dtype is None and rng.random() < .3
    for _ in range(rng.randint(1, 2)):
        x = arr(rng, total_in)
        if single:
            x = x.astype('f')
        x0 = x.copy()
        del log[:]
        y = layer.execute(x)
        check(np.array_equal(x, x0), "the input was changed")
        same_log(log, [("execute", n.nm, None, cut(x, i), (), ()) for i, n in enumerate(nodes)], "execute")
        o = offs(out)
        check(y.shape == (len(x), o[-1]), "result shape %r", y.shape)
        for i, n in enumerate(nodes):
            want = cut(x, i).dot(n.weights()) + n.nm
            check(np.allclose(y[:, o[i]:o[i + 1]], want, atol=1e-5), "the result of node %d is not in its columns", i)
        check(layer.output_dim == o[-1] and layer.input_dim == total_in, "dims %r %r", layer.input_dim, layer.output_dim)


def build(rng, cls, late_ok=True):
    log = []
    n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    late = late_ok and rng.random() < .3
    inv = rng.random() < .7
    w = rng.randint(1, 6)
    nodes = [make(rng, log, i, dims=(w, rng.randint(1, 6)) if cls is SameInputLayer else None, late=late and rng.random() < .6,
                  inv=inv or rng.random() < .8) for i in range(n)]
    return log, nodes


@scenario("layer", n=500, thorough=20)
def layer(rng, note):
    log, nodes = build(rng, Layer)
    ind, outd = [n.input_dim for n in nodes], [n.out for n in nodes]
    note(ind=ind, outd=outd, phases=[n.ph for n in nodes], late=[n.late for n in nodes])
    l = Layer(rng.choice([list, tuple])(nodes))
    i = offs(ind)
    check(l.input_dim == i[-1], "input_dim %r of nodes %r", l.input_dim, ind)
    late = any(n.late for n in nodes)
    check(l.output_dim == (None if late else sum(outd)), "output_dim %r of nodes %r", l.output_dim, outd)
    check(bool(l.is_invertible()) == all(n.inv for n in nodes), "is_invertible")
    cut = lambda x, j: x[:, i[j]:i[j + 1]]
    raises(mdp.NodeException, l.execute if max(n.ph for n in nodes) == 0 else l.train, arr(rng, i[-1] + 1))
    train_layer(rng, l, nodes, cut, i[-1], log)
    run(rng, l, nodes, cut, i[-1], log, outd)
    o = offs(outd)
    y = arr(rng, o[-1])
    if not l.is_invertible():
        raises(mdp.IsNotInvertibleException, l.inverse, y)
        return
    del log[:]
    x = l.inverse(y)
    same_log(log, [("inverse", n.nm, None, y[:, o[j]:o[j + 1]], (), ()) for j, n in enumerate(nodes)], "inverse")
    check(x.shape == (len(y), i[-1]), "inverse shape")
    for j, n in enumerate(nodes):
        check(np.allclose(x[:, i[j]:i[j + 1]], y[:, o[j]:o[j + 1]].dot(n.weights().T) - n.nm), "the inverse of node %d is not in its columns", j)


@scenario("same input layer", n=400, thorough=20)
def same(rng, note):
    log, nodes = build(rng, SameInputLayer)
    outd = [n.out for n in nodes]
    note(ind=nodes[0].input_dim, outd=outd, phases=[n.ph for n in nodes], late=[n.late for n in nodes])
    l = SameInputLayer(nodes)
    check(l.input_dim == nodes[0].input_dim, "input_dim")
    check(l.output_dim == (None if any(n.late for n in nodes) else sum(outd)), "output_dim %r of nodes %r", l.output_dim, outd)
    check(not l.is_invertible(), "is_invertible")
    cut = lambda x, j: x
    train_layer(rng, l, nodes, cut, l.input_dim, log)
    run(rng, l, nodes, cut, l.input_dim, log, outd)
    raises(mdp.IsNotInvertibleException, l.inverse, arr(rng, sum(outd)))


@scenario("clone layer", n=400, thorough=20)
def clone(rng, note):
    log = []
    n = rng.choice([1, 2, 3, 4, 5, 7])
    node = make(rng, log, rng.randint(0, 5), late=rng.random() < .2)
    d, e = node.input_dim, node.out
    note(n=n, d=d, e=e, phases=node.ph, late=node.late)
    l = CloneLayer(node, n) if n > 1 or rng.random() < .5 else CloneLayer(node)
    check(l.input_dim == n * d and l.output_dim == (None if node.late else n * e), "dims %r %r", l.input_dim, l.output_dim)
    check(len(l.nodes) == n and all(q is node for q in l.nodes), "nodes")
    for p in range(node.ph):
        check(l.get_current_train_phase() == p and l.is_training(), "phase")
        for _ in range(rng.randint(1, 3)):
            x = arr(rng, n * d)
            a = tuple(rng.random() for _ in range(rng.choice([0, 1])))
            del log[:]
            l.train(x, *a)
            same_log(log, [("train", node.nm, p, x[:, j * d:(j + 1) * d], a, ()) for j in range(n)], "train")
        del log[:]
        l.stop_training()
        same_log(log, [("stop", node.nm, p, None, (), ())], "stop_training")
    check(not l.is_training() and not node.is_training(), "still training")
    x = arr(rng, n * d)
    x0 = x.copy()
    for rep in range(2):
        # the data may be passed in any number of calls to the shared node, but the results are those of each block
        y = l.execute(x if rep == 0 else np.asfortranarray(x))
        check(np.array_equal(x, x0), "the input was changed")
        check(y.shape == (len(x), n * e) and l.output_dim == n * e, "result shape %r", y.shape)
        for j in range(n):
            check(np.allclose(y[:, j * e:(j + 1) * e], x[:, j * d:(j + 1) * d].dot(node.weights()) + node.nm),
                  "the result of block %d is not in its columns", j)
    y = arr(rng, n * e)
    x = l.inverse(y)
    check(x.shape == (len(y), n * d), "inverse shape")
    for j in range(n):
        check(np.allclose(x[:, j * d:(j + 1) * d], y[:, j * e:(j + 1) * e].dot(node.weights().T) - node.nm),
              "the inverse of block %d is not in its columns", j)


@scenario("refused layers", n=200, thorough=10)
def refused(rng, note):
    log = []
    n = rng.randint(1, 4)
    nodes = [make(rng, log, i) for i in range(n)]
    k = rng.randrange(n)
    nodes[k] = mdp.nodes.IdentityNode()
    raises(mdp.NodeException, Layer, nodes)
    nodes = [make(rng, log, i, dims=(3, 2)) for i in range(n + 1)]
    bad = make(rng, log, 9, dims=(4, 2))
    nodes.insert(rng.randint(0, n), bad)
    raises(mdp.NodeException, SameInputLayer, nodes)
    a, b = [mdp.nodes.IdentityNode(input_dim=2, dtype=t) for t in "df"]
    raises(mdp.NodeException, Layer, [a, b])
    raises(mdp.NodeException, Layer, [a], dtype='f')
    check(Layer([a, mdp.nodes.IdentityNode(input_dim=1)]).dtype == np.dtype('d'), "the layer takes its nodes' dtype")


@scenario("nodes that change the number of rows", n=150, thorough=10)
def rows(rng, note):
    """all nodes of a layer may give fewer (or more) rows than they get"""
    w, k = rng.randint(1, 4), rng.randint(1, 4)
    cls = rng.choice([Layer, Layer, SameInputLayer])
    ds = [rng.randint(1, 3) for _ in range(k)] if cls is Layer else [rng.randint(1, 3)] * k
    note(cls=cls.__name__, w=w, ds=ds)

    class Half(mdp.Node):
        def is_trainable(self):
            return False

        def _execute(self, x):
            return np.array(x[::2]) + 1

        def _inverse(self, y):
            return np.repeat(y, 2, axis=0)

    make = (lambda d: mdp.nodes.TimeFramesNode(w, input_dim=d)) if rng.random() < .6 else (lambda d: Half(input_dim=d))
    nodes = [make(d) for d in ds]
    l = cls(nodes)
    o = offs(ds)
    x = arr(rng, ds[0] if cls is SameInputLayer else o[-1], rng.randint(w, w + 5))
    blocks = [x if cls is SameInputLayer else x[:, o[i]:o[i + 1]] for i in range(k)]
    want = [n.execute(b) for n, b in zip(nodes, blocks)]
    y = l.execute(x)
    want = np.hstack(want)
    check(y.shape == want.shape and np.array_equal(y, want), "result %r instead of %r", y, want)
    if isinstance(nodes[0], Half) and cls is not SameInputLayer:
        back = l.inverse(y)
        want = np.hstack([n.inverse(y[:, o[i]:o[i + 1]]) for i, n in enumerate(nodes)])
        check(back.shape == want.shape and np.array_equal(back, want), "inverse %r instead of %r", back, want)


@scenario("clone layer of a node that looks at other samples", n=20, thorough=5)
def clone_rows(rng, note):
    """known finding: all blocks are executed by one call, so the node takes the other blocks for samples"""
    w, d, k = rng.randint(2, 3), rng.randint(1, 2), rng.randint(2, 3)
    cls = rng.choice([mdp.nodes.TimeDelayNode, mdp.nodes.TimeFramesNode])
    note(cls=cls.__name__, w=w, d=d, k=k)
    node = cls(w, input_dim=d)
    x = arr(rng, d * k, rng.randint(w, w + 4))
    want = np.hstack([node.execute(x[:, j * d:(j + 1) * d]) for j in range(k)])
    try:
        y = CloneLayer(node, k).execute(x)
    except ValueError as e:
        raise Violation("%s takes the samples of other blocks for earlier samples (%s)" % (cls.__name__, e))
    check(y.shape == want.shape and np.array_equal(y, want), "%s takes the samples of other blocks for earlier samples", cls.__name__)


@scenario("library nodes", n=60, thorough=10)
def library(rng, note):
    ds = [rng.randint(2, 4) for _ in range(rng.randint(1, 3))]
    r = np.random.RandomState(rng.randrange(10 ** 6))
    X = r.normal(size=(60, sum(ds))).dot(r.normal(size=(sum(ds), sum(ds))))
    mk = [lambda d: mdp.nodes.PCANode(input_dim=d, output_dim=rng.randint(1, d)), lambda d: mdp.nodes.SFANode(input_dim=d),
          lambda d: mdp.nodes.QuadraticExpansionNode(input_dim=d), lambda d: mdp.nodes.WhiteningNode(input_dim=d)]
    nodes = [rng.choice(mk)(d) for d in ds]
    alone = [n.copy() for n in nodes]
    note(nodes=[repr(n) for n in nodes])
    l = Layer(nodes)
    flow = mdp.Flow([l])
    if l.is_trainable():
        flow.train([[X[:25], X[25:]]])
    y = flow(X)
    o = offs(ds)
    want = []
    for i, n in enumerate(alone):
        B = X[:, o[i]:o[i + 1]]
        if n.is_training():
            n.train(B[:25])
            n.train(B[25:])
            n.stop_training()
        want.append(n.execute(B))
    want = np.hstack(want)
    check(y.shape == want.shape and np.allclose(y, want, atol=1e-8), "differs from the nodes on their own")
