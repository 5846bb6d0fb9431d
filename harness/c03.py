"""C03 on concrete flows: every flow of recording nodes against a sequential simulation."""
import numpy as np
import mdp
from mdp import Flow, FlowException
from .base import *
from .nodes import *


def build(rng, log, boom=False):
    n = rng.randint(1, 4)
    nodes = []
    for i in range(n):
        cls = rng.choice([Rec, Rec, Rec, Rec1, Rec2, Rec1o])
        nodes.append(cls(log, i, phases=rng.randint(1, 3), trainable=rng.random() < .75))
    return nodes


def pretrain(rng, node, cols):
    """bring a node to some phase of its training before the flow is trained"""
    k = rng.choice([0, 0, 0, 0, 1, node.ph])
    done = 0
    for _ in range(min(k, node.ph)):
        node.train(arr(rng, cols), *([None] * required(node)))
        node.stop_training()
        done += 1
    return done


def items(rng, node, cols, wrong):
    need = required(node)
    m = rng.choice([0, 1, 1, 2, 3]) if rng.random() < .4 else rng.randint(1, 3)
    out = []
    bad = rng.randrange(m) if wrong and m else None
    for j in range(m):
        x = arr(rng, cols)
        k = need
        if type(node) is Rec:
            k = rng.choice([0, 0, 1])
        if bad == j and need:
            k = need + rng.choice([-1, 1])
        args = tuple(object() for _ in range(k))
        if k or rng.random() < .2:
            out.append((x,) + args if rng.random() < .7 else [x] + list(args))
        else:
            out.append(x)
    return out


def unpack(c):
    return (c[0], tuple(c[1:])) if isinstance(c, (tuple, list)) else (c, ())


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def simulate(nodes, state, data, kinds):
    """-> (list of expected (train/stop) events in order with optional stops marked, failed?)"""
    ev = []
    s = [n.s for n in nodes]
    done = list(state)
    opened = [False] * len(nodes)

    def through(x, i):
        for j in range(i):
            if opened[j]:
                ev.append(("stop", j, done[j]))
                done[j] += 1
                opened[j] = False
            if nodes[j].tr and done[j] < nodes[j].ph:
                raise Skip("executing an untrained node")
            x = ex(s[j], nodes[j].bias, x)
        return x
    for i, node in enumerate(nodes):
        if not node.tr:
            continue
        if data[i] is None:
            if done[i] < node.ph:
                return ev, "fail"
            continue
        if done[i] >= node.ph:
            if not data[i]:
                raise Skip()
            a = unpack(data[i][0])[1]
            if required(node) and len(a) != required(node):
                raise Skip()
            through(unpack(data[i][0])[0], i)
            continue
        first = True
        while True:
            chunks = data[i]
            if kinds[i] == "oneshot" and not first:
                chunks = []
            if not chunks:
                return ev, "fail"
            for c in chunks:
                x, a = unpack(c)
                if required(node) and len(a) != required(node):
                    return ev, "fail"
                x = through(x, i)
                ev.append(("train", i, done[i], x, a))
                s[i] = learn(s[i], done[i], x)
                opened[i] = True
            first = False
            if node.ph - done[i] > 1:
                ev.append(("stop", i, done[i]))
                done[i] += 1
                opened[i] = False
            else:
                break
    if opened[-1]:
        ev.append(("stop", len(nodes) - 1, done[-1]))
    return ev, "ok"


def compare(log, ev):
    got = [e for e in log if e[0] in ("train", "stop")]
    check(len(got) == len(ev), "events %r, expected %r", [e[:3] for e in got], [e[:3] for e in ev])
    for g, e in zip(got, ev):
        check(g[:3] == e[:3], "events %r, expected %r", [x[:3] for x in got], [x[:3] for x in ev])
        if e[0] == "train":
            check(same(g[3], e[3]), "node %d phase %d was trained on %r, expected %r", g[1], g[2], g[3], e[3])
            # an optional argument that was not given may be filled in with its default
            check(len(g[4]) >= len(e[4]) and all(z is None for z in g[4][len(e[4]):]) and all(a is b for a, b in zip(g[4], e[4])), "node %d got the arguments %r, expected %r", g[1], g[4], e[4])


def one(rng, note, train, wrong=False):
    log = []
    nodes = build(rng, log)
    cols = rng.randint(1, 3)
    state = [pretrain(rng, n, cols) if n.tr else 0 for n in nodes]
    # an unfinished node in front of trained ones cannot be executed
    data, kinds = [], []
    wi = rng.randrange(len(nodes)) if wrong else -1
    for i, n in enumerate(nodes):
        if rng.random() < .2 or (not n.tr and rng.random() < .5):
            data.append(None)
            kinds.append("none")
            continue
        data.append(items(rng, n, cols, i == wi))
        kinds.append(rng.choice(["list", "gen", "oneshot"] if rng.random() < .4 else ["list", "gen"]))
    note(nodes=[(type(n).__name__, n.ph, n.tr) for n in nodes], state=state, kinds=kinds, data=data)
    ev, res = simulate(nodes, state, data, kinds)
    del log[:]
    its = []
    for d, k in zip(data, kinds):
        its.append(None if k == "none" else d if k == "list" else Gen(d) if k == "gen" else OneShot(d))
    flow = train(nodes, its, res)
    compare(log, ev)
    # order: no event of a later node while a node trains
    return flow


@scenario("train", n=1200, thorough=15)
def train(rng, note):
    def go(nodes, its, res):
        f = Flow(nodes)
        if res == "fail":
            raises(FlowException, f.train, its)
        else:
            f.train(its)
        return f
    one(rng, note, go, wrong=rng.random() < .15)


@scenario("single array", n=200, thorough=10)
def single(rng, note):
    log = []
    nodes = [Rec(log, i, phases=rng.randint(1, 3), trainable=rng.random() < .8) for i in range(rng.randint(1, 4))]
    x = arr(rng, rng.randint(1, 3))
    note(phases=[(n.ph, n.tr) for n in nodes], x=x)
    ev, res = simulate(nodes, [0] * len(nodes), [[x]] * len(nodes), ["list"] * len(nodes))
    f = Flow(nodes)
    f.train(x)
    compare(log, ev)


@scenario("wrong number of iterables", n=100, thorough=5)
def wrong_number(rng, note):
    log = []
    n = rng.randint(1, 4)
    nodes = [Rec(log, i, trainable=rng.random() < .8) for i in range(n)]
    m = rng.choice([k for k in range(0, 6) if k != n])
    note(n=n, m=m)
    raises(FlowException, Flow(nodes).train, [[arr(rng, 2)] for _ in range(m)])
    check(not log, "something was called: %r", log)
    bad = rng.choice([tuple([[arr(rng, 2)]] * n), 3, "x", iter([[arr(rng, 2)]] * n)])
    raises(FlowException, Flow(nodes).train, bad)
    check(not log, "something was called: %r", log)


class Sup(mdp.Node):
    """a supervised node with a keyword argument that has a default"""
    def _train(self, x, a, b=3):
        self.got = getattr(self, "got", []) + [(x.copy(), a, b)]

    def _execute(self, x):
        return x


@scenario("real nodes", n=60, thorough=6)
def real(rng, note):
    """a flow of library nodes equals training the nodes one after the other by hand"""
    dim = rng.randint(3, 5)
    mk = [lambda: mdp.nodes.PCANode(output_dim=dim - 1), lambda: mdp.nodes.PolynomialExpansionNode(2),
          lambda: mdp.nodes.SFANode(output_dim=2)]
    rs = np.random.RandomState(rng.randrange(10 ** 6))
    chunks = [[rs.randn(rng.randint(40, 60), dim) for _ in range(rng.randint(1, 3))] for _ in range(3)]
    note(dim=dim, chunks=[[c.shape for c in cs] for cs in chunks])
    f = Flow([m() for m in mk])
    f.train([chunks[0], None, chunks[2]])
    a, b, c = [m() for m in mk]
    for x in chunks[0]:
        a.train(x)
    a.stop_training()
    for x in chunks[2]:
        c.train(b.execute(a.execute(x)))
    c.stop_training()
    check(not f[2].is_training(), "the last node was left open")
    x = rs.randn(10, dim)
    check(np.allclose(f(x), c(b(a(x)))), "the trained flow differs from the nodes trained by hand")
