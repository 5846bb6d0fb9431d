"""C04 on concrete flows: execution and inversion against the hand-written composition."""
import numpy as np
import mdp
from mdp import Flow, FlowException
from .base import *
from .nodes import *


def build(rng, log, trained=True):
    n = rng.randint(1, 5)
    cols = rng.randint(1, 3)
    nodes = [Rec(log, i, phases=rng.randint(1, 2), trainable=rng.random() < .4) for i in range(n)]
    for nd in nodes:
        if nd.tr:
            for p in range(nd.ph):
                nd.train(arr(rng, cols))
                if p < nd.ph - 1 or rng.random() < .5:
                    nd.stop_training()
    return nodes, cols


def source(rng, chunks):
    k = rng.choice(["list", "tuple", "gen", "oneshot", "array3"])
    if k == "array3":
        return chunks
    return {"list": list, "tuple": tuple, "gen": Gen, "oneshot": OneShot}[k](chunks)


def calls(log, kind, n):
    return [(e[1], e[3]) for e in log if e[0] == kind]


@scenario("execute", n=10000, thorough=15)
def execute(rng, note):
    log = []
    nodes, cols = build(rng, log)
    f = rng.choice([Flow, mdp.CheckpointFlow])(nodes)
    upto = rng.choice([None] + list(range(len(nodes))))
    last = len(nodes) - 1 if upto is None else upto
    m = rng.choice([0, 1, 2, 3, 5])
    chunks = [arr(rng, cols) for _ in range(m)]
    how = rng.choice(["array", "items"])
    call = rng.choice([f.execute, f.__call__, f])
    a = rng.choice([(upto,), None]) if upto is None else (upto,)
    run = (lambda x: call(x)) if a is None else rng.choice([lambda x: call(x, *a), lambda x: call(x, nodenr=upto)])
    note(n=len(nodes), upto=upto, how=how, chunks=chunks)
    del log[:]
    if how == "items" and m == 0:
        raises(FlowException, run, source(rng, chunks))
        check(not calls(log, "execute", 0), "nodes were executed for an empty iterable")
        return
    if how == "array":
        chunks = [chunks[0] if m else arr(rng, cols)]
        keep = chunks[0].copy()
        r = run(chunks[0])
        check(np.array_equal(keep, chunks[0]), "the input array was changed")
    else:
        r = run(source(rng, chunks))
    want, ev = [], []
    for x in chunks:
        for i in range(last + 1):
            ev.append((i, x))
            x = ex(nodes[i].s, nodes[i].bias, x)
        want.append(x)
    got = calls(log, "execute", 0)
    check([g[0] for g in got] == [e[0] for e in ev], "nodes called in the order %r, expected %r", [g[0] for g in got], [e[0] for e in ev])
    for g, e in zip(got, ev):
        check(np.array_equal(g[1], e[1]), "node %d was given %r instead of %r", g[0], g[1], e[1])
    check(np.array_equal(r, np.concatenate(want)), "result %r, expected %r", r, want)
    # slicing
    part = f[:last + 1]
    check(type(part) is type(f) and list(part) == nodes[:last + 1], "slice of the flow")
    check(np.array_equal(part.execute(chunks), r), "executing up to %d differs from the slice", last)


@scenario("inverse", n=2000, thorough=15)
def inverse(rng, note):
    log = []
    nodes, cols = build(rng, log)
    f = Flow(nodes)
    m = rng.choice([0, 1, 2, 3, 5])
    chunks = [arr(rng, cols) for _ in range(m)]
    how = rng.choice(["array", "items"])
    note(n=len(nodes), how=how, chunks=chunks)
    f.execute(arr(rng, cols))
    del log[:]
    if how == "items" and m == 0:
        raises(FlowException, f.inverse, source(rng, chunks))
        return
    if how == "array":
        chunks = [chunks[0] if m else arr(rng, cols)]
        r = f.inverse(chunks[0])
    else:
        r = f.inverse(source(rng, chunks))
    want, ev = [], []
    for x in chunks:
        for i in reversed(range(len(nodes))):
            ev.append((i, x))
            x = (x - nodes[i].bias) / (1. + nodes[i].s)
        want.append(x)
    got = calls(log, "inverse", 0)
    check([g[0] for g in got] == [e[0] for e in ev], "nodes called in the order %r, expected %r", [g[0] for g in got], [e[0] for e in ev])
    for g, e in zip(got, ev):
        check(np.array_equal(g[1], e[1]), "node %d was given %r instead of %r", g[0], g[1], e[1])
    check(np.array_equal(r, np.concatenate(want)), "result %r, expected %r", r, want)


@scenario("slices", n=1000, thorough=10)
def slices(rng, note):
    log = []
    nodes, cols = build(rng, log)
    f = Flow(nodes)
    b = [None] + list(range(-len(nodes) - 2, len(nodes) + 3))
    s = slice(rng.choice(b), rng.choice(b), rng.choice([None, None, 1, 2, -1]))
    note(n=len(nodes), s=s)
    part = f[s]
    check(type(part) is Flow and list(part) == nodes[s], "f[%r] has the nodes %r", s, [n.nm for n in part])
    check(list(f) == nodes, "slicing changed the flow")
    if len(part):
        x = arr(rng, cols)
        y = x
        for nd in nodes[s]:
            y = ex(nd.s, nd.bias, y)
        del log[:]
        check(np.array_equal(part(x), y), "the slice does not execute its nodes")
        check([e[1] for e in log if e[0] == "execute"] == [nd.nm for nd in nodes[s]], "order")


@scenario("real nodes", n=60, thorough=6)
def real(rng, note):
    rs = np.random.RandomState(rng.randrange(10 ** 6))
    d = rng.randint(2, 4)
    x = rs.randn(60, d)
    pool = [lambda k: mdp.nodes.PCANode(), lambda k: mdp.nodes.WhiteningNode(), lambda k: mdp.nodes.IdentityNode(),
            lambda k: mdp.nodes.SFANode(), lambda k: mdp.nodes.EtaComputerNode()]
    nodes = [rng.choice(pool)(d) for _ in range(rng.randint(1, 4))]
    f = Flow(nodes)
    f.train(x)
    note(nodes=[type(n).__name__ for n in nodes], d=d)
    y = x
    for n in nodes:
        y = n.execute(y)
    cut = sorted(rng.sample(range(1, 60), 3))
    parts = np.split(x, cut)
    check(np.array_equal(f(x), y), "not the composition")
    check(np.allclose(f(parts), y), "chunks: not the composition")
    z = y
    if all(n.is_invertible() for n in nodes):
        for n in reversed(nodes):
            z = n.inverse(z)
        check(np.array_equal(f.inverse(y), z), "inverse is not the composition")
