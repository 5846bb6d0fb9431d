"""C21 on real nodes: hit parades and eta values recomputed from the whole signal."""
import math
import random
import numpy as np
import mdp
from mdp.nodes import HitParadeNode, EtaComputerNode
from mdp.nodes.misc_nodes import OneDimensionalHitParade
from .base import *


def split(rng, x):
    m = len(x)
    cuts = sorted(rng.sample(range(1, m), min(rng.choice([0, 1, 2, m]), m - 1))) if m > 1 else []
    return np.split(x, cuts)


def signal(rng, m):
    kind = rng.randrange(6)
    if kind == 0:
        return [rng.randrange(-3, 4) for _ in range(m)]
    if kind == 1:
        return [rng.randrange(-99, 100) for _ in range(m)]
    if kind == 2:
        return rng.sample(range(-200, 200), m)
    if kind == 3:
        return sorted(rng.sample(range(-200, 200), m), reverse=rng.random() < .5)
    if kind == 4:
        return [round(40 * math.sin(t / rng.choice([2., 3., 5.])) + rng.randrange(-2, 3)) for t in range(m)]
    return [rng.choice([0, 7])] * m


def judge(what, x, n, d, M, iM, start=0):
    """x: the samples seen (maxima asked for); M, iM: the list"""
    M, iM = [float(v) for v in M], [int(i) for i in iM]
    check(len(M) == n and len(iM) == n, "%s: length", what)
    check(all(a >= b for a, b in zip(M, M[1:])), "%s not sorted: %r", what, M)
    hits = [(v, i) for v, i in zip(M, iM) if abs(v) < 1e30 and start <= i < start + len(x) and x[i - start] == v]
    # unused places: the placeholder
    rest = [(v, i) for v, i in zip(M, iM) if (v, i) not in hits]
    check(all(v <= 1 - 2 ** 31 for v, i in rest), "%s: %r at %r is no sample", what, M, iM)
    pos = sorted(i for _, i in hits)
    check(all(b - a > d for a, b in zip(pos, pos[1:])), "%s: positions %r closer than %d", what, pos, d)
    check(len(hits) >= 1, "%s: no hit", what)
    check(M[0] == max(x), "%s: %r instead of the extreme %r", what, M[0], max(x))
    for v, i in hits:
        check(all(x[t - start] <= v for t in range(i, min(i + d + 1, start + len(x)))), "%s: sample %d is not extreme among the %d following", what, i, d)
    low = min(M)
    for t in range(start, start + len(x)):
        ok = t in pos or x[t - start] <= low or any(abs(s - t) <= d and s != t and x[s - start] >= x[t - start]
                                                    for s in range(max(start, t - d), min(start + len(x), t + d + 1)))
        check(ok, "%s: sample %d (%r) is missing in %r at %r", what, t, x[t - start], M, iM)
    if d == 0:
        check(M == (sorted(map(float, x), reverse=True) + M[len(x):])[:n], "%s: %r are not the largest", what, M)


@scenario("hit parade", n=400, thorough=10)
def hits(rng, note):
    n, d, cols = rng.randrange(1, 6), rng.randrange(0, 5), rng.randrange(1, 4)
    m = rng.randrange(1, 30)
    x = np.array([signal(rng, m) for _ in range(cols)]).T.astype(rng.choice(["d", "i8", "i4", "f"]))
    chunks = split(rng, x)
    note(n=n, d=d, x=x, chunks=[len(c) for c in chunks])
    node, whole = HitParadeNode(n, d), HitParadeNode(n, d)
    for c in chunks:
        keep = c.copy()
        node.train(c)
        check(np.array_equal(c, keep), "the input was changed")
        c = None
    whole.train(x)
    if rng.random() < .5:
        node.stop_training()
    res = []
    for q in (node, whole):
        got = q.get_maxima(), q.get_minima()
        check(not q.is_training(), "still training")
        res.append(got)
        check(got[0][0].shape == got[1][1].shape == (n, cols) and got[0][0].dtype == x.dtype, "shape")
    for (a, ia), (b, ib) in zip(*res):
        check(np.array_equal(a, b) and np.array_equal(ia, ib), "chunks: %r at %r, in one go: %r at %r", a, ia, b, ib)
    (M, iM), (L, iL) = res[0]
    again = node.get_maxima(), node.get_minima()
    check(all(np.array_equal(p, q) for g, h in zip(res[0], again) for p, q in zip(g, h)), "the second answer differs")
    for c in range(cols):
        col = [v.item() for v in x[:, c]]
        judge("maxima", col, n, d, M[:, c].tolist(), iM[:, c])
        judge("minima", [-v for v in col], n, d, [-v for v in L[:, c].tolist()], iL[:, c])
    check(np.array_equal(node.execute(x), x), "execution changes the data")


@scenario("one-dimensional parade", n=300, thorough=10)
def one(rng, note):
    n, d, m = rng.randrange(1, 5), rng.randrange(0, 4), rng.randrange(1, 25)
    x = np.array(signal(rng, m)).astype("d")
    start = rng.choice([0, 0, 3, 50])
    ix = np.arange(start, start + m)
    note(n=n, d=d, x=x, start=start)
    h = OneDimensionalHitParade(n, d)
    at = 0
    for c in split(rng, x):
        keep = c.copy()
        h.update((c, ix[at:at + len(c)]))
        at += len(c)
        check(np.array_equal(c, keep), "the input was changed")
        M, iM = h.get_maxima()
        M[:] = 5
        iM[:] = 5
    M, iM = h.get_maxima()
    L, iL = h.get_minima()
    seen = x.tolist()
    judge("maxima", seen, n, d, M, iM, start)
    judge("minima", [-v for v in seen], n, d, [-v for v in L], iL, start)


@scenario("eta", n=300, thorough=10)
def eta(rng, note):
    n, total = rng.randrange(1, 4), rng.randrange(4, 60)
    r = np.random.RandomState(rng.randrange(2 ** 31))
    x = r.normal(size=(total, n)) * r.uniform(.1, 30, size=n) + rng.choice([0, 0, 5])
    chunks = [c for c in split(rng, x)] if rng.random() < .9 else [x]
    t = rng.choice([1, 1, 2, total, .5])
    note(x=x[:4], total=total, chunks=[len(c) for c in chunks], t=t)
    body = np.concatenate([c[:-1] for c in chunks])
    if len(body) < 2 or np.any(body.var(axis=0) < 1e-3):
        raise Skip()
    d2 = np.concatenate([np.diff(c, axis=0) for c in chunks]) ** 2
    delta = d2.mean(axis=0) / body.var(axis=0, ddof=1)
    want = np.sqrt(delta) / (2 * np.pi) * t
    node = EtaComputerNode()
    for c in chunks:
        buf = c.copy()
        node.train(buf)
        check(np.array_equal(buf, c), "the input was changed")
        buf[:] = 0
    if rng.random() < .5:
        node.stop_training()
    got = node.get_eta(t=t)
    check(not node.is_training(), "still training")
    check(got.shape == (n,) and np.allclose(got, want, rtol=1e-6), "eta %r instead of %r", got, want)
    check(np.array_equal(node.get_eta(t=t), got), "the second answer differs")
    check(np.allclose(node.get_eta(), want / t, rtol=1e-6), "eta for t=1")
    check(np.array_equal(node.execute(x), x), "execution changes the data")
