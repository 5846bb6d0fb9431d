"""C20 on real nodes: every sample recomputed one by one."""
import fractions
import math
import os
import pickle
import shutil
import tempfile
import numpy as np
import mdp
from mdp.nodes import TimeFramesNode, TimeDelayNode, TimeDelaySlidingWindowNode, CutoffNode, HistogramNode, AdaptiveCutoffNode
from .base import *


def series(rng, m, n, dtype=None):
    dtype = dtype or rng.choice(["d", "d", "i8", "f"])
    return np.array([[rng.randrange(-99, 100) for _ in range(n)] for _ in range(m)]).reshape((m, n)).astype(dtype)


@scenario("time frames", n=400, thorough=10)
def frames(rng, note):
    k, gap, n = rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(1, 4)
    m = rng.randrange(1, (k - 1) * gap + 8)
    x = series(rng, m, n)
    note(frames=k, gap=gap, x=x)
    node = TimeFramesNode(k, gap)
    raises(mdp.NodeException, node.set_output_dim, n * k) if rng.random() < .3 else None
    keep = x.copy()
    rows = max(0, m - (k - 1) * gap)
    y = node.execute(x)
    check(node.output_dim == n * k, "output_dim %r", node.output_dim)
    want = np.array([np.concatenate([x[t + f * gap] for f in range(k)]) for t in range(rows)]).reshape((rows, n * k))
    check(y.shape == want.shape and np.array_equal(y, want), "%r instead of %r", y, want)
    check(y.dtype == x.dtype, "dtype %r", y.dtype)
    check(np.array_equal(x, keep), "the input was changed")
    if rows:
        back = node.pseudo_inverse(y)
        check(np.array_equal(y, want), "the input was changed")
        check(back.shape == x.shape, "shape of the pseudo-inverse %r", back.shape)
        known = {t + f * gap for t in range(rows) for f in range(k)}
        for t in range(m):
            check(np.array_equal(back[t], x[t] if t in known else np.zeros(n)), "row %d of the pseudo-inverse: %r instead of %r", t, back, x)


@scenario("time delay", n=400, thorough=10)
def delay(rng, note):
    k, gap, n = rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(1, 4)
    m = rng.randrange(1, (k - 1) * gap + 8)
    x = series(rng, m, n)
    note(frames=k, gap=gap, x=x)
    want = np.array([np.concatenate([x[t - f * gap] if t >= f * gap else np.zeros(n) for f in range(k)]) for t in range(m)])
    keep = x.copy()
    node = TimeDelayNode(k, gap)
    for _ in range(2):
        y = node.execute(x)
        check(y.shape == want.shape and np.array_equal(y, want), "%r instead of %r", y, want)
        check(np.array_equal(x, keep), "the input was changed")
        check(y.dtype == x.dtype, "dtype %r", y.dtype)
    slide = TimeDelaySlidingWindowNode(k, gap)
    got = []
    for t in range(m):
        row = x[t:t + 1].copy()
        r = slide.execute(row)
        check(r.shape == (1, n * k) and np.array_equal(row, x[t:t + 1]), "row")
        got.append(r[0].copy())
        r[:] = 77
        row[:] = 55
    check(np.array_equal(np.array(got), want), "sliding window: %r instead of %r", np.array(got), want)


@scenario("cutoff", n=300, thorough=10)
def cutoff(rng, note):
    m, n = rng.randrange(1, 8), rng.randrange(1, 4)
    x = series(rng, m, n)
    lo, hi = sorted([rng.randrange(-99, 100), rng.randrange(-99, 100)])
    lo, hi = rng.choice([None, lo, lo, 0]), rng.choice([None, hi, hi])
    if lo is not None and hi is not None and hi < lo:
        raise Skip()
    note(x=x, lower=lo, upper=hi)
    keep = x.copy()
    y = CutoffNode(lo, hi).execute(x)
    want = np.array([[max(v, lo) if lo is not None else v for v in r] for r in x.tolist()])
    want = np.array([[min(v, hi) if hi is not None else v for v in r] for r in want.tolist()])
    check(y.shape == want.shape and np.array_equal(y, want), "%r instead of %r", y, want)
    check(np.array_equal(x, keep), "the input was changed")


def chunks(rng, n, dtype, count):
    return [series(rng, rng.randrange(1, 12), n, dtype) for _ in range(count)]


@scenario("histogram", n=200, thorough=10)
def histogram(rng, note):
    n, dtype = rng.randrange(1, 4), rng.choice(["d", "i8", "f"])
    cs = chunks(rng, n, dtype, rng.randrange(1, 4))
    frac, disk, reuse = rng.choice([1.0, 1.0, .5, 0.]), rng.random() < .3, rng.random() < .5
    note(chunks=cs, fraction=frac, disk=disk, reuse=reuse)
    d = tempfile.mkdtemp()
    try:
        name = os.path.join(d, "hist")
        node = HistogramNode(hist_fraction=frac, hist_filename=name if disk else None)
        for c in cs:
            buf = c.copy()
            node.train(buf)
            check(np.array_equal(buf, c), "the input was changed")
            if reuse:
                buf[:] = 0
        before = None if node.data_hist is None else node.data_hist.copy()
        node.stop_training()
        if disk:
            check(node.data_hist is None, "kept in memory")
            with open(name, "rb") as f:
                hist = pickle.load(f)
        else:
            hist = node.data_hist
        check(np.array_equal(before, hist), "changed when the training stopped")
        want = np.concatenate(cs)
        if frac == 1:
            check(np.array_equal(hist, want), "history %r instead of %r", hist, want)
        else:
            i = 0       # a subsequence
            for r in hist:
                while i < len(want) and not np.array_equal(want[i], r):
                    i += 1
                check(i < len(want), "history %r is no part of %r", hist, want)
                i += 1
            check(frac > 0 or len(hist) == 0, "a part of nothing")
        x = series(rng, 3, n, dtype)
        check(np.array_equal(node.execute(x), x), "execution changes the data")
    finally:
        shutil.rmtree(d)


@scenario("adaptive cutoff", n=500, thorough=10)
def adaptive(rng, note):
    n, dtype = rng.randrange(1, 4), rng.choice(["d", "i8"])
    total = rng.randrange(1, 30)
    cols = [rng.sample(range(-200, 200), total) if rng.random() < .8 else [rng.randrange(-5, 5) for _ in range(total)] for _ in range(n)]
    x = np.array(cols).T.astype(dtype)
    cuts = sorted(rng.sample(range(1, total), min(rng.randrange(0, 3), total - 1)))
    fr = lambda: rng.choice([None, 0., .5, .25, .1, .2, .9, rng.randrange(0, total) / total, rng.random()])
    lo, hi = fr(), fr()
    if (lo or 0) + (hi or 0) > .99:
        raise Skip()
    note(x=x, cuts=cuts, lower=lo, upper=hi)
    node = AdaptiveCutoffNode(lower_cutoff_fraction=lo, upper_cutoff_fraction=hi)
    for c in np.split(x, cuts):
        buf = c.copy()
        node.train(buf)
        buf[:] = 0
    node.stop_training()
    check(np.array_equal(node.data_hist, x), "history")
    test = np.array([[rng.randrange(-210, 210) for _ in range(n)] for _ in range(6)] + x.tolist()).astype(dtype)
    keep = test.copy()
    y = node.execute(test)
    check(np.array_equal(test, keep), "the input was changed")

    def count(f):
        return {math.floor(f * total), math.floor(fractions.Fraction(f).limit_denominator(10 ** 6) * total)}
    ok = [(a, b) for a in count(lo or 0) for b in count(hi or 0)]
    for c in range(n):
        s = sorted(x[:, c].tolist())
        wants = []
        for a, b in ok:
            l, h = s[a] if lo else -math.inf, s[total - 1 - b] if hi else math.inf
            wants.append([min(max(v, l), h) for v in test[:, c].tolist()])
        check(y[:, c].tolist() in wants, "variable %d: %r instead of %r", c, y[:, c].tolist(), wants)
