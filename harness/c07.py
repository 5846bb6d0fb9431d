"""C07 on concrete data: accumulators filled in chunks against the definition on the whole data."""
import numpy as np
import mdp
from mdp.utils import CovarianceMatrix, DelayCovarianceMatrix, CrossCovarianceMatrix, VartimeCovarianceMatrix
from .base import *


def data(rng, n, cols, dt="d"):
    scale = 10. ** rng.randint(-2, 2)
    return (np.array([[rng.gauss(rng.choice([0, 3]), 1) for _ in range(cols)] for _ in range(n)]).reshape(n, cols) * scale).astype(dt)


def cuts(rng, n, least=1, most=6):
    """random chunk boundaries with chunks of at least `least` rows"""
    r, out = n, []
    while r:
        k = rng.randint(least, max(least, min(r, rng.choice([least, least + 1, 10]))))
        if r - k < least:
            k = r
        out.append(k)
        r -= k
    return out


def close(a, b, what):
    a, b = np.asarray(a, dtype="d"), np.asarray(b, dtype="d")
    check(a.shape == b.shape, "%s: shape %r instead of %r", what, a.shape, b.shape)
    tol = 1e-8 * max(1., float(np.max(np.abs(b))) if b.size and np.all(np.isfinite(b)) else 1.)
    check(np.allclose(a, b, rtol=1e-7, atol=tol, equal_nan=True), "%s: %r instead of %r", what, a, b)


def fill(rng, acc, x, sizes, *more):
    p = 0
    for k in sizes:
        args = [z[p:p + k].copy() for z in (x,) + more]
        keep = [a.copy() for a in args]
        acc.update(*args)
        for a, b in zip(args, keep):
            check(np.array_equal(a, b), "update changed its input")
        p += k


@scenario("covariance", n=1500, thorough=30)
def cov(rng, note):
    cols = rng.randint(1, 4)
    bias = rng.random() < .5
    kw = rng.choice([{}, {"dtype": "d"}, {"dtype": np.dtype("d")}])
    c = CovarianceMatrix(bias=bias, **kw)
    for rnd in range(rng.choice([1, 2, 3])):
        n = rng.randint(2, 40)
        x = data(rng, n, cols)
        sizes = cuts(rng, n)
        center = rng.choice([None, True, False])
        note(rnd=rnd, x=x, sizes=sizes, bias=bias, center=center)
        fill(rng, c, x, sizes)
        m, a, t = c.fix() if center is None else c.fix(center=center)
        d = n if bias else n - 1
        xc = x if center is False else x - x.mean(axis=0)
        want = xc.T.dot(xc) / d
        check(t == n, "count %r instead of %r", t, n)
        close(a, x.mean(axis=0), "mean")
        s = np.abs(x).max() ** 2
        check(np.allclose(m, want, rtol=1e-7, atol=1e-9 * max(s, 1e-12) * n), "covariance %r instead of %r", m, want)
        if rng.random() < .3:
            cols = rng.randint(1, 4)       # a reset accumulator is as new


@scenario("cross", n=1000, thorough=30)
def cross(rng, note):
    cx, cy = rng.randint(1, 3), rng.randint(1, 3)
    bias = rng.random() < .5
    c = CrossCovarianceMatrix(bias=bias)
    for rnd in range(rng.choice([1, 2])):
        n = rng.randint(2, 30)
        x, y = data(rng, n, cx), data(rng, n, cy)
        sizes = cuts(rng, n)
        note(rnd=rnd, x=x, y=y, sizes=sizes, bias=bias)
        fill(rng, c, x, sizes, y)
        m, ax, ay, t = c.fix()
        d = n if bias else n - 1
        want = (x - x.mean(axis=0)).T.dot(y - y.mean(axis=0)) / d
        check(t == n, "count %r instead of %r", t, n)
        close(ax, x.mean(axis=0), "mean of x")
        close(ay, y.mean(axis=0), "mean of y")
        s = np.abs(x).max() * np.abs(y).max()
        check(np.allclose(m, want, rtol=1e-7, atol=1e-9 * max(s, 1e-12) * n), "cross-covariance %r instead of %r", m, want)
        if rng.random() < .4:
            c.update(x, y)
            raises(mdp.MDPException, c.update, x, y[:-1])
            m2, ax2, ay2, t2 = c.fix()
            check(t2 == n, "a refused chunk was counted")
            close(ax2, x.mean(axis=0), "mean of x after a refused chunk")


@scenario("delay", n=1500, thorough=30)
def delay(rng, note):
    cols = rng.randint(1, 3)
    lag = rng.choice([0, 1, 1, 2, 3, 5])
    bias = rng.random() < .5
    c = DelayCovarianceMatrix(lag, bias=bias)
    for rnd in range(rng.choice([1, 2])):
        n = rng.randint(lag + 2, 40)
        x = data(rng, n, cols)
        sizes = cuts(rng, n, lag + 1)
        note(rnd=rnd, x=x, sizes=sizes, bias=bias, lag=lag)
        p, a, b = 0, [], []
        for k in sizes:
            for r in range(p, p + k - lag):
                a.append(x[r])
                b.append(x[r + lag])
            p += k
        a, b = np.array(a), np.array(b)
        t0 = len(a)
        if t0 < 2:
            raise Skip()
        fill(rng, c, x, sizes)
        if lag and rng.random() < .3:
            raises(mdp.MDPException, c.update, x[:lag])
        A = data(rng, rng.randint(1, 3), cols) if rng.random() < .3 else None
        m, ma, mb, t = c.fix() if A is None else c.fix(A)
        want = (a - a.mean(axis=0)).T.dot(b - b.mean(axis=0)) / (t0 if bias else t0 - 1)
        if A is not None:
            want = A.dot(want).dot(A.T)
        check(t == t0, "pair count %r instead of %r", t, t0)
        close(ma, a.mean(axis=0), "mean of the signal")
        close(mb, b.mean(axis=0), "mean of the delayed signal")
        s = np.abs(x).max() ** 2 * (1 if A is None else np.abs(A).max() ** 2 * cols ** 2)
        check(np.allclose(m, want, rtol=1e-6, atol=1e-9 * max(s, 1e-12) * n), "delayed covariance %r instead of %r", m, want)


@scenario("vartime", n=1500, thorough=30)
def vartime(rng, note):
    cols = rng.randint(1, 3)
    c = VartimeCovarianceMatrix(**rng.choice([{}, {"dtype": "d"}]))
    for rnd in range(rng.choice([1, 2, 3])):
        n = rng.randint(3, 30)
        x = data(rng, n, cols)
        sizes = cuts(rng, n)
        how = rng.choice(["unit", "constant", "array", "array", "independent"])
        g = np.array([rng.uniform(.1, 3) for _ in range(n)])      # g[r]: time before sample r
        if how in ("unit", "independent"):
            g[:] = 1.
        elif how == "constant":
            g[:] = rng.choice([2, .5, 3.25])
        first_full = rng.random() < .3
        note(rnd=rnd, x=x, sizes=sizes, how=how, g=g, first_full=first_full)
        p = 0
        w = np.array([0.] + [1.] * (n - 1))        # weight of the interval before sample r
        for i, k in enumerate(sizes):
            xx = x[p:p + k].copy()
            if how == "unit":
                c.update(xx)
            elif how == "constant":
                c.update(xx, g[0])
            elif how == "independent":
                c.update(xx, time_dep=False)
                w[p] = 0.
            elif i == 0 and not first_full:
                c.update(xx, g[1:k].copy())
            else:
                c.update(xx, g[p:p + k].copy())
            p += k
        wg = w * g
        if wg.sum() == 0:
            c.fix()
            continue
        xa, xb = x[:-1], x[1:]
        ww = wg[1:, None]
        T = wg.sum()
        mean = ((xa + xb) * ww).sum(axis=0) / 2. / T
        second = ((xa * ww).T.dot(xa) + (xb * ww).T.dot(xb)) / 2. / T
        center = rng.choice([None, True, False])
        m, a, t = c.fix() if center is None else c.fix(center=center)
        want = second if center is False else second - np.outer(mean, mean)
        close(t, T, "length of the series")
        close(a, mean, "mean")
        s = np.abs(x).max() ** 2
        check(np.allclose(m, want, rtol=1e-7, atol=1e-9 * max(s, 1e-12)), "covariance %r instead of %r", m, want)
