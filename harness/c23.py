"""C23 on real nodes: the algebraic definitions checked on data of full rank."""
import numpy as np
import mdp
from mdp.nodes import PCANode, WhiteningNode, SFANode, SFA2Node
from .base import *

TOL = 1e-6


def close(a, b, tol=TOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= tol * (1 + np.abs(b).max()))


def full_rank(rng, m, n):
    """random data, mixed, with a spread of variances"""
    r = np.random.RandomState(rng.randrange(10 ** 6))
    x = r.randn(m, n) * np.linspace(1, 3, n)
    q = np.linalg.qr(r.randn(n, n))[0]
    return x.dot(q) + r.randn(n)


def chunks(rng, x):
    """the rows of x, cut at random"""
    m = len(x)
    cuts = sorted(set([0, m] + [rng.randrange(1, m) for _ in range(rng.randrange(0, 4))])) if m > 1 else [0, m]
    return [x[a:b] for a, b in zip(cuts, cuts[1:])]


def covariance(y):
    c = y - y.mean(axis=0)
    return c.T.dot(c) / (len(y) - 1)


def variances(x):
    return np.sort(np.linalg.eigvalsh(covariance(x)))[::-1]


def expected_number(lam, want):
    """(smallest number of components reaching the fraction, is that clear of rounding?)"""
    c = np.cumsum(lam) / lam.sum()
    k = int(np.sum(c < want)) + 1
    return min(k, len(lam)), np.abs(c - want).min() > 1e-9


def make(rng, note, cls):
    n = rng.randrange(1, 6)
    m = rng.randrange(n + 2, 40)
    x = full_rank(rng, m, n)
    kind = rng.choice(["all", "int", "float", "one"])
    out = {"all": None, "int": rng.randrange(1, n + 1), "float": rng.choice([.3, .5, .8, .9, .99]), "one": 1.0}[kind]
    kw = dict(svd=rng.random() < .3, reduce=rng.random() < .3, dtype=rng.choice([None, "d"]))
    if kw["reduce"] and rng.random() < .7:
        lam = variances(x)
        kw.update(var_abs=rng.choice([1e-15, .9 * lam[0], .5 * lam[0], .9 * lam[-1]]), var_rel=rng.choice([1e-12, .2, .6]), var_part=rng.choice([None, .01, .05]))
    cs = chunks(rng, x)
    note(node=cls.__name__, output_dim=out, kw=kw, x=x, chunks=[len(c) for c in cs])
    node = cls(output_dim=out, **kw)
    keep = x.copy()
    for c in cs:
        node.train(c)
    node.stop_training()
    check(np.array_equal(x, keep), "training changed the data")
    lam = variances(x)
    k, full = node.output_dim, n if kind != "int" else out
    if kind == "float":
        full, clear = expected_number(lam, out)
        if clear and "var_abs" not in kw:
            check(k == full, "%r components kept, %d reach the fraction %r of %r", k, full, out, lam)
        full = full if clear else k
    elif kind == "one":
        # rounding may leave the last one out
        check(k <= n, "output_dim %r of %d", k, n)
        full = n if k == n or "var_abs" in kw else k
        check("var_abs" in kw or lam[:k].sum() >= (1 - 1e-9) * lam.sum(), "output_dim %r of %d", k, n)
    elif "var_abs" not in kw:
        check(k == full, "output_dim %r instead of %d", k, full)
    if kw["reduce"] and "var_abs" in kw:
        keep = [l for l in lam[:full] if l > kw["var_abs"] and l / lam[0] > kw["var_rel"] and (not kw["var_part"] or l / lam.sum() > kw["var_part"])]
        if all(abs(l - kw["var_abs"]) > 1e-9 and abs(l / lam[0] - kw["var_rel"]) > 1e-9 and abs(l / lam.sum() - (kw["var_part"] or 0)) > 1e-9 for l in lam):
            check(k == len(keep), "%r components kept of %r, %d are large enough", k, lam, len(keep))
    check(node.d.shape == (k,) and node.v.shape == (n, k), "shapes %r %r", node.d.shape, node.v.shape)
    check(close(node.d, lam[:k]), "eigenvalues %r instead of %r", node.d, lam[:k])
    check(np.all(np.diff(node.d) <= 0), "not in descending order: %r", node.d)
    check(close(node.avg, x.mean(axis=0).reshape(1, n)), "mean")
    ev = node.get_explained_variance()
    check(close(ev, lam[:k].sum() / lam.sum()), "explained variance %r", ev)
    return node, x, n, k, lam


@scenario("principal components", n=400, thorough=10)
def pca(rng, note):
    node, x, n, k, lam = make(rng, note, PCANode)
    v = node.get_projmatrix()
    check(close(v.T.dot(v), np.eye(k)), "the directions are not orthonormal: %r", v)
    y = node.execute(x)
    check(y.shape == (len(x), k), "shape %r", y.shape)
    check(close(covariance(y), np.diag(node.d)), "output covariance %r", covariance(y))
    check(close(y.mean(axis=0), np.zeros(k)), "output mean %r", y.mean(axis=0))
    check(close(node.get_projmatrix(0), v.T) and close(node.get_recmatrix(), v.T) and close(node.get_recmatrix(0), v), "matrices")
    common(rng, node, x, y, n, k)


@scenario("fractions reached exactly", n=100, thorough=10)
def fractions(rng, note):
    """the smallest number of components that reaches the fraction, where a number of them reaches it exactly"""
    counts = rng.choice([[1, 1], [2, 1, 1], [1, 1, 1, 1], [4, 2, 1, 1], [4, 4, 2, 2, 2, 2], [1] * 8, [8, 4, 2, 2]])
    k = rng.randrange(1, len(counts) + 1)
    want = sum(counts[:k]) / float(sum(counts))
    scale = 2. ** rng.randrange(-3, 4)
    e = np.eye(len(counts))
    order = list(range(len(counts)))
    rng.shuffle(order)
    # variances in the ratio of the counts, nothing is rounded
    rows = [s * scale * e[order[j]] for j, c in enumerate(counts) for _ in range(c) for s in (1, -1)]
    rows += [0 * e[0]] * (1 if len(rows) in (4, 8, 16, 32) else 33 - len(rows))
    rng.shuffle(rows)
    x = np.array(rows)
    svd, cls = rng.random() < .3, rng.choice([PCANode, WhiteningNode])
    note(counts=counts, want=want, svd=svd, node=cls.__name__, scale=scale, order=order)
    node = cls(output_dim=want, svd=svd)
    for c in chunks(rng, x):
        node.train(c)
    node.stop_training()
    check(node.output_dim == k, "%r components kept, %d reach the fraction %r", node.output_dim, k, want)


@scenario("whitening", n=400, thorough=10)
def whiten(rng, note):
    node, x, n, k, lam = make(rng, note, WhiteningNode)
    y = node.execute(x)
    check(y.shape == (len(x), k), "shape %r", y.shape)
    check(close(covariance(y), np.eye(k)), "output covariance %r", covariance(y))
    check(close(y.mean(axis=0), np.zeros(k)), "output mean %r", y.mean(axis=0))
    e = node.get_eigenvectors()
    check(close(e.T.dot(e), np.eye(k)), "eigenvectors %r", e)
    check(close(node.get_recmatrix(0), node.get_recmatrix().T), "matrices")
    check(close(node.get_recmatrix().dot(node.get_projmatrix()), np.eye(k)), "the back-projection is no inverse")
    common(rng, node, x, y, n, k)


def common(rng, node, x, y, n, k):
    z = node.inverse(y)
    check(z.shape == x.shape, "shape %r", z.shape)
    if k == n:
        check(close(z, x), "reconstruction %r of %r", z, x)
        new = np.random.RandomState(rng.randrange(10 ** 6)).randn(3, n)
        check(close(node.inverse(node.execute(new)), new), "reconstruction of new data")
    check(close(node.execute(z), y), "execute of the reconstruction differs")
    p = rng.randrange(1, k + 1)
    check(close(node.execute(x, n=p), y[:, :p]), "execute with n=%d", p)
    yp = y[:, :p]
    zero = np.zeros_like(y)
    zero[:, :p] = yp
    check(close(node.inverse(yp.copy()), node.inverse(zero)), "inverse of %d components", p)
    check(close(node.inverse(yp.copy(), n=p), node.inverse(zero)), "inverse with n=%d", p)


def slowness(x, y):
    return ((y[1:] - y[:-1]) ** 2).sum(axis=0)


@scenario("slow features", n=400, thorough=10)
def sfa(rng, note):
    n = rng.randrange(1, 5)
    m = rng.randrange(2 * n + 4, 50)
    x = full_rank(rng, m, n)
    out = rng.choice([None, rng.randrange(1, n + 1)])
    meth = rng.choice(["none", "none", "none", "reg", "pca", "svd", "auto"])
    note(x=x, output_dim=out, method=meth)
    k = out or n
    one = SFANode(output_dim=out, rank_deficit_method=meth)
    keep = x.copy()
    one.train(x)
    one.stop_training()
    check(np.array_equal(x, keep), "training changed the data")
    check(one.output_dim == k and one.sf.shape == (n, k), "output_dim %r, %r", one.output_dim, one.sf.shape)
    y = one.execute(x)
    check(close(y.mean(axis=0), np.zeros(k)), "mean %r", y.mean(axis=0))
    check(close(covariance(y), np.eye(k), 1e-5), "covariance %r", covariance(y))
    s = slowness(x, y)
    check(np.all(np.diff(s) >= -1e-7 * (1 + s.max())), "not ordered by slowness: %r", s)
    check(np.all(np.diff(one.d) >= 0), "eigenvalues %r", one.d)
    check(close(one.d, s / (m - 2), 1e-5) if m > 2 else True, "eigenvalues %r instead of %r", one.d, s / (m - 2))
    check(close(one.get_eta_values(t=2), 2 / (2 * np.pi) * np.sqrt(one.d)), "eta values")
    # the slowest: compare with the definition
    dx = np.diff(x, axis=0)
    w = np.linalg.eigvals(np.linalg.solve(covariance(x), dx.T.dot(dx) / (m - 2)))
    check(close(one.d, np.sort(w.real)[:k], 1e-5), "eigenvalues %r instead of %r", one.d, np.sort(w.real)[:k])
    p = rng.randrange(1, k + 1)
    check(close(one.execute(x, n=p), y[:, :p]), "execute with n=%d", p)
    if k == n:
        check(close(one.inverse(y), x, 1e-5), "inverse")
    # connected chunks: the last sample of each is sent again with the next
    two = SFANode(output_dim=out, rank_deficit_method=meth, include_last_sample=rng.random() < .5)
    cuts = sorted(set([0, m - 1] + [rng.randrange(1, m - 1) for _ in range(rng.randrange(1, 4))]))
    parts = list(zip(cuts, cuts[1:]))
    note(connected=parts)
    order = list(parts)
    if rng.random() < .5:
        rng.shuffle(order)
    for a, b in order:
        c = x[a:b + 1]
        last = b == m - 1
        if two._include_last_sample == last and rng.random() < .5:
            two.train(c)
        else:
            two.train(c, include_last_sample=last)
    two.stop_training()
    check(two.tlen == one.tlen == m, "samples %r %r", two.tlen, one.tlen)
    check(close(two.d, one.d, 1e-5), "eigenvalues depend on the chunks: %r, %r", two.d, one.d)
    check(close(two.avg, one.avg), "mean depends on the chunks")
    y2 = two.execute(x)
    sign = np.sign((y2 * y).sum(axis=0))
    if n == 1 or np.diff(np.sort(w.real)).min() > 1e-3 * np.abs(w).max():
        check(close(y2 * sign, y, 1e-4), "outputs depend on the chunks")
    check(close(covariance(y2), np.eye(k), 1e-5), "covariance %r", covariance(y2))


@scenario("separate sequences", n=200, thorough=10)
def separate(rng, note):
    """several sequences: derivatives only inside each"""
    n = rng.randrange(1, 4)
    seqs = [full_rank(rng, rng.randrange(2, 12), n) for _ in range(rng.randrange(2, 5))] + [full_rank(rng, 12, n)]
    inc = rng.random() < .6
    note(seqs=seqs, include=inc)
    node = SFANode(include_last_sample=inc)
    raises(mdp.TrainingException, node.train, seqs[0][:1])
    for s in seqs:
        node.train(s)
    node.stop_training()
    x = np.vstack([s if inc else s[:-1] for s in seqs])
    dx = np.vstack([np.diff(s, axis=0) for s in seqs])
    y = node.execute(x)
    check(close(y.mean(axis=0), np.zeros(n)), "mean %r", y.mean(axis=0))
    check(close(covariance(y), np.eye(n), 1e-5), "covariance %r", covariance(y))
    d = node.execute(dx) + node._bias
    check(close(d.T.dot(d) / (len(dx) - 1), np.diag(node.d), 1e-5), "derivatives %r", d.T.dot(d) / (len(dx) - 1))
    check(np.all(np.diff(node.d) >= 0), "eigenvalues %r", node.d)


@scenario("quadratic slow features", n=100, thorough=10)
def sfa2(rng, note):
    n = rng.randrange(1, 3)
    x = full_rank(rng, rng.randrange(30, 60), n)
    full = n + n * (n + 1) // 2
    out = rng.choice([None, rng.randrange(1, full + 1)])
    note(x=x, output_dim=out)
    node = SFA2Node(output_dim=out)
    node.train(x)
    node.stop_training()
    k = out or full
    y = node.execute(x)
    check(y.shape == (len(x), k), "shape %r", y.shape)
    check(close(y.mean(axis=0), np.zeros(k), 1e-5), "mean %r", y.mean(axis=0))
    check(close(covariance(y), np.eye(k), 1e-4), "covariance %r", covariance(y))
    s = slowness(x, y)
    check(np.all(np.diff(s) >= -1e-5 * (1 + s.max())), "not ordered by slowness: %r", s)
    p = rng.randrange(1, k + 1)
    check(close(node.execute(x, n=p), y[:, :p]), "execute with n=%d", p)
    u = rng.randrange(k)
    q = node.get_quadratic_form(u)
    check(close(np.ravel(q.apply(x)), y[:, u], 1e-5), "quadratic form of unit %d", u)


@scenario("eigenproblems", n=300, thorough=10)
def symeig(rng, note):
    n = rng.randrange(1, 6)
    a, b = covariance(full_rank(rng, 20, n)), covariance(full_rank(rng, 20, n))
    general = rng.random() < .5
    lo = rng.randrange(1, n + 1)
    hi = rng.randrange(lo, n + 1)
    r = rng.choice([None, (lo, hi)])
    dt = rng.choice(["d", "f"])
    a, b = a.astype(dt), b.astype(dt)
    note(a=a, b=b if general else None, range=r)
    tol = 1e-6 if dt == "d" else 1e-3
    w, z = mdp.utils.symeig(a.copy(), b.copy() if general else None, range=r, overwrite=0)
    m = np.linalg.solve(b.astype("d"), a.astype("d")) if general else a.astype("d")
    full = np.sort(np.linalg.eigvals(m).real)
    want = full if r is None else full[lo - 1:hi]
    check(close(w, want, tol), "eigenvalues %r instead of %r", w, want)
    bb = b if general else np.eye(n)
    check(z.shape == (n, len(want)), "shape %r", z.shape)
    check(close(z.T.dot(bb).dot(z), np.eye(len(want)), tol), "not orthonormal")
    check(close(a.dot(z), bb.dot(z) * w, tol), "no eigenvectors")
    if not general:
        w2, z2 = mdp.utils.nongeneral_svd(a.copy(), range=r)
        check(close(w2, want, tol), "svd: eigenvalues %r instead of %r", w2, want)
        check(close(z2.T.dot(z2), np.eye(len(want)), tol) and close(a.dot(z2), z2 * w2, tol), "svd: no eigenvectors")
