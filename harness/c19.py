"""C19 on real expansions: every monomial by brute force, functions and Gaussians recomputed."""
import itertools
import math
import numpy as np
import mdp
from mdp.nodes import PolynomialExpansionNode, QuadraticExpansionNode, GeneralExpansionNode, RBFExpansionNode
from mdp.nodes.expansion_nodes import nmonomials, expanded_dim
from .base import *

PRIMES = [2, 3, 5, 7, 11, 13, 17]


@scenario("monomials", n=300, thorough=15)
def monomials(rng, note):
    degree, dim, m = rng.randrange(1, 7), rng.randrange(1, 7), rng.randrange(1, 4)
    if math.comb(dim + degree, degree) > 1000:
        raise Skip()
    quad = degree == 2 and rng.random() < .5
    dtype = rng.choice(["d", "d", "i8", "f"])
    x = np.array([PRIMES[:dim]] + [[rng.randrange(-3, 4) for _ in range(dim)] for _ in range(m - 1)])
    if dtype == "f":
        x = np.array([[rng.randrange(-3, 4) for _ in range(dim)] for _ in range(m)])
    x = x.astype(dtype)
    early = rng.random() < .5
    note(degree=degree, dim=dim, quad=quad, x=x, early=early)
    node = QuadraticExpansionNode(**({"input_dim": dim} if early else {})) if quad else PolynomialExpansionNode(degree, **({"input_dim": dim} if early else {}))
    count = sum(math.comb(dim + k - 1, k) for k in range(1, degree + 1))
    if early:
        check(node.output_dim == count, "announced %r columns instead of %r", node.output_dim, count)
    raises(mdp.NodeException, node.set_output_dim, count + rng.choice([0, 1]))
    keep = x.copy()
    for form in range(2):
        y = node.execute(x if form == 0 else x[::-1])
        if form == 1:
            y = y[::-1]
        check(node.output_dim == count, "announced %r columns instead of %r", node.output_dim, count)
        check(y.shape == (m, count), "shape %r", y.shape)
        check(y.dtype == x.dtype, "dtype %r", y.dtype)
        check(np.array_equal(x, keep), "the input was changed")
        check(np.array_equal(y[:, :dim], x), "the inputs themselves come first")
        k = 0
        for d in range(1, degree + 1):
            want = sorted(tuple(int(np.prod([int(row[v]) for v in c])) for row in x.tolist()) for c in itertools.combinations_with_replacement(range(dim), d))
            got = sorted(tuple(int(v) for v in col) for col in y[:, k:k + len(want)].T)
            check(got == want, "degree %d: %r instead of %r", d, got[:20], want[:20])
            k += len(want)


@scenario("monomials of many variables or high degree", n=14, thorough=8)
def many(rng, note):
    degree, dim = rng.choice([(3, rng.randrange(12, 31)), (4, rng.randrange(8, 18)), (5, rng.randrange(6, 14)), (6, rng.randrange(5, 10)), (7, rng.randrange(4, 8)),
                              (8, rng.randrange(3, 7)), (rng.randrange(9, 14), rng.randrange(2, 4))])
    note(degree=degree, dim=dim)
    r = np.random.RandomState(rng.randrange(10 ** 6))
    x = r.uniform(.5, 2, (1, dim))
    y = PolynomialExpansionNode(degree).execute(x)
    count = math.comb(dim + degree, degree) - 1
    check(y.shape == (1, count), "shape %r instead of %r columns", y.shape, count)
    k = 0
    for d in range(1, degree + 1):
        want = np.sort([math.prod(c) for c in itertools.combinations_with_replacement(x[0].tolist(), d)])
        got = np.sort(y[0, k:k + len(want)])
        check(np.allclose(got, want, rtol=1e-9), "the monomials of degree %d in %d variables", d, dim)
        k += len(want)


@scenario("numbers of monomials", n=200, thorough=10)
def numbers(rng, note):
    d, n = rng.choice([(rng.randrange(0, 9), rng.randrange(1, 12)), (rng.randrange(0, 60), rng.randrange(1, 60)), (rng.randrange(0, 9), rng.randrange(1, 5000))])
    note(degree=d, variables=n)
    check(nmonomials(d, n) == math.comb(n + d - 1, d), "%r monomials", nmonomials(d, n))
    check(expanded_dim(d, n) == math.comb(n + d, d) - 1, "%r dimensions", expanded_dim(d, n))
    check(mdp.utils.comb(n, d) == math.comb(n, d), "comb")
    if d:
        check(PolynomialExpansionNode(d, input_dim=n).output_dim == math.comb(n + d, d) - 1, "output_dim")


FUNCS = [("x", lambda x: x, lambda r: list(r)), ("x*x", lambda x: x * x, lambda r: [a * a for a in r]),
         ("sum", lambda x: x.sum(axis=1).reshape((-1, 1)), lambda r: [sum(r)]),
         ("neighbours", lambda x: x[:, 1:] * x[:, :-1], lambda r: [a * b for a, b in zip(r[1:], r[:-1])]),
         ("const", lambda x: np.ones((len(x), 1)), lambda r: [1]), ("none", lambda x: x[:, :0], lambda r: []),
         ("swap", lambda x: x[:, ::-1], lambda r: list(r)[::-1])]


@scenario("functions", n=300, thorough=10)
def functions(rng, note):
    dim, m = rng.randrange(1, 6), rng.randrange(1, 5)
    fs = [rng.choice(FUNCS) for _ in range(rng.randrange(1, 6))]
    if not sum(len(f[2]([0] * dim)) for f in fs):
        raise Skip()
    early = rng.random() < .5
    x = np.array([[float(rng.randrange(-9, 10)) for _ in range(dim)] for _ in range(m)])
    note(funcs=[f[0] for f in fs], x=x, early=early)
    node = GeneralExpansionNode([f[1] for f in fs], **({"input_dim": dim} if early else {}))
    want = np.array([sum((f[2](list(r)) for f in fs), []) for r in x])
    keep = x.copy()
    if early:
        check(node.output_dim == want.shape[1], "announced %r", node.output_dim)
    raises(mdp.NodeException, node.set_output_dim, want.shape[1] + 1)
    for _ in range(2):
        y = node.execute(x)
        check(node.output_dim == want.shape[1], "announced %r", node.output_dim)
        check(np.array_equal(y, want), "%r instead of %r", y, want)
        check(np.array_equal(x, keep), "the input was changed")
    check(list(node.output_sizes(dim)) == [len(f[2]([0] * dim)) for f in fs], "sizes")
    flow = mdp.Flow([node, PolynomialExpansionNode(1)])
    check(np.array_equal(flow.execute(x), want), "inside a flow")


@scenario("Gaussians", n=300, thorough=10)
def gaussians(rng, note):
    dim, m, k = rng.randrange(1, 4), rng.randrange(1, 5), rng.randrange(1, 5)
    num = rng.choice([lambda: float(rng.randrange(-5, 6)) / 2, lambda: rng.randrange(-3, 4)])
    centers = [[num() for _ in range(dim)] for _ in range(k)]
    kind = rng.choice(["one", "list", "matrix", "matrices", "wrong", "wrong matrix"])

    def matrix(d):
        a = np.array([[num() for _ in range(d)] for _ in range(d)])
        return (a.dot(a.T) + 2 * np.eye(d, dtype=a.dtype)).tolist()
    whole = rng.random() < .5
    size = (lambda: rng.randrange(1, 4)) if whole else (lambda: rng.randrange(1, 9) / 2)
    sizes = size() if kind == "one" else [size() for _ in range(k)] if kind == "list" else matrix(dim) if kind == "matrix" else [matrix(dim) for _ in range(k)]
    x = np.array([[float(rng.randrange(-5, 6)) for _ in range(dim)] for _ in range(m)])
    note(centers=centers, sizes=sizes, kind=kind, x=x)
    if kind == "wrong":
        raises(mdp.NodeException, RBFExpansionNode, centers, [size() for _ in range(k + 1)])
        return
    if kind == "wrong matrix":
        raises(mdp.NodeException, RBFExpansionNode, centers, [matrix(dim + 1) for _ in range(k)])
        return
    node = RBFExpansionNode(centers, sizes)
    check((node.input_dim, node.output_dim) == (dim, k), "dimensions")
    keep = x.copy()
    y = node.execute(x)
    check(np.array_equal(x, keep), "the input was changed")
    want = np.zeros((m, k))
    for r in range(m):
        for j in range(k):
            d = x[r] - np.array(centers[j], dtype=float)
            s = sizes if kind in ("one", "matrix") else sizes[j]
            q = d.dot(d) / s if kind in ("one", "list") else d.dot(np.linalg.solve(np.array(s, dtype=float), d))
            want[r, j] = math.exp(-.5 * q)
    check(y.shape == want.shape and np.allclose(y, want, rtol=1e-9, atol=1e-300), "%r instead of %r", y, want)
