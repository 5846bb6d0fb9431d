"""C24 on real nodes: rankings, executions, cumulated training data and counted frequencies."""
import itertools
import numpy as np
import mdp
import bimdp
from mdp import ClassifierNode, ClassifierCumulator
from mdp.nodes import (SimpleMarkovClassifier, NearestMeanClassifier, GaussianClassifier, KNNClassifier, PerceptronClassifier,
                       SignumClassifier)
from .base import *


def labels_form(rng, labels):
    """the same labels as list, tuple or array"""
    kind = rng.choice(["list", "tuple", "array"])
    return list(labels) if kind == "list" else tuple(labels) if kind == "tuple" else np.array(labels)


def label_set(rng):
    return rng.choice([[1, 2], [-1, 1], [0, 1, 2, 3], ["a", "b", "cc"], [5], [1.5, 2.5, -1.0]])


def cut(rng, m):
    cuts = sorted(set([0, m] + [rng.randrange(1, m) for _ in range(rng.randrange(0, 4))])) if m > 1 else [0, m]
    return list(zip(cuts, cuts[1:]))


class Table(ClassifierNode):
    """probabilities looked up in a table; the sample gives the row"""
    def __init__(self, table, **kw):
        super(Table, self).__init__(**kw)
        self.table = table

    def is_trainable(self):
        return False

    def _prob(self, x, *args, **kw):
        self.seen = (x, args, kw)
        return [dict(self.table[int(r[0])]) for r in x]

    def _label(self, x, *args, **kw):
        self.seen = (x, args, kw)
        return [max(self.table[int(r[0])], key=self.table[int(r[0])].get, default=None) for r in x]


def check_rank(ranks, probs, threshold):
    check(isinstance(ranks, list) and len(ranks) == len(probs), "%d rankings of %d samples", len(ranks), len(probs))
    for r, p in zip(ranks, probs):
        want = [k for k in p if threshold is None or p[k] > threshold]
        check(len(r) == len(want) and set(r) == set(want), "ranking %r of %r with threshold %r", r, p, threshold)
        v = [p[k] for k in r]
        check(all(a >= b for a, b in zip(v, v[1:])), "ranking %r of %r", r, p)


@scenario("ranking", n=400, thorough=10)
def ranking(rng, note):
    names = rng.choice([[1, 2, 3, 4, 5, 6], ["z", "y", "x"], [(1, 0), (0, 1)], [1, "a", None, 2.5]])
    table = []
    for _ in range(rng.randrange(1, 5)):
        ks = [k for k in names if rng.random() < .8]
        rng.shuffle(ks)
        table.append({k: rng.choice([0.0, 0.0, .25, .25, .5, 1.0, rng.random()]) for k in ks})
    x = np.array([[float(rng.randrange(len(table))), 7.] for _ in range(rng.randrange(1, 6))]).reshape((-1, 2))
    method = rng.choice([None, "", "label", "rank", "prob"])
    note(table=table, x=x, method=method)
    node = Table(table, execute_method=method)
    if rng.random() < .3:
        node.set_dtype("f")
    want = [table[int(r[0])] for r in x]
    for t in (None, 0, .25, rng.random(), 1, -1):
        check_rank(node.rank(x) if t is None else rng.choice([lambda: node.rank(x, t), lambda: node.rank(x, threshold=t)])(), want, t)
    p = node.prob(x, 3, k=4)
    check(p == want and node.seen[1] == (3,) and node.seen[2] == {"k": 4}, "prob")
    check(node.seen[0].dtype == node.dtype, "prob: the data were not cast")
    l = node.label(x, 5, k=6)
    check(node.seen[1] == (5,) and node.seen[2] == {"k": 6} and node.seen[0].dtype == node.dtype, "label")
    check(l == [max(w, key=w.get, default=None) for w in want], "label %r", l)
    out = node.execute(x)
    if method == "label":
        check(out == l, "execute: %r instead of the labels", out)
    elif method == "prob":
        check(out == p, "execute: %r instead of the probabilities", out)
    elif method == "rank":
        check_rank(out, want, None)
    else:
        check(np.array_equal(out, x), "execute changed the data: %r", out)
    bad = np.zeros((2, 3))
    for f in (node.label, node.prob, node.rank, node.execute):
        raises(mdp.NodeException, f, bad)


class Collector(ClassifierCumulator):
    def _stop_training(self, *a, **k):
        super(Collector, self)._stop_training(*a, **k)
        self.finished = (self.data, self.labels)


@scenario("cumulated data", n=400, thorough=10)
def cumulated(rng, note):
    m, n = rng.randrange(1, 15), rng.randrange(1, 4)
    dt = rng.choice(["d", "f", "i"]) if False else rng.choice(["d", "f"])
    x = np.array([[rng.randrange(-50, 50) for _ in range(n)] for _ in range(m)], dtype=dt)
    names = label_set(rng)
    labels = [rng.choice(names) for _ in range(m)]
    parts = cut(rng, m)
    node = Collector()
    want = list(labels)
    forms = []
    for a, b in parts:
        f = rng.random()
        if f < .2:
            want[a:b] = [names[0]] * (b - a)
            form = names[0]
        else:
            form = labels_form(rng, labels[a:b])
            if rng.random() < .1:
                form = np.array(labels[a:b]).reshape((b - a, 1))
        forms.append(form)
    note(x=x, labels=labels, parts=parts, forms=[repr(f) for f in forms])
    for (a, b), form in zip(parts, forms):
        if rng.random() < .3:
            wrong = labels_form(rng, [names[0]] * (b - a + rng.choice([-1, 1, 2])))
            before = (node.tlen, list(node.data), list(node.labels))
            raises(mdp.TrainingException, node.train, x[a:b], wrong)
            check(before == (node.tlen, list(node.data), list(node.labels)), "a refused call changed the data")
        c = x[a:b].copy(order=rng.choice("CF"))
        node.train(c, form)
        check(np.array_equal(c, x[a:b]), "the data were changed")
        c[...] = 99
    node.stop_training()
    data, lab = node.finished
    check(data.shape == (m, n) and np.array_equal(data, x), "data %r instead of %r", data, x)
    check(node.tlen == m, "count %r", node.tlen)
    check(lab.shape == (m,) and [q for q in lab.tolist()] == want, "labels %r instead of %r", lab, want)


@scenario("wrong number of labels", n=300, thorough=10)
def wrong(rng, note):
    cls = rng.choice([SimpleMarkovClassifier, NearestMeanClassifier, GaussianClassifier, KNNClassifier, PerceptronClassifier, ClassifierCumulator])
    node = cls()
    m = rng.randrange(1, 8)
    x = np.array([[rng.random(), rng.random()] for _ in range(m)])
    k = m + rng.choice([-1, 1, 3, -m])
    labels = labels_form(rng, [rng.choice([-1, 1]) for _ in range(max(k, 0))])
    note(cls=cls.__name__, x=x, labels=labels)
    if len(labels) == m:
        return
    trained = rng.random() < .5
    if trained:
        node.train(x, [rng.choice([-1, 1]) for _ in range(m)])
    before = repr(sorted((k, v) for k, v in node.__dict__.items() if k not in ("_train_phase_started", "_input_dim", "_output_dim", "_dtype", "_cov_objs")))
    raises(mdp.TrainingException, node.train, x, labels)
    after = repr(sorted((k, v) for k, v in node.__dict__.items() if k not in ("_train_phase_started", "_input_dim", "_output_dim", "_dtype", "_cov_objs")))
    check(before == after, "the refused call changed the node: %s, %s", before, after)
    check(not getattr(node, "_cov_objs", None) or trained, "the refused call trained the node")


def markov_want(seen, names_seen, f):
    total = sum(1 for g, l in seen if g == f)
    return {l: sum(1 for g, k in seen if g == f and k == l) / total for l in names_seen} if total else {}


@scenario("counted frequencies", n=400, thorough=10)
def markov(rng, note):
    n = rng.randrange(1, 3)
    m = rng.randrange(1, 25)
    kind = rng.choice(["d", "i", "S1", "U1"])
    vals = ["a", "b", "c"] if kind in ("S1", "U1") else [0, 1, 2]
    if kind == "U1":
        kind = "S1"
    x = np.array([[rng.choice(vals) for _ in range(n)] for _ in range(m)], dtype=kind)
    names = rng.choice([[1, 2, 3], ["p", "q"], [0.5, 2]])
    labels = [rng.choice(names) for _ in range(m)]
    parts = cut(rng, m)
    note(x=x, labels=labels, parts=parts)
    node = SimpleMarkovClassifier(execute_method=rng.choice([None, "prob"]), dtype=None)
    want = list(labels)
    for a, b in parts:
        if rng.random() < .2 and not isinstance(names[0], str):
            want[a:b] = [names[0]] * (b - a)
            node.train(x[a:b], names[0])
        else:
            node.train(x[a:b], labels_form(rng, labels[a:b]))
    node.stop_training()
    seen = [(tuple(r), l) for r, l in zip(x.tolist(), want)]
    check(node.ntotal_connections == m, "count %r", node.ntotal_connections)
    test = np.array(list(itertools.product(vals, repeat=n)), dtype=kind)
    got = node.prob(test)
    check(len(got) == len(test), "%d results for %d samples", len(got), len(test))
    for f, p in zip(test.tolist(), got):
        w = markov_want(seen, set(want), tuple(f))
        check(set(p) == set(w) and all(abs(p[k] - w[k]) < 1e-12 for k in w), "probabilities of %r: %r instead of %r", f, p, w)
    check_rank(node.rank(test, threshold=0), got, 0)
    check_rank(node.rank(test), got, None)
    if node.execute_method == "prob":
        check(node.execute(test) == got, "execute")
    check(node.prob(test) == got, "asking changed the answer")


def blobs(rng, names, n):
    r = np.random.RandomState(rng.randrange(10 ** 6))
    xs, ls = [], []
    for i, l in enumerate(names):
        m = rng.randrange(n + 3, n + 9)
        xs.append(r.randn(m, n) * (1 + i) + 2 * r.randn(n))
        ls += [l] * m
    x = np.vstack(xs)
    o = r.permutation(len(x))
    return x[o], [ls[i] for i in o]


@scenario("nearest mean", n=200, thorough=10)
def nearest(rng, note):
    names, n = rng.choice([[1, 2], [3, 1, 2], ["a", "b"], [-1.5, 1.5], [4]]), rng.randrange(1, 4)
    x, labels = blobs(rng, names, n)
    single = rng.random() < .3
    parts = cut(rng, len(x))
    note(x=x, labels=labels, parts=parts)
    node = NearestMeanClassifier()
    keep = x.copy()
    if single:
        for l in names:
            node.train(x[np.array(labels) == l], l)
    else:
        for a, b in parts:
            node.train(x[a:b], labels_form(rng, labels[a:b]))
    node.stop_training()
    check(np.array_equal(x, keep), "training changed the data")
    means = {l: x[[q == l for q in labels]].mean(axis=0) for l in names}
    check({str(l) for l in node.ordered_labels} == {str(l) for l in names} and len(node.ordered_labels) == len(names), "labels %r", node.ordered_labels)
    for l, mu in zip(node.ordered_labels, node.ordered_means):
        check(np.allclose(mu, means[type(names[0])(l)]), "mean of %r: %r", l, mu)
    test = np.random.RandomState(rng.randrange(10 ** 6)).randn(7, n) * 3
    for r, l in zip(test, node.label(test)):
        d = {k: ((r - means[k]) ** 2).sum() for k in names}
        check(d[type(names[0])(l)] <= min(d.values()) + 1e-9, "label %r of %r", l, r)


@scenario("gaussian", n=150, thorough=10)
def gaussian(rng, note):
    names, n = rng.choice([[1, 2], [3, 1, 2], ["a", "b"], [-1.5, 1.5], [4]]), rng.randrange(1, 4)
    x, labels = blobs(rng, names, n)
    parts = cut(rng, len(x))
    method = rng.choice([None, "label", "prob", "rank"])
    note(x=x, labels=labels, parts=parts, method=method)
    node = GaussianClassifier(execute_method=method)
    if rng.random() < .3:
        for l in names:
            node.train(x[np.array(labels) == l], l)
    else:
        for a, b in parts:
            node.train(x[a:b], labels_form(rng, labels[a:b]))
    node.stop_training()
    test = np.random.RandomState(rng.randrange(10 ** 6)).randn(7, n) * 3
    p, l, r = node.prob(test), node.label(test), node.rank(test)
    lab = np.array(labels)
    for i, t in enumerate(test):
        check(all(q != q for q in p[i].values()) or abs(sum(p[i].values()) - 1) < 1e-9, "probabilities %r do not sum to one", p[i])
        check(p[i][l[i]] == max(p[i].values()), "label %r of %r", l[i], p[i])
        check(p[i][r[i][0]] == p[i][l[i]], "rank %r and label %r", r[i], l[i])
        w = {}
        for k in names:
            c = x[lab == k]
            mu, cov = c.mean(axis=0), np.cov(c.T, ddof=1).reshape((n, n))
            w[k] = len(c) / len(x) * np.exp(-.5 * (t - mu).dot(np.linalg.solve(cov, t - mu))) / np.sqrt(np.linalg.det(cov))
        s = sum(w.values())
        if s > 1e-200:
            for k in names:
                check(abs(p[i][k] - w[k] / s) < 1e-6, "probability of %r: %r instead of %r", k, p[i], {q: w[q] / s for q in w})
    check_rank(r, p, None)
    out = node.execute(test)
    if method:
        check(out == {"label": l, "prob": p, "rank": r}[method], "execute %r", out)
    else:
        check(np.array_equal(out, test), "execute changed the data")


@scenario("nearest neighbours", n=150, thorough=10)
def knn(rng, note):
    names, n, k = rng.choice([[1, 2], [3, 1, 2], ["a", "b"]]), rng.randrange(1, 4), rng.randrange(1, 6)
    x, labels = blobs(rng, names, n)
    note(x=x, labels=labels, k=k)
    node = KNNClassifier(k=k, execute_method=rng.choice([None, "label"]))
    for a, b in cut(rng, len(x)):
        node.train(x[a:b], labels_form(rng, labels[a:b]))
    node.stop_training()
    check(len(node.samples) == len(x), "number of samples")
    test = np.random.RandomState(rng.randrange(10 ** 6)).randn(7, n) * 3
    got = node.label(test)
    for t, l in zip(test, got):
        o = np.argsort(((x - t) ** 2).sum(axis=1))[:k]
        votes = {q: sum(1 for i in o if labels[i] == q) for q in names}
        check(votes[type(names[0])(l)] == max(votes.values()), "label %r, votes %r", l, votes)
    if node.execute_method:
        check(node.execute(test) == got, "execute")


@scenario("bi-classifiers", n=150, thorough=10)
def bi(rng, note):
    names, n = rng.choice([[1, 2], [3, 1, 2]]), rng.randrange(1, 4)
    x, labels = blobs(rng, names, n)
    req = {k: rng.choice([None, False, True, "pre_"]) for k in ("return_labels", "return_probs", "return_ranks")}
    note(x=x, labels=labels, request=req)
    node = bimdp.nodes.GaussianBiClassifier()
    node.train(x, {"labels": labels})
    node.stop_training()
    msg = {k: v for k, v in req.items() if v is not None}
    out = node.execute(x, msg or None)
    want = {}
    for key, name, val in (("return_labels", "labels", node.label(x)), ("return_probs", "probs", node.prob(x)), ("return_ranks", "ranks", node.rank(x))):
        if req[key]:
            want[("pre_" if req[key] == "pre_" else "") + name] = val
    if not want:
        y, m = out if isinstance(out, tuple) else (out, {})
        check(isinstance(y, np.ndarray) and np.array_equal(y, x), "%r instead of the data", out)
        check(not any(k.endswith(("labels", "probs", "ranks")) and not k.startswith("return_") for k in m), "%r without a request", m)
        return
    y, m = out
    check(np.array_equal(y, x), "the data were changed")
    check({k: v for k, v in m.items() if k in want} == want, "message %r instead of %r", m, want)


@scenario("signum and perceptron", n=100, thorough=10)
def signum(rng, note):
    n = rng.randrange(1, 4)
    x = np.array([[rng.randrange(-5, 6) for _ in range(n)] for _ in range(rng.randrange(1, 8))], dtype="d")
    note(x=x)
    node = SignumClassifier(execute_method="label")
    want = [(s > 0) * 1 - (s < 0) * 1 for s in x.sum(axis=1)]
    check(list(node.label(x)) == want and list(node.execute(x)) == want, "signum")
    p = PerceptronClassifier()
    labels = [rng.choice([-1, 1]) for _ in x]
    w, o = np.ones(n), 0
    for a, b in cut(rng, len(x)):
        p.train(x[a:b], labels_form(rng, labels[a:b]))
    raises(mdp.TrainingException, p.train, x, [3] * len(x))
    for xi, l in zip(x, labels):
        r = .1 * (l - np.sign(xi.dot(w) + o))
        w, o = w + r * xi, o + r
    p.stop_training()
    check(np.allclose(p.weights, w) and np.allclose(p.offset_weight, o), "weights %r instead of %r", p.weights, w)
    check(np.array_equal(p.label(x), np.sign(x.dot(w) + o)), "perceptron")
