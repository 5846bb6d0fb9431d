"""Recording nodes for the flow harnesses."""
import numpy as np
import mdp
from mdp import Node


class Boom(Exception):
    pass


class Rec(Node):
    """Affine node whose slope depends on what it was trained on; every call of an implementation
    method is appended to the log as (kind, name, phase, data, args)."""
    def __init__(self, log, name, phases=1, trainable=True, fail=None, **kw):
        self.log, self.nm, self.ph, self.tr = log, name, phases, trainable
        self.fail = fail              # (kind, n): the n-th call of that kind raises
        self.calls = {}
        self.s = 0.
        self.bias = float(name)
        super(Rec, self).__init__(**kw)

    def __deepcopy__(self, memo):
        import copy
        n = self.__class__.__new__(self.__class__)
        memo[id(self)] = n
        for k, v in self.__dict__.items():
            n.__dict__[k] = v if k == "log" else copy.deepcopy(v, memo)
        return n

    def hit(self, kind):
        self.calls[kind] = self.calls.get(kind, 0) + 1
        if self.fail is not None and self.fail[0] == kind and self.calls[kind] == self.fail[1]:
            raise Boom("%s of node %s" % (kind, self.nm))

    def is_trainable(self):
        return self.tr

    def is_invertible(self):
        return True

    def _get_train_seq(self):
        return [((lambda x, *a, p=p: self.t(p, x, *a)), (lambda *a, p=p: self.st(p, *a))) for p in range(self.ph)]

    def t(self, p, x, *a):
        self.hit("train")
        self.log.append(("train", self.nm, p, np.array(x), a))
        self.s = learn(self.s, p, x)

    def st(self, p, *a):
        self.hit("stop")
        self.log.append(("stop", self.nm, p, None, a))

    def _execute(self, x):
        self.hit("execute")
        self.log.append(("execute", self.nm, None, np.array(x), ()))
        return ex(self.s, self.bias, x)

    def _inverse(self, y):
        self.hit("inverse")
        self.log.append(("inverse", self.nm, None, np.array(y), ()))
        return (y - self.bias) / (1. + self.s)


class Rec1(Rec):
    """requires one extra training argument"""
    def _train(self, x, a):
        pass


class Rec2(Rec):
    def _train(self, x, a, b):
        pass


class Rec1o(Rec):
    """one required, one optional argument"""
    def _train(self, x, a, b=None):
        pass


def learn(s, p, x):
    return .5 * s + .1 * (p + 1) * float(np.tanh(np.sum(x)))


def ex(s, bias, x):
    return x * (1. + s) + bias


def required(node):
    return {Rec: 0, Rec1: 1, Rec2: 2, Rec1o: 1}[type(node)]


def arr(rng, cols, rows=None):
    return np.array([[rng.uniform(-1, 1) for _ in range(cols)] for _ in range(rows or rng.randint(1, 5))])


class OneShot(object):
    """an iterator: one pass only"""
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self.it


class Gen(object):
    """an iterable whose every pass is a fresh generator"""
    def __init__(self, items):
        self.items = items
        self.passes = 0

    def __iter__(self):
        self.passes += 1
        for x in self.items:
            yield x
