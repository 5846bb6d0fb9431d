"""C05: random sequences of container operations on flows against a list model."""
import numpy as np
import mdp
from mdp import Flow, OnlineFlow
from .base import *
from .nodes import Gen, OneShot


class N(mdp.Node):
    def is_trainable(self):
        return False

    def _execute(self, x):
        return x


class O(mdp.OnlineNode):
    def _train(self, x):
        pass

    def _execute(self, x):
        return x


def node(rng, online=False):
    dims = [None, None, 1, 2, 2, 3]
    return (O if online else N)(input_dim=rng.choice(dims), output_dim=rng.choice(dims))


def consistent(lst):
    return all(a.output_dim is None or b.input_dim is None or a.output_dim == b.input_dim for a, b in zip(lst, lst[1:]))


def good(rng, n, mk):
    """a consistent list of n nodes"""
    out = []
    while len(out) < n:
        nd = mk(rng)
        if consistent(out + [nd]):
            out.append(nd)
    return out


def ident(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def key(rng, n):
    b = [None] + list(range(-n - 2, n + 3))
    return slice(rng.choice(b), rng.choice(b), rng.choice([None, None, None, 1, 2, -1]))


def step(rng, f, model, mk, names, log):
    """one operation; returns the new flow, model"""
    op = rng.choice(["set", "setslice", "del", "delslice", "add", "iadd", "append", "extend", "insert", "pop", "get", "slice", "bad", "node+"])
    n = len(model)
    want, exc, new = list(model), None, False
    other, olist = None, None
    val = mk(rng)
    bad = rng.choice([None, 3, "node", object(), [val]])
    if op in ("add", "iadd", "extend"):
        olist = good(rng, rng.randint(0, 3), mk)
        other = rng.choice([Flow, type(f)])(list(olist)) if olist else Flow([])
        if rng.random() < .1:
            other, olist = f, list(model)
    i = rng.randint(-n - 2, n + 1)
    k = key(rng, n)
    vals = [mk(rng) for _ in range(rng.randint(0, 3))]
    if rng.random() < .15 and vals:
        vals[rng.randrange(len(vals))] = bad

    def isn(x):
        return isinstance(x, mdp.Node)
    if op == "set":
        call = lambda: f.__setitem__(i, val)
        mod = lambda: want.__setitem__(i, val)
    elif op == "setslice":
        src = rng.choice([list, tuple, Gen, OneShot])(vals)
        call = lambda: f.__setitem__(k, src)
        mod = lambda: want.__setitem__(k, vals)
    elif op == "del":
        call, mod = (lambda: f.__delitem__(i)), (lambda: want.__delitem__(i))
    elif op == "delslice":
        call, mod = (lambda: f.__delitem__(k)), (lambda: want.__delitem__(k))
    elif op == "add":
        new = True
        rhs = rng.choice([other, val])
        call = lambda: f + rhs
        mod = lambda: want.extend(olist if rhs is other else [val])
    elif op == "iadd":
        rhs = rng.choice([other, val])
        call = lambda: f.__iadd__(rhs)
        mod = lambda: want.extend(olist if rhs is other else [val])
    elif op == "append":
        call, mod = (lambda: f.append(val)), (lambda: want.append(val))
    elif op == "extend":
        call, mod = (lambda: f.extend(other)), (lambda: want.extend(olist))
    elif op == "insert":
        call, mod = (lambda: f.insert(i, val)), (lambda: want.insert(i, val))
    elif op == "pop":
        a = rng.choice([(), (i,)])
        call, mod = (lambda: f.pop(*a)), (lambda: want.pop(*a))
    elif op == "get":
        call, mod = (lambda: f[i]), (lambda: want[i])
    elif op == "slice":
        new = True
        call = lambda: f[k]

        def mod():
            want[:] = want[k]
    elif op == "node+":
        # node + flow gives a new flow of copies; operands untouched
        log.append("node+")
        try:
            r = val + f
            check(consistent([val] + model), "an inconsistent flow was accepted")
            check(len(r) == n + 1 and r is not f, "node + flow has %d nodes", len(r))
        except ValueError:
            check(not consistent([val] + model), "ValueError for a consistent flow")
        except TypeError:
            check(isinstance(f, OnlineFlow), "TypeError")
        check(ident(list(f), model), "node + flow changed the flow")
        return f, model
    else:
        what = rng.choice(["set", "append", "insert", "add", "iadd", "extend", "setslice"])
        if isinstance(bad, mdp.Node):
            bad = None
        call = {"set": lambda: f.__setitem__(0, bad), "append": lambda: f.append(bad), "insert": lambda: f.insert(i, bad),
                "add": lambda: f + bad, "iadd": lambda: f.__iadd__(bad), "extend": lambda: f.extend(bad),
                "setslice": lambda: f.__setitem__(k, [val, bad])}[what]
        log.append("bad " + what)
        raises(TypeError, call)
        check(ident(list(f), model), "a refused %s of a non-node changed the flow", what)
        return f, model
    log.append(op)
    names(op=op, key=k, i=i, model=[(x.input_dim, x.output_dim) for x in model], val=(val.input_dim, val.output_dim),
          vals=[(x.input_dim, x.output_dim) if isn(x) else x for x in vals], other=olist and [(x.input_dim, x.output_dim) for x in olist])
    expect, ret = None, None
    if op == "setslice" and not all(isn(x) for x in vals):
        expect = TypeError
    else:
        try:
            ret = mod()
        except (IndexError, ValueError) as e:
            expect = type(e)
        else:
            if not consistent(want):
                expect = ValueError
    ofl = list(other) if other is not None else None
    if expect is None and isinstance(f, OnlineFlow) and not want:
        # an online flow cannot be empty
        try:
            call()
        except Exception:
            pass
        else:
            raise Skip()
        check(ident(list(f), model), "a failed %s changed the flow", op)
        return f, model
    if expect is not None:
        raises(expect, call)
        check(ident(list(f), model), "a failed %s changed the flow: %r", op, f)
        return f, model
    r = call()
    if op == "get":
        check(r is ret, "wrong node")
        check(ident(list(f), model), "indexing changed the flow")
        return f, model
    if op == "pop":
        check(r is ret, "pop returned another node")
    if op == "iadd":
        check(r is f, "+= returned another flow")
    if new:
        check(type(r) is type(f) and r is not f, "not a new flow of the same class")
        check(ident(list(f), model), "%s changed its operand", op)
        check(ident(list(r), want), "%s gives the wrong nodes", op)
        if len(r):
            # the new flow does not share its list with the operand
            del r[(1 if isinstance(r, OnlineFlow) else 0):]
            check(ident(list(f), model), "the new flow shares its list")
        r = type(f)(list(want)) if want or not isinstance(f, OnlineFlow) else f
        if r is f:
            return f, model
        return (r, want) if rng.random() < .5 else (f, model)
    check(ident(list(f), want), "%s gives the nodes %r, expected %r", op, list(f), want)
    if other is not None and other is not f:
        check(ident(list(other), ofl), "%s changed its argument", op)
    return f, want


def drive(rng, note, cls, mk):
    model = good(rng, rng.randint(1, 5), mk)
    f = cls(list(model))
    log = []
    note(cls=cls.__name__, start=[(x.input_dim, x.output_dim) for x in model], ops=log)
    for _ in range(rng.randint(1, 12)):
        f, model = step(rng, f, model, mk, note, log)
        check(len(f) == len(model) and ident(list(iter(f)), model), "length or iteration wrong")
        check(consistent(list(f)), "an inconsistent flow resulted")
        if model:
            x = rng.choice(model)
            check(x in f, "membership")
        check(mk(rng) not in f, "membership")


@scenario("operations", n=4000, thorough=15)
def operations(rng, note):
    drive(rng, note, rng.choice([Flow, Flow, mdp.CheckpointFlow, mdp.parallel.ParallelFlow]), node)


@scenario("online flow operations", n=1500, thorough=15)
def online(rng, note):
    drive(rng, note, OnlineFlow, lambda r: node(r, r.random() < .6))


@scenario("inconsistent construction", n=200, thorough=5)
def construct(rng, note):
    lst = [node(rng) for _ in range(rng.randint(0, 5))]
    note(dims=[(x.input_dim, x.output_dim) for x in lst])
    if consistent(lst):
        f = Flow(list(lst))
        check(ident(list(f), lst), "nodes")
    else:
        raises(ValueError, Flow, lst)


@scenario("node + node", n=100, thorough=5)
def nodeadd(rng, note):
    a, b = node(rng), node(rng, rng.random() < .5)
    note(a=(a.input_dim, a.output_dim), b=(b.input_dim, b.output_dim))
    if consistent([a, b]):
        check(ident(list(a + b), [a, b]), "a + b")
    else:
        raises(ValueError, lambda: a + b)
    raises(TypeError, lambda: a + rng.choice([3, None, "x", [b]]))
