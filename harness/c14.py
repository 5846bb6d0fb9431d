"""C14 on real nodes with the real cache (in scratch directories)."""
import copy
import os
import shutil
import tempfile
import numpy as np
import mdp
from .base import *
from mdp.caching import caching_extension as CE

ORIG = mdp.Node.execute           # without extension
CALLS = []


class Scale(mdp.Node):
    """counts the calls of its implementation"""
    def __init__(self, f=1., **k):
        mdp.Node.__init__(self, **k)
        self.f = f

    def is_trainable(self):
        return False

    def _execute(self, x, n=1, plus=0):
        CALLS.append(self)
        return self.f * x ** n + plus


class Scale2(Scale):
    def _execute(self, x, n=1, plus=0):
        CALLS.append(self)
        return -self.f * x ** n + plus


class Options(mdp.Node):
    """any keywords"""
    def __init__(self, f=1., **k):
        mdp.Node.__init__(self, **k)
        self.f = f

    def is_trainable(self):
        return False

    def _execute(self, x, n=1, **options):
        CALLS.append(self)
        return self.f * x ** n + options.get("plus", 0) + 2


class Mean(mdp.Node):
    def __init__(self, **k):
        mdp.Node.__init__(self, **k)
        self.avg, self.n = 0., 0

    def _train(self, x):
        self.avg = self.avg + x.sum(0)
        self.n += len(x)

    def _stop_training(self):
        self.avg = self.avg / max(self.n, 1)

    def _execute(self, x):
        CALLS.append(self)
        return x - self.avg


class Online(mdp.OnlineNode):
    def __init__(self, **k):
        mdp.OnlineNode.__init__(self, **k)
        self.s = 0.

    def _train(self, x):
        self.s = self.s + x.sum()

    def _execute(self, x):
        CALLS.append(self)
        return x + self.s


class Unpicklable(Scale):
    def __init__(self, f=1., **k):
        Scale.__init__(self, f, **k)
        self.fun = lambda x: x * f

    def _execute(self, x, n=1, plus=0):
        CALLS.append(self)
        return self.fun(x) ** n + plus


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vc14-")
        self.old = (tempfile.tempdir,)
        tempfile.tempdir = self.dir
        return self

    def __exit__(self, *a):
        try:
            mdp.caching.deactivate_caching()
        finally:
            tempfile.tempdir = self.old[0]
            # forget the memory that lives in the directory
            CE._memory = CE._cachedir = None
            CE._cacheobj = None
            CE._cached_methods = {}
            shutil.rmtree(self.dir, ignore_errors=True)


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)


def content(n):
    d = {}
    for k, x in n.__dict__.items():
        if "rng" in k:
            continue
        d[k] = x.tolist() if isinstance(x, np.ndarray) else repr(x) if not callable(x) else "callable"
    return d


def reference(node, a, k):
    """what the node returns without cache, and its content afterwards"""
    twin = copy.deepcopy(node)
    try:
        return ("ok", ORIG(twin, *copy.deepcopy(a), **k)), twin
    except Exception as e:
        return ("exc", type(e)), twin


def run(node, a, k):
    """-> result, number of calls of the implementation"""
    del CALLS[:]
    try:
        r = "ok", node.execute(*a, **k)
    except Exception as e:
        r = "exc", type(e)
    return r, len(CALLS)


def compare(what, node, a, k):
    want, twin = reference(node, a, k)
    x0 = [y.copy() if isinstance(y, np.ndarray) else y for y in a]
    got, calls = run(node, a, k)
    check(got[0] == want[0] and (got[1] is want[1] if got[0] == "exc" else same(got[1], want[1])),
          "%s: %r instead of %r", what, got, want)
    check(all(same(x, y) for x, y in zip(x0, a) if isinstance(x, np.ndarray)), "%s: the input was changed", what)
    if not isinstance(node, Unpicklable) and got[0] == "ok":
        check(content(node) == content(twin), "%s: the node afterwards: %r instead of %r", what, content(node), content(twin))
    return got, calls


def make(rng):
    k = rng.choice(["scale", "scale", "scale2", "mean", "online", "unpicklable", "pca", "poly", "flownode", "general"])
    if k == "scale":
        return Scale(rng.choice([1., 2.]))
    if k == "scale2":
        return rng.choice([Scale2, Options])(rng.choice([1., 2.]))
    if k == "mean":
        return Mean()
    if k == "online":
        return Online()
    if k == "unpicklable":
        return Unpicklable(2.)
    if k == "pca":
        return mdp.nodes.PCANode()
    if k == "poly":
        return mdp.nodes.PolynomialExpansionNode(rng.choice([1, 2, 3]))
    if k == "general":
        return mdp.nodes.GeneralExpansionNode([lambda x: x, lambda x: x ** 2])
    return mdp.hinet.FlowNode(mdp.Flow([Mean(), Scale(3.)]))


def data(rng, n=None):
    return np.random.RandomState(rng.choice([0, 1, 2])).randn(n or rng.choice([2, 3]), 3).round(2)


@scenario("histories", n=60, thorough=12)
def histories(rng, note):
    nodes = [make(rng) for _ in range(rng.randint(2, 4))]
    if rng.random() < .5:
        nodes.append(copy.deepcopy(rng.choice([n for n in nodes if not isinstance(n, Unpicklable)] or [Scale()])))
    ops = []
    note(nodes=nodes, ops=ops)
    state = None          # None: no cache, else (global, classes, instances)
    seen = {}
    with Scratch() as sc:
        dirs = [None, os.path.join(sc.dir, "a"), os.path.join(sc.dir, "b")]
        for d in dirs[1:]:
            os.mkdir(d)
        for step in range(rng.randint(4, 18)):
            op = rng.choice(["on", "off", "run", "run", "run", "run", "run", "train", "change", "instance", "dir", "with", "plain"])
            if op in ("on", "with"):
                cl = rng.choice([None, None, [], [type(rng.choice(nodes))], [type(n) for n in nodes[:2]]])
                ins = rng.choice([None, None, [], [rng.choice(nodes)], nodes[:2], nodes[:1] * 2])
                d = rng.choice(dirs)
                new = (cl is None and ins is None, list(cl or []), [id(i) for i in ins or []])
            if op == "on":
                ops.append(("activate", new))
                mdp.caching.activate_caching(d, cl, ins)
                state = new
                seen = {}
            elif op == "plain":
                ops.append("activate extension")
                mdp.activate_extension("cache_execute")
                if state is None:
                    state = (True, [], [])
                    seen = {}
            elif op == "off":
                ops.append("deactivate")
                mdp.caching.deactivate_caching()
                state = None
            elif op == "with":
                exc = rng.random() < .5
                ops.append(("with", new, exc))
                try:
                    with mdp.caching.cache(d, cl, ins):
                        for _ in range(rng.randint(0, 3)):
                            seen2 = {}
                            execute(rng, nodes, new, seen2, ops)
                        if exc:
                            raise ZeroDivisionError
                except ZeroDivisionError:
                    pass
                state = None
            elif op == "dir":
                ops.append("set_cachedir")
                mdp.caching.set_cachedir(rng.choice(dirs))
                seen = {}
            elif op == "instance" and state is not None:
                n = rng.choice(nodes)
                on = rng.random() < .5
                ops.append(("set_instance_cache", nodes.index(n), on))
                n.set_instance_cache(on)
                state = (state[0], state[1], state[2] + [id(n)] if on else [i for i in state[2] if i != id(n)])
            elif op == "train":
                n = rng.choice(nodes)
                if n.is_training() and n.is_trainable():
                    ops.append(("train", nodes.index(n)))
                    n.train(data(rng, 10))
            elif op == "change":
                n = rng.choice(nodes)
                if isinstance(n, (Scale, Options)) and not isinstance(n, Unpicklable):
                    n.f = rng.choice([1., 2., -3.])
                    ops.append(("change", nodes.index(n), n.f))
                elif hasattr(n, "degree") or hasattr(n, "_degree"):
                    pass
                elif isinstance(n, Mean) and not n.is_training():
                    n.avg = n.avg + 1
                    ops.append(("change", nodes.index(n)))
            else:
                execute(rng, nodes, state, seen, ops)
            check(("cache_execute" in mdp.get_active_extensions()) == (state is not None), "after %s: caching active is %r", ops[-1:], state is None)
            check((mdp.Node.execute is ORIG) == (state is None), "after %s: the execute method of Node", ops[-1:])


def execute(rng, nodes, state, seen, ops):
    n = rng.choice(nodes)
    x = data(rng)
    if rng.random() < .08:
        x = x[:, :2]
    if rng.random() < .1:
        x = x.astype("f")
    a, k = (x,), {}
    if isinstance(n, (Scale, Options)):
        if rng.random() < .3:
            a = (x, rng.choice([1, 2]))
        if rng.random() < .3:
            k = {"plus": rng.choice([0, 1])}
    ops.append(("execute", nodes.index(n), x.tolist(), str(x.dtype), a[1:], k))
    if n.is_training() and n.is_trainable() and not isinstance(n, Online):
        if isinstance(n, mdp.nodes.PCANode) or isinstance(n, (Mean, mdp.hinet.FlowNode)):
            n.train(data(rng, 10))
    got, calls = compare("step %d" % len(ops), n, a, k)
    if not isinstance(n, (Scale, Options, Mean, Online)) or got[0] == "exc":
        return
    cached = state is not None and (state[0] or type(n) in state[1] or id(n) in state[2])
    if state is not None:
        check(bool(n.is_cached()) == cached, "step %d: is_cached is %r", len(ops), n.is_cached())
    if not cached or isinstance(n, Unpicklable):
        check(calls == 1, "step %d: the implementation of a node that is not cached was called %d times", len(ops), calls)
    else:
        check(calls <= 1, "step %d: %d calls of the implementation", len(ops), calls)
        got2, calls2 = compare("step %d again" % len(ops), n, a, k)
        # (the public method of Scale2 does not pass through Node.execute, see DESIGN.md: its results are never cached)
        check(calls2 == 0 or isinstance(n, Scale2), "step %d: the implementation of a cached node was called again for the same input", len(ops))
        check(same(got[1], got2[1]), "step %d: the second result differs", len(ops))


@scenario("replaced executor", n=6, thorough=3)
def replaced(rng, note):
    """another extension replaces the implementation of a cached node"""
    class Mine(Scale):
        pass
    n = Mine(2.)
    # make the class picklable
    Mine.__qualname__ = Mine.__name__ = "Mine14"
    globals()["Mine14"] = Mine
    x = data(rng)
    note(x=x.tolist())
    mdp.extension_method("vc14_replace", Mine, "_execute")(lambda self, x: 10 * x)
    try:
        with Scratch():
            with mdp.caching.cache():
                check(same(n.execute(x), 2 * x), "the original implementation")
                with mdp.extension("vc14_replace"):
                    check(same(n.execute(x), 10 * x), "an implementation replaced by another extension is ignored: the cached value is returned")
                check(same(n.execute(x), 2 * x), "the original implementation, afterwards")
    finally:
        mdp.deactivate_extension("vc14_replace")
        del mdp.get_extensions()["vc14_replace"]


@scenario("disk", n=10, thorough=5)
def disk(rng, note):
    """values stored by an earlier cache in the same directory are only used for equal content"""
    f, g = rng.choice([1., 2.]), rng.choice([1., 2.])
    x = data(rng)
    cls = rng.choice([Scale, Scale2])
    cls2 = rng.choice([Scale, Scale2])
    note(f=f, g=g, cls=cls.__name__, cls2=cls2.__name__)
    with Scratch() as sc:
        d = os.path.join(sc.dir, "d")
        a = cls(f)
        with mdp.caching.cache(d):
            compare("first", a, (x,), {})
        # a new Memory object on the same directory
        CE._memory = CE._cachedir = None
        b = cls2(g)
        with mdp.caching.cache(d):
            _, calls = compare("with the stored values", b, (x,), {})
            compare("again", a, (x,), {})
        check(calls == (0 if f == g and cls is cls2 else 1) or Scale2 in (cls, cls2), "stored values are used for equal content only")


@scenario("classes defined while caching", n=2, thorough=2)
def defined(rng, note):
    x = data(rng)
    note(x=x.tolist())
    with Scratch():
        with mdp.caching.cache(cache_classes=[Mean]):
            class A(mdp.Node):
                def is_trainable(self):
                    return False

                def _execute(self, x):
                    return x + 1

            class B(A):
                def _execute(self, x):
                    return x + 2
            check(same(A().execute(x), x + 1) and same(B().execute(x), x + 2), "results inside")
        check(same(A().execute(x), x + 1), "results of the class afterwards")
        try:
            r = B().execute(x)
        except AttributeError:
            raise Violation("a subclass of a node class, both defined while the extension is active, can not be executed afterwards")
        check(same(r, x + 2), "results of the subclass afterwards")
