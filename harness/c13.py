"""C13 on concrete class hierarchies and extensions."""
import mdp
from .base import *

PRE, FLAG = "_non_extension_", "_extension_for_"
MISS = object()


def mkattr(rng, tag):
    k = rng.choice(["f", "f", "f", "static", "class", "prop", "value", "none"])
    if k == "f":
        return lambda self, *a: (tag, "f")
    if k == "static":
        return staticmethod(lambda *a: (tag, "static"))
    if k == "class":
        return classmethod(lambda cls, *a: (tag, cls.__name__))
    if k == "prop":
        return property(lambda self: (tag, "prop"))
    return tag if k == "value" else None


class World(object):
    def __init__(self, rng, prefix):
        self.rng = rng
        attrs = ["a", "b", "c"]
        self.classes = []
        for i in range(rng.randint(1, 5)):
            bases = tuple(rng.sample(self.classes, min(len(self.classes), rng.choice([0, 1, 1, 1, 2]))))
            bases = tuple(b for b in bases if not any(b is not c and issubclass(c, b) for c in bases)) or \
                ((mdp.Node,) if rng.random() < .3 else (object,))
            d = {n: mkattr(rng, "C%d.%s" % (i, n)) for n in attrs if rng.random() < .5}
            try:
                self.classes.append(type(bases[0])("C%d" % i, bases, d))
            except TypeError:
                self.classes.append(type("C%d" % i, (object,), d))
        self.before = {c: dict(c.__dict__) for c in self.classes}
        self.exts, self.hooks = {}, {}
        self.log, self.fail = [], set()
        for e in range(rng.randint(1, 4)):
            name = "%s_ext%d" % (prefix, e)
            reg = self.exts[name] = {}
            order = list(self.classes)
            rng.shuffle(order)
            for c in order:
                for n in attrs + ["d"]:
                    if rng.random() < .3:
                        self.register(name, c, n)
            if not reg:
                self.register(name, order[0], "d")
            for hook, deco in (("setup", mdp.extension_setup), ("teardown", mdp.extension_teardown)):
                if rng.random() < .4:
                    def run(hook=hook, name=name):
                        self.log.append((hook, name))
                        if (hook, name) in self.fail:
                            raise ZeroDivisionError(hook)
                    deco(name)(run)
                    self.hooks[hook, name] = run
        self.active = {}      # name -> the attributes that were registered when it was activated

    def register(self, name, c, n):
        v = mkattr(self.rng, "%s.%s.%s" % (name, c.__name__, n))
        if callable(v) or isinstance(v, (staticmethod, classmethod, property)) or self.rng.random() < .5:
            mdp.extension_method(name, c, n)(v) if not hasattr(v, "__name__") or self.rng.random() < .5 else \
                mdp.extension_method(name, c, method_name=n)(v)
        else:
            mdp.extension_method(name, c, n)(v)
        self.exts[name].setdefault(c, {})[n] = v

    def collides(self, name):
        return any(n in self.active[o].get(c, {}) for c, d in self.exts[name].items() for n in d for o in self.active if o != name)

    def check(self, what):
        check(set(mdp.get_active_extensions()) & set(self.exts) == set(self.active), "%s: active are %r instead of %r", what,
              sorted(mdp.get_active_extensions()), sorted(self.active))
        inj = {}
        for name, reg in self.active.items():
            for c, d in reg.items():
                for n, v in d.items():
                    inj[c, n] = (name, v)
        for c in self.classes:
            want = dict(self.before[c])
            for (k, n), (name, v) in inj.items():
                if k is c:
                    want[n] = v
            got = {n: v for n, v in c.__dict__.items() if not n.startswith(PRE) and not n.startswith(FLAG)}
            for n in set(want) | set(got):
                check(got.get(n, MISS) is want.get(n, MISS), "%s: attribute %s of %s is %r instead of %r", what, n, c.__name__,
                      got.get(n, "missing"), want.get(n, "missing"))
            for n in c.__dict__:
                for p in (PRE, FLAG):
                    if n.startswith(p):
                        check((c, n[len(p):]) in inj, "%s: %s.%s is left over", what, c.__name__, n)
            # the originals of the injected attributes stay reachable
            for (k, n), _ in inj.items():
                if k is c:
                    orig = next((self.before[b][n] if b in self.before else b.__dict__[n] for b in c.__mro__
                                 if n in (self.before[b] if b in self.before else b.__dict__)), MISS)
                    now = next((b.__dict__[PRE + n] for b in c.__mro__ if PRE + n in b.__dict__), MISS)
                    check(now is orig, "%s: the original of %s.%s is %r instead of %r", what, c.__name__, n,
                          "not reachable" if now is MISS else now, "none" if orig is MISS else orig)

    def cleanup(self):
        self.fail.clear()
        for name in list(self.exts):
            mdp.deactivate_extension(name)
        self.active = {}
        self.check("after everything")
        for name in self.exts:
            del mdp.get_extensions()[name]

    # the expected effect of one activation / deactivation
    def do_activate(self, name):
        """-> does it succeed"""
        if name not in self.exts:
            return False
        if name in self.active:
            return True
        if ("setup", name) in self.fail or self.collides(name):
            return False
        self.active[name] = {c: dict(d) for c, d in self.exts[name].items()}
        return True


COUNT = [0]


@scenario("histories", n=800, thorough=25)
def histories(rng, note):
    COUNT[0] += 1
    w = World(rng, "vc%d" % COUNT[0])
    ops = []
    note(operations=ops, classes={c.__name__: [b.__name__ for b in c.__bases__] for c in w.classes},
         own={c.__name__: sorted(n for n in w.before[c] if n in "abc") for c in w.classes},
         extensions={e: {c.__name__: sorted(d) for c, d in reg.items()} for e, reg in w.exts.items()}, hooks=sorted(w.hooks))
    try:
        names = list(w.exts)
        for step in range(rng.randint(1, 12)):
            w.fail = {h for h in w.hooks if h[0] == "setup" and rng.random() < .25}
            k = rng.choice(["on", "on", "on", "off", "off", "several on", "several off", "with", "with", "decorated", "register", "unknown", "nested"])
            e = rng.choice(names)
            some = [rng.choice(names) for _ in range(rng.randint(0, 3))]
            if rng.random() < .1:
                some.append("no such extension")
            fails = sorted(w.fail)
            if k == "on":
                ops.append("activate %s (failing: %r)" % (e, fails))
                del w.log[:]
                was = e in w.active
                if w.do_activate(e):
                    mdp.activate_extension(e)
                    check(("setup", e) not in w.hooks or was or ("setup", e) in w.log, "the setup function was not called")
                    check(not was or not w.log, "an active extension was set up again")
                else:
                    raises((mdp.ExtensionException, ZeroDivisionError), mdp.activate_extension, e)
            elif k == "off":
                ops.append("deactivate %s" % e)
                del w.log[:]
                was = e in w.active
                w.active.pop(e, None)
                mdp.deactivate_extension(e)
                check((("teardown", e) in w.log) == (was and ("teardown", e) in w.hooks), "the teardown function was (not) called")
            elif k == "unknown":
                ops.append("unknown")
                raises(mdp.ExtensionException, mdp.activate_extension, "no such extension")
                raises(mdp.ExtensionException, mdp.deactivate_extension, "no such extension")
            elif k == "several on":
                ops.append("activate %r (failing: %r)" % (some, fails))
                old = dict(w.active)
                if all([w.do_activate(x) for x in some]):
                    mdp.activate_extensions(some)
                else:
                    w.active = old
                    raises((mdp.ExtensionException, ZeroDivisionError), mdp.activate_extensions, some)
            elif k == "several off":
                some = [x for x in some if x in w.exts]
                ops.append("deactivate %r" % (some,))
                for x in some:
                    w.active.pop(x, None)
                mdp.deactivate_extensions(some)
            elif k == "register":
                c = rng.choice(w.classes)
                n = rng.choice(["a", "b", "e"])
                if n in w.exts[e].get(c, {}):
                    continue
                ops.append("register %s %s.%s" % (e, c.__name__, n))
                w.register(e, c, n)
            elif k in ("with", "nested", "decorated"):
                boom = rng.random() < .4
                old = dict(w.active)
                one = k == "decorated" or (len(some) == 1 and rng.random() < .5)
                arg = e if one else some
                ops.append("%s %r%s (failing: %r)" % (k, arg, " with an exception" if boom else "", fails))
                ok = all([w.do_activate(x) for x in ([arg] if one else arg)])

                def body():
                    w.check("inside")
                    if boom:
                        raise KeyError("body")
                    return 42
                if k == "decorated":
                    f = mdp.with_extension(arg)(body)
                elif k == "with":
                    def f():
                        with mdp.extension(arg):
                            return body()
                else:
                    def f():
                        ctx = mdp.extension(arg)
                        with ctx:
                            with ctx:
                                w.check("inside twice")
                            return body()
                if not ok:
                    w.active = old
                    raises((mdp.ExtensionException, ZeroDivisionError), f)
                elif boom:
                    raises(KeyError, f)
                else:
                    check(f() == 42, "the result of the body")
                w.active = old
            w.check("after step %d (%s)" % (step, ops[-1]))
    finally:
        import sys
        if sys.exc_info()[0] is None:
            w.cleanup()
        else:
            for name in w.exts:
                try:
                    w.fail.clear()
                    mdp.deactivate_extension(name)
                    del mdp.get_extensions()[name]
                except Exception:
                    pass


@scenario("extension node classes", n=150, thorough=20)
def nodes(rng, note):
    """registration through classes derived from ExtensionNode"""
    COUNT[0] += 1
    name = "vcn%d" % COUNT[0]
    deep = rng.random() < .5
    own = rng.random() < .5
    note(deep=deep, own=own)

    class Base(mdp.Node):
        def _foo(self):
            return "base"

    class Sub(Base):
        pass
    if own:
        Sub._foo = lambda self: "sub"
    before = {c: dict(c.__dict__) for c in (Base, Sub)}
    shared = rng.random() < .5
    Ext = type("Ext", (mdp.ExtensionNode,), dict({"extension_name": name}, **({"_bar": lambda self: "shared"} if shared else {})))
    first = rng.random() < .5

    def ext_base():
        type(Ext)("ExtBase", (Ext, Base), {"_foo": lambda self: "ext base + " + self._non_extension__foo(), "_baz": lambda self: "baz"})

    def ext_sub():
        type(Ext)("ExtSub", (Ext, Sub), {"_foo": lambda self: "ext sub + " + self._non_extension__foo()})
    for f in ([ext_base, ext_sub] if first else [ext_sub, ext_base]) if deep else [ext_base]:
        f()
    try:
        raises(mdp.ExtensionException, type(Ext), "Ext2", (mdp.ExtensionNode,), {"extension_name": name})
        check(not hasattr(Base, "_baz") and Base()._foo() == "base", "registering an extension changed a class")
        with mdp.extension(name):
            check(Base()._foo() == "ext base + base" and Base()._baz() == "baz", "extended base class")
            subfoo = "sub" if own else "base"
            want = ("ext sub + " + subfoo) if deep else ("sub" if own else "ext base + base")
            check(Sub()._foo() == want, "extended subclass: %r instead of %r", Sub()._foo(), want)
            check(not shared or (Base()._bar() == "shared" and Sub()._bar() == "shared"), "an inherited extension method")
        for c in before:
            now = dict(c.__dict__)
            check(set(now) == set(before[c]) and all(now[k] is before[c][k] for k in now), "the attributes of %s: %r instead of %r",
                  c.__name__, sorted(now), sorted(before[c]))
    finally:
        mdp.deactivate_extension(name)
        del mdp.get_extensions()[name]
