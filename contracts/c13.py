"""C13: extensions.

The state of all classes is described by the flags alone: flag(c, a) says which extension (if any) currently provides attribute
a of class c, and `put` the value it put there.  With base(c, a) the entry of the class body without any extension, the class
invariant W is, for every class c and attribute a,
    flagged:      c.a is put(c, a), shadow(c, a) is base(c, a) (also: missing), the stored original is the attribute found
                  along the MRO of c when all extensions are ignored
    not flagged:  c.a is base(c, a) (also: missing), no shadow, no stored original
Activation adds exactly the registered pairs to the flags, deactivation removes exactly those flagged with the extension: so
without active extension every class is exactly what it was, whatever happened before.
"""
from .common import *
from .arrays import *
from pyvc.engine import _z
X = sys.modules["mdp.extension"]
from mdp.extension import ExtensionException

MOD = "mdp.extension:"
B_ = z3.BoolSort()
PRE, FLAG = X.ORIGINAL_ATTR_PREFIX, X._EXTENSION_ATTR_PREFIX
SETUP, TEARDOWN = X._SETUP_FUNC_ATTR, X._TEARDOWN_FUNC_ATTR


class Ext(Ind):
    """an extension name"""
    family = "extension"

    def __add__(self, o):
        return Text(self, o)

    def __radd__(self, o):
        return Text(o, self)

    def _vc_isa(self, cls):
        return cls in (str, object)


class Val(Ind):
    family = "attribute value"


class Text(object):
    """a message"""
    _vc_ghost = True

    def __init__(self, *parts):
        self.parts = parts

    def __add__(self, o):
        return Text(self, o)

    def __radd__(self, o):
        return Text(o, self)


class Name(Ind):
    """an attribute name (not one of the prefixed names)"""
    family = "attribute name"

    def __add__(self, o):
        return Text(self, o)

    def __radd__(self, o):
        return Prefixed(o, self) if o in (PRE, FLAG) else Text(o, self)


class Prefixed(object):
    _vc_ghost = True

    def __init__(self, prefix, name):
        self.prefix, self.name = prefix, name


class Map(object):
    """a partial map from (class, attribute) to values"""
    def __init__(self, has, val, kind):
        self.has, self.val, self.kind = has, val, kind

    def put(self, c, a, v):
        h, f = self.has, self.val
        return Map(lambda x, y: z3.Or(z3.And(x == c, y == a), h(x, y)), lambda x, y: z3.If(z3.And(x == c, y == a), v, f(x, y)), self.kind)

    def drop(self, c, a):
        h = self.has
        return Map(lambda x, y: z3.And(z3.Not(z3.And(x == c, y == a)), h(x, y)), self.val, self.kind)


def fun(name, *sorts):
    return z3.Function(P().fresh_name(name), *sorts)


class World(object):
    """ghost state of the classes, of the registry of one extension and of the set of active extensions"""
    _vc_ghost = True

    def __init__(self, v):
        self.v = v
        self.e = P().fresh("ext", I_)
        self.base = Map(fun("base_has", I_, I_, B_), fun("base", I_, I_, I_), Val)
        self.nmro, self.mro = fun("n_mro", I_, I_), fun("mro", I_, I_, I_)
        self.first = fun("first_definition", I_, I_, I_)       # position in the MRO of the first class defining the attribute
        self.F0 = Map(fun("flag_has", I_, I_, B_), fun("flag", I_, I_, I_), Ext)
        self.put0 = fun("injected", I_, I_, I_)
        self.active0 = self.active = fun("active", I_, B_)
        self.registered = fun("registered", I_, B_)
        self.hooks = {}
        self.calls = VList()
        x, y, k = z3.Ints("wx wy wk")
        n, f = self.nmro, self.first
        v.assume(z3.ForAll([x], z3.And(n(x) >= 1, self.mro(x, 0) == x)))
        v.assume(z3.ForAll([x, y], z3.And(0 <= f(x, y), f(x, y) <= n(x))))
        v.assume(z3.ForAll([x, y], z3.Implies(f(x, y) < n(x), self.base.has(self.mro(x, f(x, y)), y))))
        v.assume(z3.ForAll([x, y, k], z3.Implies(z3.And(0 <= k, k < f(x, y)), z3.Not(self.base.has(self.mro(x, k), y)))))
        # the registry of the extension
        self.nC, self.C = v.fresh_int("n_classes", 0).t, ints("class")
        self.nA, self.A = fun("n_attrs", I_, I_), fun("attr", I_, I_, I_)
        self.pc, self.pa = fun("class_position", I_, I_), fun("attr_position", I_, I_, I_)
        self.reg = fun("registered_value", I_, I_, I_)
        v.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.nC), self.pc(self.C(k)) == k)))
        v.assume(z3.ForAll([x, k], z3.Implies(z3.And(0 <= k, k < self.nA(x)), self.pa(x, self.A(x, k)) == k)))
        v.assume(z3.ForAll([x], self.nA(x) >= 0))
        # flags belong to active extensions, to registered attributes
        v.assume(z3.ForAll([x, y], z3.Implies(self.F0.has(x, y), self.active(self.F0.val(x, y)))))
        v.assume(z3.ForAll([x, y], z3.Implies(z3.And(self.F0.has(x, y), self.F0.val(x, y) == self.e), self.inD(x, y))))
        self.set_state(self.F0, self.put0)

    def inD(self, c, a):
        return z3.And(0 <= self.pc(c), self.pc(c) < self.nC, self.C(self.pc(c)) == c, 0 <= self.pa(c, a), self.pa(c, a) < self.nA(c),
                      self.A(c, self.pa(c, a)) == a)

    def before(self, i, j):
        """the pairs before attribute j of class i"""
        return lambda c, a: z3.And(self.inD(c, a), z3.Or(self.pc(c) < i, z3.And(self.pc(c) == i, self.pa(c, a) < j)))

    def truth(self, c, a):
        """the attribute found when all extensions are ignored"""
        k = self.first(c, a)
        return k < self.nmro(c), self.base.val(self.mro(c, k), a)

    def invariant(self, F, put):
        """the state described by the flags -> own, shadow, orig, flag"""
        b = self.base
        return (Map(lambda c, a: z3.Or(F.has(c, a), b.has(c, a)), lambda c, a: z3.If(F.has(c, a), put(c, a), b.val(c, a)), Val),
                Map(lambda c, a: z3.And(F.has(c, a), b.has(c, a)), b.val, Val),
                Map(lambda c, a: z3.And(F.has(c, a), self.truth(c, a)[0]), lambda c, a: self.truth(c, a)[1], Val),
                F)

    def set_state(self, F, put):
        self.own, self.shadow, self.orig, self.flag = self.invariant(F, put)

    def check(self, name, F, put):
        c, a = P().fresh("some_class", I_), P().fresh("some_attr", I_)
        for what, m, w in zip(("the class attributes", "the shadowed attributes", "the stored originals", "the flags"),
                              (self.own, self.shadow, self.orig, self.flag), self.invariant(F, put)):
            rt.oblige("%s: %s" % (name, what), z3.And(m.has(c, a) == w.has(c, a), z3.Implies(m.has(c, a), m.val(c, a) == w.val(c, a))))

    # the flags after activation / deactivation of the pairs `done`
    def with_(self, done):
        e, F = self.e, self.F0
        return (Map(lambda c, a: z3.Or(done(c, a), F.has(c, a)), lambda c, a: z3.If(done(c, a), e, F.val(c, a)), Ext),
                lambda c, a: z3.If(done(c, a), self.reg(c, a), self.put0(c, a)))

    def without(self, F, put, done):
        e = self.e
        return Map(lambda c, a: z3.And(F.has(c, a), z3.Not(z3.And(F.val(c, a) == e, done(c, a)))), F.val, Ext), put

    def map_of(self, name):
        if isinstance(name, Name):
            return "own", name.idx
        if isinstance(name, Prefixed) and name.prefix in (PRE, FLAG):
            return ("orig" if name.prefix == PRE else "flag"), name.name.idx
        raise Unsupported("class attribute %r" % (name,))


class Cls(Ind):
    """a node class"""
    family = "class"

    @property
    def __dict__(self):
        return ClassDict(self)

    @property
    def __mro__(self):
        w = P().globals["world"]
        return VList.of([span(w.nmro(self.idx), lambda k: Cls(w.mro(self.idx, k)))])

    @property
    def __name__(self):
        return "<class>"


class ClassDict(object):
    _vc_ghost = True

    def __init__(self, cls):
        self.cls = cls

    def _look(self, name):
        w = P().globals["world"]
        m, a = w.map_of(name)
        m = getattr(w, m)
        return m.has(self.cls.idx, a), m.kind(m.val(self.cls.idx, a))

    def __contains__(self, name):
        return P().branch(self._look(name)[0])

    def __getitem__(self, name):
        h, val = self._look(name)
        if not P().branch(h):
            raise KeyError(name)
        return val

    def get(self, name, default=None):
        h, val = self._look(name)
        return val if P().branch(h) else default


class Shadows(object):
    """_shadowed_attributes"""
    _vc_ghost = True

    def _key(self, key):
        if not (type(key) is tuple and len(key) == 2 and isinstance(key[0], Cls) and isinstance(key[1], Name)):
            raise Unsupported("key %r" % (key,))
        return key[0].idx, key[1].idx

    def __contains__(self, key):
        w = P().globals["world"]
        return P().branch(w.shadow.has(*self._key(key)))

    def __getitem__(self, key):
        if key not in self:
            raise KeyError(key)
        return Val(P().globals["world"].shadow.val(*self._key(key)))

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __setitem__(self, key, value):
        w = P().globals["world"]
        w.shadow = w.shadow.put(*(self._key(key) + (value.idx,)))

    def __delitem__(self, key):
        self.pop(key)

    def pop(self, key, *default):
        w = P().globals["world"]
        if key not in self:
            if default:
                return default[0]
            raise KeyError(key)
        val = self[key]
        w.shadow = w.shadow.drop(*self._key(key))
        return val


class Active(object):
    """_active_extensions"""
    _vc_ghost = True

    def __contains__(self, e):
        return P().branch(P().globals["world"].active(e.idx))

    def add(self, e):
        w = P().globals["world"]
        old = w.active
        w.active = lambda x: z3.Or(x == e.idx, old(x))

    def remove(self, e):
        w = P().globals["world"]
        if e not in self:
            raise KeyError(e)
        old = w.active
        w.active = lambda x: z3.And(x != e.idx, old(x))

    def discard(self, e):
        if e in self:
            self.remove(e)

    def copy(self):
        return Snapshot(P().globals["world"].active)


class Registry(object):
    """_extensions"""
    _vc_ghost = True

    def keys(self):
        return self

    def copy(self):
        return self

    def __contains__(self, e):
        return P().branch(P().globals["world"].registered(e.idx))

    def __getitem__(self, e):
        w = P().globals["world"]
        if e not in self:
            raise KeyError(e)
        rt.oblige("the registry entry of the extension", e.idx == w.e)
        return ExtDict()


class ExtDict(object):
    _vc_ghost = True

    def __contains__(self, key):
        return key in P().globals["world"].hooks

    def __getitem__(self, key):
        return P().globals["world"].hooks[key]

    def get(self, key, default=None):
        return P().globals["world"].hooks.get(key, default)

    def items(self):
        w = P().globals["world"]
        return VList.of([Item((k, w.hooks[k])) for k in sorted(w.hooks) if k == SETUP]
                        + [span(w.nC, lambda i: (Cls(w.C(i)), Attrs(w.C(i))))]
                        + [Item((k, w.hooks[k])) for k in sorted(w.hooks) if k == TEARDOWN])


class Attrs(Ind):
    family = "attributes"

    def items(self):
        w = P().globals["world"]
        return VList.of([span(w.nA(self.idx), lambda j: (Name(w.A(self.idx, j)), Val(w.reg(self.idx, w.A(self.idx, j)))))])

    def keys(self):
        w = P().globals["world"]
        return VList.of([span(w.nA(self.idx), lambda j: Name(w.A(self.idx, j)))])

    vc_segs = lambda self: self.keys().segs()

    def __getitem__(self, name):
        w = P().globals["world"]
        return Val(w.reg(self.idx, name.idx))


@rt.handler(setattr)
def _setattr(o, name, value):
    if not isinstance(o, Cls):
        return NotImplemented
    w = P().globals["world"]
    m, a = w.map_of(name)
    if not isinstance(value, getattr(w, m).kind):
        raise Unsupported("value %r for %r" % (value, m))
    setattr(w, m, getattr(w, m).put(o.idx, a, value.idx))
    return True


@rt.handler(delattr)
def _delattr(o, name):
    if not isinstance(o, Cls):
        return NotImplemented
    w = P().globals["world"]
    m, a = w.map_of(name)
    if not P().branch(getattr(w, m).has(o.idx, a)):
        raise AttributeError(name)
    setattr(w, m, getattr(w, m).drop(o.idx, a))
    return True


@rt.handler(getattr)
def _getattr(o, name, *d):
    if not isinstance(o, Cls) or isinstance(name, str):
        return NotImplemented
    raise_if = name not in o.__dict__
    if raise_if:
        raise Unsupported("inherited class attribute")
    return o.__dict__[name]


_list = rt.handlers[list]


@rt.handler(list)
def list_(*a):
    """the list of the known extension names / of the active extensions: only membership matters"""
    return a[0].copy() if a and isinstance(a[0], (Registry, Active)) else _list(*a)


models.trusted("setattr/delattr on a class store/remove exactly the entry of its __dict__; attribute names of extensions do not start with the prefixes "
               "reserved by the extension mechanism")


class Patch(object):
    def __init__(self, **names):
        self.names = names

    def __enter__(self):
        self.old = {k: getattr(X, k) for k in self.names}
        for k, f in self.names.items():
            setattr(X, k, f)

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(X, k, f)


def world(v):
    w = World(v)
    P().globals["world"] = w
    return w


GHOSTS = dict(_extensions=Registry(), _active_extensions=Active(), _shadowed_attributes=Shadows())


# ------------------------------------------------------------------------------------------ _get_original_attribute
@unit("_get_original_attribute", [MOD + "_get_original_attribute"])
def original(v):
    w = world(v)
    c, a = Cls(P().fresh("cls", I_)), Name(P().fresh("attr", I_))
    with Patch(**GHOSTS):
        r = X._get_original_attribute(c, a)
    has, val = w.truth(c.idx, a.idx)
    v.oblige("a pair", type(r) is tuple and len(r) == 2)
    v.oblige("found iff some class of the hierarchy defines it apart from extensions", _z(v_eq(bool(r[0]), wrap(has))))
    if r[0]:
        v.oblige("the value of the first class that defines it apart from extensions", z3.And(has, _z(v_eq(r[1], Val(val)))))
    w.check("nothing changed", w.F0, w.put0)


def original_contract(c, a):
    w = P().globals["world"]
    spec = w.state_now
    # requires the class invariant
    w.check("_get_original_attribute requires the invariant", *spec)
    has, val = w.truth(c.idx, a.idx)
    return (True, Val(val)) if P().branch(has) else (False, None)


# ------------------------------------------------------------------------------------------ activate / deactivate
class Outer(object):
    objects = []

    def __init__(self, w, state, fact=None):
        """state(done) -> (flags, put) after treating the pairs `done`; fact(done): what is known about them"""
        self.w, self.state, self.fact = w, state, fact
        self.i = None
        self.inner = False

    def __call__(self, loop, locals_):
        if not isinstance(loop, engine.ForLoop):
            return None
        if self.i is None:
            return self
        if not self.inner:
            self.inner = True
            return Inner(self)
        return None

    def at(self, when, done):
        self.w.check("pairs treated so far, " + when, *self.state(done))
        rt.oblige("active set, " + when, self.w.active(self.q) == self.wanted_active(self.q))
        if self.fact:
            c, a = P().fresh("some_class", I_), P().fresh("some_attr", I_)
            rt.oblige("treated pairs did not collide, " + when, z3.Implies(done(c, a), self.fact(c, a)))

    def put(self, done):
        self.w.state_now = self.state(done)
        self.w.set_state(*self.w.state_now)
        if self.fact:
            c, a = z3.FreshConst(I_, "q"), z3.FreshConst(I_, "q")
            P().assume(z3.ForAll([c, a], z3.Implies(done(c, a), self.fact(c, a))), quantified=True)

    def check(self, when, k):
        self.at(when, self.w.before(k, z3.IntVal(0)))

    def havoc(self, k):
        self.i = k
        self.inner = False
        self.done = self.w.before(k, z3.IntVal(0))
        self.put(self.done)


class Inner(object):
    objects = []

    def __init__(self, outer):
        self.o = outer

    def check(self, when, k):
        self.o.at(when, self.o.w.before(self.o.i, k))

    def havoc(self, k):
        self.o.j = k
        self.o.done = self.o.w.before(self.o.i, k)
        self.o.put(self.o.done)


def hook(v, w, name, may_fail):
    if v.case("has " + name):
        def run():
            w.calls.append(name)
            if may_fail and v.case(name + " fails"):
                raise ZeroDivisionError(name)
        w.hooks[name] = run


@unit("activate_extension", [MOD + "activate_extension"])
def activate(v):
    w = world(v)
    hook(v, w, SETUP, True)
    hook(v, w, TEARDOWN, False)
    q = P().fresh("some_ext", I_)
    active0 = w.active0
    e = Ext(w.e)
    reverted = []

    def deactivate(name, verbose=False):
        """contract of deactivate_extension: removes exactly the flags of the extension"""
        reverted.append(name)
        w.check("deactivate_extension requires the invariant", *w.state_now)
        rt.oblige("only this activation is reverted", _z(v_eq(name, e)))
        rt.oblige("the extension to revert is active", w.active(w.e))
        w.set_state(*w.without(w.state_now[0], w.state_now[1], w.inD))
        old = w.active
        w.active = lambda x: z3.And(x != w.e, old(x))

    spec = Outer(w, w.with_, lambda c, a: z3.Not(w.F0.has(c, a)))
    spec.q, spec.wanted_active = q, (lambda x: z3.Or(x == w.e, active0(x)))
    w.state_now = (w.F0, w.put0)
    rt.hoare = [spec]
    with Patch(deactivate_extension=deactivate, _get_original_attribute=original_contract, **GHOSTS):
        kind, r = outcome(X.activate_extension, e)
    was = P().branch(active0(w.e))
    known = P().branch(w.registered(w.e))
    x, y = P().fresh("x", I_), P().fresh("y", I_)
    if kind == "exc":
        v.oblige("an exception", isinstance(r, (ExtensionException, ZeroDivisionError)))
        w.check("after a refused activation the classes are unchanged", w.F0, w.put0)
        v.oblige("after a refused activation the active set is unchanged", w.active(q) == active0(q))
        v.oblige("an active extension is not refused", z3.BoolVal(not (was and known)))
        if not known:
            v.oblige("nothing was called", len(w.calls) == 0)
        if known and isinstance(r, ExtensionException):
            # raised in the body of the inner loop
            v.oblige("refused only if a registered attribute is provided by another extension",
                     w.F0.has(w.C(spec.i), w.A(w.C(spec.i), spec.j)) if spec.i is not None else z3.BoolVal(False))
    else:
        v.oblige("an unknown extension is refused", z3.BoolVal(known))
        v.oblige("not reverted", not reverted)
        if was:
            w.check("activating an active extension changes no class", w.F0, w.put0)
            v.oblige("activating an active extension leaves the active set", w.active(q) == active0(q))
            v.oblige("no setup for an active extension", len(w.calls) == 0)
        else:
            w.check("exactly the registered attributes are visible", *w.with_(w.inD))
            v.oblige("exactly this extension became active", w.active(q) == z3.Or(q == w.e, active0(q)))
            v.oblige("a conflict with another active extension is refused", z3.Implies(w.inD(x, y), z3.Not(w.F0.has(x, y))))
            v.oblige_eq("the setup function was called once", w.calls, VList([SETUP] if SETUP in w.hooks else []))


@unit("deactivate_extension", [MOD + "deactivate_extension"])
def deactivate(v):
    w = world(v)
    hook(v, w, SETUP, False)
    hook(v, w, TEARDOWN, True)
    q = P().fresh("some_ext", I_)
    active0 = w.active0
    e = Ext(w.e)
    state = lambda done: w.without(w.F0, w.put0, done)
    spec = Outer(w, state)
    spec.q, spec.wanted_active = q, active0
    rt.hoare = [spec]
    with Patch(**GHOSTS):
        kind, r = outcome(X.deactivate_extension, e)
    was = P().branch(active0(w.e))
    known = P().branch(w.registered(w.e))
    if not known or not was:
        v.oblige("an unknown extension raises, an inactive one is left alone", z3.BoolVal((kind == "exc") == (not known)))
        v.oblige("kind of exception", known or isinstance(r, ExtensionException))
        w.check("no class changed", w.F0, w.put0)
        v.oblige("the active set did not change", w.active(q) == active0(q))
        v.oblige("nothing was called", len(w.calls) == 0)
        return
    v.oblige("only the teardown function may raise", kind == "ok" or isinstance(r, ZeroDivisionError))
    w.check("exactly the attributes of the extension are removed", *w.without(w.F0, w.put0, lambda c, a: z3.BoolVal(True)))
    v.oblige("exactly this extension is inactive", w.active(q) == z3.And(q != w.e, active0(q)))
    v.oblige_eq("the teardown function was called once", w.calls, VList([TEARDOWN] if TEARDOWN in w.hooks else []))


@unit("lemma: deactivation undoes activation")
def lemma(v):
    """so the classes are a function of the active extensions, and exactly the original ones if none is active"""
    w = world(v)
    v.assume(z3.Not(w.active0(w.e)))
    F, put = w.with_(w.inD)
    w.set_state(*w.without(F, put, lambda c, a: z3.BoolVal(True)))
    x, y = P().fresh("x", I_), P().fresh("y", I_)
    v.assume(z3.Implies(w.inD(x, y), z3.Not(w.F0.has(x, y))))
    own, shadow, orig, flag = w.invariant(w.F0, w.put0)
    for name, m, b in (("attribute", w.own, own), ("shadow", w.shadow, shadow), ("original", w.orig, orig), ("flag", w.flag, flag)):
        v.oblige("%s as before the activation" % name, z3.And(m.has(x, y) == b.has(x, y), z3.Implies(m.has(x, y), m.val(x, y) == b.val(x, y))))
    v.oblige("without flag the class is what it was without extensions", z3.Implies(z3.Not(w.F0.has(x, y)), z3.And(
        own.has(x, y) == w.base.has(x, y), z3.Implies(own.has(x, y), own.val(x, y) == w.base.val(x, y)), z3.Not(orig.has(x, y)), z3.Not(shadow.has(x, y)))))


# ------------------------------------------------------------------------------------------ several extensions, contexts
class Atomic(object):
    """the contracts of activate_extension / deactivate_extension as proved above, on the active set alone (the classes are a
    function of it). Which activations fail is arbitrary, but activating an active extension never does."""
    _vc_ghost = True

    def __init__(self, v):
        self.v = v
        self.active = self.active0 = fun("active", I_, B_)
        P().globals["world"] = self

    def activate(self, name, verbose=False):
        if P().branch(self.active(name.idx)):
            return
        if self.v.case("activation fails"):
            raise ExtensionException("refused")
        Active().add(name)

    def deactivate(self, name, verbose=False):
        if self.v.case("name unknown"):
            # only for extensions that are not active
            P().assume(z3.Not(self.active(name.idx)))
            raise ExtensionException("unknown")
        Active().discard(name)

    def activate_all(self, names, verbose=False):
        """contract of activate_extensions"""
        n, f = lst(names)
        if self.v.case("activation fails"):
            raise ExtensionException("refused")
        old = self.active
        j = z3.Int("aj")
        self.active = lambda x: z3.Or(old(x), z3.Exists([j], z3.And(0 <= j, j < n, f(j) == x)))

    def deactivate_all(self, names, verbose=False):
        """contract of deactivate_extensions, for a list that may contain conditional elements"""
        old = self.active
        names = VList.of(list(engine.seq_segs(names)))
        self.active = lambda x: z3.And(old(x), z3.Not(member(names, x)))
        self.deactivated = names


def member(names, x):
    """x occurs in the (symbolic) list"""
    def go(segs, depth):
        out = []
        for s in core._norm(segs):
            if isinstance(s, Item):
                out.append(s.v.idx == x)
            elif isinstance(s, Guard):
                out.append(z3.And(s.cond, go(s.segs, depth)))
            else:
                j = z3.Int("mj%d" % depth)
                out.append(z3.Exists([j], z3.And(0 <= j, j < s.count, go(s.seg(j), depth + 1))))
        return z3.Or(out) if out else z3.BoolVal(False)
    return go(list(names.segs()), 0)


def lst(names):
    segs = core._norm(list(engine.seq_segs(names)))
    if not segs:
        return z3.IntVal(0), lambda j: z3.IntVal(0)
    if len(segs) != 1 or isinstance(segs[0], (Item, Guard)):
        raise Unsupported("list %r" % (names,))
    return segs[0].count, lambda j: core._norm(segs[0].seg(j))[0].v.idx


def names(v):
    n, f = v.fresh_int("n", 0), ints("name")
    first = fun("first_position", I_, I_)
    j = z3.Int("nj")
    # first(x): the first position of x in the list
    v.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n.t), z3.And(0 <= first(f(j)), first(f(j)) <= j, f(first(f(j))) == f(j)))))
    return n.t, f, first, VList.of([span(n.t, lambda q: Ext(f(q)))])


class Activated(object):
    """after k names: active are the ones before and the first k names; listed are the newly activated ones"""
    def __init__(self, w, n, f, first):
        self.w, self.n, self.f, self.first = w, n, f, first
        self.done = False

    def __call__(self, loop, locals_):
        if self.done or not isinstance(loop, engine.ForLoop):
            return None
        lists = [x for x in locals_.values() if isinstance(x, VList) and not x.segs()]
        if len(lists) != 1:
            return None
        self.done = True
        self.list = lists[0]
        self.objects = [self.list]
        return self

    def new(self, k):
        f = self.f
        return [Rep(k, lambda i: [Guard(z3.And(z3.Not(self.w.active0(f(i))), self.first(f(i)) == i), [Item(Ext(f(i)))])])]

    def active(self, k):
        """x is one of the first k names: its first position is less than k (and it is one of the names)"""
        f, first = self.f, self.first
        return lambda x: z3.Or(self.w.active0(x), z3.And(0 <= first(x), first(x) < k, first(x) < self.n, f(first(x)) == x))

    def check(self, when, k):
        x = P().fresh("x", I_)
        rt.oblige("active so far, %s" % when, self.w.active(x) == self.active(k)(x))
        rt.oblige_eq("newly activated so far, %s" % when, self.list, VList.of(self.new(k)))

    def havoc(self, k):
        self.w.active = self.active(k)
        self.list.set_segs(self.new(k))


@unit("activate_extensions", [MOD + "activate_extensions"])
def activate_many(v):
    w = Atomic(v)
    n, f, first, L = names(v)
    spec = Activated(w, n, f, first)
    rt.hoare = [spec]
    x = P().fresh("x", I_)
    with Patch(activate_extension=w.activate, deactivate_extensions=w.deactivate_all, _active_extensions=Active()):
        kind, r = outcome(X.activate_extensions, L)
    i = P().fresh("i", I_)
    v.assume(z3.And(0 <= i, i < n))
    if kind == "ok":
        v.oblige("all are active, and those that were", z3.And(w.active(f(i)), z3.Implies(w.active0(x), w.active(x))))
        v.oblige("nothing else", w.active(x) == spec.active(n)(x))
    else:
        v.oblige("the exception of the failed activation", isinstance(r, ExtensionException))
        v.oblige("a failed activation leaves the active set as it was", w.active(x) == w.active0(x))


class Removed(object):
    objects = []

    def __init__(self, w, n, f, first):
        self.w, self.n, self.f, self.first = w, n, f, first
        self.done = False

    def __call__(self, loop, locals_):
        if self.done or not isinstance(loop, engine.ForLoop):
            return None
        self.done = True
        return self

    def active(self, k):
        f, first = self.f, self.first
        return lambda x: z3.And(self.w.active0(x), z3.Not(z3.And(0 <= first(x), first(x) < k, first(x) < self.n, f(first(x)) == x)))

    def check(self, when, k):
        x = P().fresh("x", I_)
        rt.oblige("active so far, %s" % when, self.w.active(x) == self.active(k)(x))

    def havoc(self, k):
        self.w.active = self.active(k)


@unit("deactivate_extensions", [MOD + "deactivate_extensions"])
def deactivate_many(v):
    w = Atomic(v)
    n, f, first, L = names(v)
    spec = Removed(w, n, f, first)
    rt.hoare = [spec]
    x = P().fresh("x", I_)
    with Patch(deactivate_extension=w.deactivate, _active_extensions=Active()):
        kind, r = outcome(X.deactivate_extensions, L)
    if kind == "ok":
        v.oblige("exactly the listed extensions are inactive", w.active(x) == spec.active(n)(x))
    else:
        v.oblige("only unknown extensions raise", isinstance(r, ExtensionException))
        v.oblige("nothing but listed extensions became inactive", z3.Implies(w.active0(x), z3.Or(w.active(x), spec.active(n)(x) != w.active0(x))))


class Snapshot(object):
    """contract of get_active_extensions: the extensions that are active now"""
    _vc_ghost = True

    def __init__(self, active):
        self.active = active

    def __contains__(self, e):
        return P().branch(self.active(e.idx))


@unit("get_active_extensions", [MOD + "get_active_extensions"])
def active_list(v):
    w = Atomic(v)
    with Patch(_active_extensions=Active()):
        r = X.get_active_extensions()
    a = P().fresh("a", I_)
    e = Ext(P().fresh("e", I_))
    before = Ext(a) in Active()
    Active().add(e)
    v.oblige("the active extensions, not affected by later activations", (Ext(a) in r) == before)


@unit("extension.__enter__/__exit__", [MOD + "extension.__init__", MOD + "extension.__enter__", MOD + "extension.__exit__"])
def context(v):
    """contexts nest properly; what happens inside is arbitrary, but contexts entered inside were left"""
    w = Atomic(v)
    n, f, first, L = names(v)
    ctx = track(X.extension(L))
    depth = v.choose([0, 1])
    # an outer use of the same context object
    outer = VList.of([span(v.fresh_int("n_outer", 0).t, lambda q: Ext(z3.Function("outer", I_, I_)(q)))])
    if depth:
        ctx.deactivate_exts.append(outer)
    x, i = P().fresh("x", I_), P().fresh("i", I_)
    v.assume(z3.And(0 <= i, i < n))
    with Patch(activate_extensions=w.activate_all, deactivate_extensions=w.deactivate_all, get_active_extensions=lambda: Snapshot(w.active),
               _active_extensions=Active()):
        kind, r = outcome(ctx.__enter__)
        if kind == "exc":
            v.oblige("refused by the activation", isinstance(r, ExtensionException))
            v.oblige("a refused activation leaves the context as it was", z3.And(w.active(x) == w.active0(x), z3.BoolVal(len(ctx.deactivate_exts) == depth)))
            return
        v.oblige("active inside", w.active(f(i)))
        v.oblige("those active before are active inside", z3.Implies(w.active0(x), w.active(x)))
        inside = w.active
        raised = v.case("the body raises")
        a = (ZeroDivisionError, ZeroDivisionError("body"), None) if raised else (None, None, None)
        r = ctx.__exit__(*a)
    v.oblige("exceptions of the body propagate", not r)
    v.oblige("afterwards active are exactly the extensions that were active before", w.active(x) == w.active0(x))
    v.oblige("the context can be left again by an outer use", len(ctx.deactivate_exts) == depth and (not depth or ctx.deactivate_exts[0] is outer))


@unit("extension.__init__", [MOD + "extension.__init__"])
def single(v):
    ctx = X.extension("a name")
    v.oblige("a single name", list(ctx.ext_names) == ["a name"])
    l = ["a", "b"]
    v.oblige("several names", X.extension(l).ext_names is l)


class Meta(object):
    _function_infodict = staticmethod(lambda f: f)
    _wrap_function = staticmethod(lambda wrapper, info: wrapper)


@unit("with_extension", [MOD + "with_extension"])
def decorated(v):
    w = Atomic(v)
    e = Ext(P().fresh("ext", I_))
    x = P().fresh("x", I_)
    calls = []
    arg, res = Val(P().fresh("arg", I_)), Val(P().fresh("result", I_))

    def func(*a, **k):
        calls.append((a, k, w.active))
        if v.case("the function raises"):
            raise ZeroDivisionError("body")
        return res
    failed = []

    def activate(name):
        try:
            w.activate(name)
        except ExtensionException:
            failed.append(name)
            raise
    with Patch(activate_extension=activate, deactivate_extension=w.deactivate, get_active_extensions=lambda: Snapshot(w.active), NodeMetaclass=Meta):
        kind, r = outcome(X.with_extension(e)(func), arg, key=arg)
    v.oblige("afterwards active are exactly the extensions that were active before", w.active(x) == w.active0(x))
    if failed:
        v.oblige("without activation the function is not called", not calls and kind == "exc" and isinstance(r, ExtensionException))
        return
    v.oblige("called once with the arguments", len(calls) == 1 and len(calls[0][0]) == 1 and sorted(calls[0][1]) == ["key"])
    a, k, act = calls[0]
    v.oblige("the arguments", z3.And(_z(v_eq(a[0], arg)), _z(v_eq(k["key"], arg))))
    v.oblige("the extension is active during the call, the others as before", act(x) == z3.Or(x == e.idx, w.active0(x)))
    if kind == "ok":
        v.oblige("the result is returned", _z(v_eq(r, res)))
    else:
        v.oblige("the exception of the function propagates", isinstance(r, ZeroDivisionError))
