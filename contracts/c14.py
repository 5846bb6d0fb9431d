"""C14: caching of executions.

The content of a node is a ghost state; an executor is a function of the node's content and the arguments.  joblib's contract:
Memory.cache(f)(*args) is the value of f for arguments of equal content.
"""
from .common import *
from pyvc.engine import _z
CE = sys.modules["mdp.caching.caching_extension"]

MOD = "mdp.caching.caching_extension:"
I_ = z3.IntSort()
B_ = z3.BoolSort()
f_exec = z3.Function("executed", I_, I_, I_, I_, I_)        # executor, content, input, further arguments
f_checked = z3.Function("content_after_checks", I_, I_, I_)
f_executor = z3.Function("executor_of_class", I_, I_)
f_cls = z3.Function("class_of", I_, I_)


def fun(name, *sorts):
    return z3.Function(P().fresh_name(name), *sorts)


class V(Ind):
    family = "value"


class NodeClass(Ind):
    family = "node class"


class ExecMethod(object):
    """node._non_extension_execute: a bound method"""
    _vc_ghost = True

    def __init__(self, node):
        self.node = node
        self.__func__ = Executor(f_executor(f_cls(node.idx)))

    def __call__(self, x, *a, **k):
        return self.__func__(self.node, x, *a, **k)


class Executor(Ind):
    family = "executor"

    def __call__(self, node, x, *a, **k):
        w = P().globals["world"]
        w.calls.append("execute")
        r = V(f_exec(self.idx, w.content(node.idx), x.idx, args(a, k)))
        # executing does what the checks do to the node
        w.check_node(node, x)
        return r


class Cached(object):
    """the result of Memory.cache"""
    _vc_ghost = True

    def __init__(self, memory, executor):
        self.memory, self.executor = memory, executor

    def __call__(self, node, x, *a, **k):
        w = P().globals["world"]
        w.calls.append("cache")
        return V(f_exec(self.executor.idx, w.content(node.idx), x.idx, args(a, k)))


class Memory(object):
    _vc_ghost = True

    def __init__(self, cachedir=None, verbose=0):
        self.cachedir = cachedir

    def cache(self, func, *a, **k):
        if a or k:
            raise Unsupported("options of Memory.cache")
        return Cached(self, func)


models.trusted("joblib: Memory(d).cache(f)(*args) equals f(*args) for a deterministic function f, where arguments are identified by their content "
               "(pickled state of the node, bytes, shape and dtype of the input); joblib.hash fails only for arguments that can not be pickled")
models.trusted("executing a node before its pre-execution checks gives the same value as after them (C01, C02)")


def args(a, k):
    """the further arguments as one abstract value: equal iff passed on unchanged"""
    w = P().globals["world"]
    if len(a) == 1 and a[0] is w.extra_args and sorted(k) == ["key"] and k["key"] is w.extra_kw:
        return w.both
    if not a and not k:
        return z3.IntVal(0)
    return P().fresh("other_arguments", I_)


class World(object):
    _vc_ghost = True

    def __init__(self, v):
        self.v = v
        self.calls = []
        self.content = fun("content", I_, I_)
        self.extra_args, self.extra_kw = object(), object()
        self.both = P().fresh("arguments", I_)
        self.checks = []

    def check_node(self, node, x):
        old = self.content
        self.content = lambda n: z3.If(n == node.idx, f_checked(old(node.idx), x.idx), old(n))


class Node(Ind):
    family = "node"
    is_cached = CE.CacheExecuteExtensionNode.is_cached
    set_instance_cache = CE.CacheExecuteExtensionNode.set_instance_cache
    execute = CE.CacheExecuteExtensionNode.execute

    @property
    def __class__(self):
        return NodeClass(f_cls(self.idx))

    @property
    def _non_extension_execute(self):
        return ExecMethod(self)

    def _pre_execution_checks(self, x):
        w = P().globals["world"]
        if w.v.case("checks fail"):
            w.checks.append("failed")
            raise ZeroDivisionError("checks")
        w.checks.append(x)
        w.check_node(self, x)


class NodeNo(Node):
    """with the contract of is_cached"""
    def is_cached(self):
        return P().globals["cached"]


def selection(v, name, wrap_):
    """an arbitrary list -> (list, membership)"""
    n, f = v.fresh_int("n_" + name, 0).t, fun(name, I_, I_)
    j = z3.Int("sj")
    return VList.of([Rep(n, lambda i: [Item(wrap_(f(i)))])]), lambda x: z3.Exists([j], z3.And(0 <= j, j < n, f(j) == x))


class Globals(object):
    """the module's variables are set for the duration of a unit"""
    def __init__(self, **k):
        self.k = k

    def __enter__(self):
        names = ["_cachedir", "_cacheobj", "_memory", "_cache_active_global", "_cached_classes", "_cached_instances", "_cached_methods",
                 "activate_extension", "deactivate_extension", "TemporaryDirectory", "joblib", "set_cachedir", "activate_caching", "deactivate_caching"]
        self.old = {n: getattr(CE, n) for n in names}
        for n, x in self.k.items():
            setattr(CE, n, x)

    def __exit__(self, *a):
        for n, x in self.old.items():
            setattr(CE, n, x)


class Joblib(object):
    Memory = Memory

    @staticmethod
    def hash(x, *a, **k):
        if P().globals["world"].v.case("can not be pickled"):
            raise ZeroDivisionError("pickle")
        return "<hash>"


def start(v):
    w = P().globals["world"] = World(v)
    return w


@unit("is_cached", [MOD + "CacheExecuteExtensionNode.is_cached"])
def is_cached(v):
    w = start(v)
    n = Node(P().fresh("node", I_))
    cl, incl = selection(v, "classes", NodeClass)
    ins, inins = selection(v, "instances", Node)
    g = v.fresh_bool("global")
    with Globals(_cache_active_global=g, _cached_classes=cl, _cached_instances=ins):
        r = n.is_cached()
        v.oblige("cached iff everything, its class or itself is selected", _z(v_eq(bool(r), wrap(z3.Or(term(g), incl(f_cls(n.idx)), inins(n.idx))))))


class Removals(object):
    """loop of set_instance_cache(False): the selection of another instance does not change"""
    def __init__(self, ins, other, was, pos):
        self.ins, self.other, self.was, self.pos = ins, other, was, pos
        self.objects = [ins]
        self.done = False

    def __call__(self, loop, locals_):
        if self.done:
            return None
        self.done = True
        return self

    def check(self, when, k):
        segs = list(self.ins.segs())
        n, j = engine.segs_len(segs), P().fresh("j", I_)
        at = lambda q: engine.seq_at(segs, q).idx == self.other
        rt.oblige("another selected instance stays selected, " + when, z3.Implies(self.was, z3.Or(
            [z3.And(0 <= q, q < n, at(q)) for q in (self.pos, self.pos - 1)])))
        rt.oblige("no other instance becomes selected, " + when, z3.Implies(z3.And(z3.Not(self.was), 0 <= j, j < n), z3.Not(at(j))))

    def havoc(self, k):
        n, f, j = P().fresh("n", I_), fun("left", I_, I_), z3.Int("hj")
        self.pos = P().fresh("pos", I_)
        P().assume(n >= 0)
        self.ins.set_segs([Rep(n, lambda i: [Item(Node(f(i)))])])
        P().assume(z3.Implies(self.was, z3.And(0 <= self.pos, self.pos < n, f(self.pos) == self.other)))
        P().assume(z3.Implies(z3.Not(self.was), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(j) != self.other))), quantified=True)


@unit("set_instance_cache", [MOD + "CacheExecuteExtensionNode.set_instance_cache"])
def set_instance(v):
    w = start(v)
    n, other = Node(P().fresh("node", I_)), Node(P().fresh("other", I_))
    v.assume(n.idx != other.idx)
    was, pos, j = P().fresh("was", B_), P().fresh("pos", I_), z3.Int("ij")
    m, f = v.fresh_int("n_instances", 0).t, fun("instance", I_, I_)
    ins = VList.of([Rep(m, lambda i: [Item(Node(f(i)))])])
    v.assume(z3.Implies(was, z3.And(0 <= pos, pos < m, f(pos) == other.idx)))
    v.assume(z3.Implies(z3.Not(was), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), f(j) != other.idx))))
    on = v.case("active")
    rt.hoare = [Removals(ins, other.idx, was, pos)]
    with Globals(_cached_instances=ins, _cache_active_global=False, _cached_classes=[]):
        n.set_instance_cache(on)
        now = CE._cached_instances
        v.oblige("selected iff active", (n in now) == on)
        v.oblige("another instance as before", z3.BoolVal(other in now) == was)


@unit("execute", [MOD + "CacheExecuteExtensionNode.execute"])
def execute(v):
    w = start(v)
    n, x = NodeNo(P().fresh("node", I_)), V(P().fresh("x", I_))
    # C01/C02: the pre-execution checks do not change what is computed, and doing them twice is the same
    c, y, e, a = z3.Ints("cc cy ce ca")
    v.assume(z3.ForAll([e, c, y, a], f_exec(e, f_checked(c, y), y, a) == f_exec(e, c, y, a)))
    cached = P().globals["cached"] = v.case("cached")
    mem = Memory("dir")
    none = v.case("no directory yet")
    sets = []

    def set_cachedir(*a, **k):
        sets.append((a, k))
        CE._memory = mem
        CE._cached_methods.clear()
    methods = VDict()
    before = v.case("executed before")
    ex = Executor(f_executor(f_cls(n.idx)))
    if before:
        v.assume(z3.BoolVal(not none))
        # the invariant of the table: entries belong to the current memory and to the executor of the node
        methods[n] = Cached(mem, ex) if v.case("picklable") else ex
    content0 = w.content
    extra = v.case("further arguments")
    a, k = ((w.extra_args,), {"key": w.extra_kw}) if extra else ((), {})
    with Globals(_memory=None if none else mem, _cached_methods=methods, set_cachedir=set_cachedir, joblib=Joblib):
        kind, r = outcome(n.execute, x, *a, **k)
        if w.checks == ["failed"]:
            v.oblige("refused data are refused", kind == "exc" and isinstance(r, ZeroDivisionError))
            v.oblige("nothing was computed", not w.calls)
            v.oblige("the table is unchanged: the checks are repeated next time", (n in CE._cached_methods) == bool(before))
            return
        v.oblige("no exception", kind == "ok")
        v.oblige("the value that the executor of the node gives for its content, the input and the further arguments",
                 _z(v_eq(r, V(f_exec(ex.idx, content0(n.idx), x.idx, w.both if extra else z3.IntVal(0))))))
        if not cached:
            v.oblige("a node that is not selected is executed, without the cache", w.calls == ["execute"] and not w.checks)
            v.oblige("and not registered", (n in CE._cached_methods) == bool(before))
            return
        v.oblige("at most one execution or access", len(w.calls) == 1)
        m = CE._cached_methods[n]
        v.oblige("invariant of the table: the executor of the node", _z(v_eq(m.executor if isinstance(m, Cached) else m, ex)))
        v.oblige("invariant of the table: the current cache directory", not isinstance(m, Cached) or m.memory is mem)
        v.oblige("at the first execution the node is completed before its content is used", before or len(w.checks) == 1)


class Sets(object):
    def __init__(self):
        self.calls = []

    def __call__(self, *a, **k):
        self.calls.append((a, k))


class Dir(Ind):
    """a directory name"""
    family = "directory"

    def _vc_isa(self, cls):
        return cls in (str, object)


class Temp(object):
    def __init__(self, **k):
        self.name = Dir(P().fresh("temporary", I_))
        self.kw = k


@unit("set_cachedir", [MOD + "set_cachedir"])
def set_dir(v):
    w = start(v)
    old, d = Dir(P().fresh("old_dir", I_)), Dir(P().fresh("new_dir", I_))
    first = v.case("no directory yet")
    temp = v.case("temporary")
    mem = None if first else Memory(old)
    n = Node(P().fresh("node", I_))
    methods = VDict()
    if not first:
        methods[n] = Cached(mem, Executor(0))
    with Globals(_cachedir=None if first else old, _cacheobj=None, _memory=mem, _cached_methods=methods, joblib=Joblib, TemporaryDirectory=Temp):
        CE.set_cachedir(None if temp else d)
        v.oblige("the memory works in the new directory", isinstance(CE._memory, Memory) and bool(CE._memory.cachedir == CE._cachedir))
        new = CE._cachedir
        if temp:
            v.oblige("the temporary directory is kept", isinstance(CE._cacheobj, Temp) and bool(CE._cacheobj.name == new))
        else:
            v.oblige("the directory asked for", bool(new == d))
        kept = not first and n in CE._cached_methods
        v.oblige("no method of another memory stays in the table", not kept or CE._cached_methods[n].memory is CE._memory)


@unit("activate_caching", [MOD + "activate_caching"])
def activate(v):
    w = start(v)
    n = Node(P().fresh("node", I_))
    cl = ins = None
    incl = inins = lambda x: z3.BoolVal(False)
    if v.case("classes"):
        cl, incl = selection(v, "classes", NodeClass)
    if v.case("instances"):
        ins, inins = selection(v, "instances", Node)
    old, _ = selection(v, "old_classes", NodeClass)
    old2, _ = selection(v, "old_instances", Node)
    sets, act = Sets(), Sets()
    with Globals(_cache_active_global=v.case("was global"), _cached_classes=old, _cached_instances=old2, set_cachedir=sets, activate_extension=act):
        CE.activate_caching("dir", cl, ins, verbose=3)
        v.oblige("the directory is set", len(sets.calls) == 1)
        (a, k), = sets.calls
        v.oblige("to the one asked for", (a + (k.get("cachedir"),))[0] == "dir" and (k.get("verbose") == 3 or a[1:] == (3,)))
        v.oblige("the extension is activated", act.calls == [(("cache_execute",), {})])
        sel = z3.BoolVal(True) if cl is None and ins is None else z3.Or(incl(f_cls(n.idx)), inins(n.idx))
        # by the contract of is_cached
        isc = bool(CE._cache_active_global) or NodeClass(f_cls(n.idx)) in CE._cached_classes or n in CE._cached_instances
        v.oblige("exactly the selected classes and instances are cached, all if none are selected", z3.BoolVal(bool(isc)) == sel)
        v.oblige("the caller's lists are not kept", (cl is None or CE._cached_classes is not cl) and (ins is None or CE._cached_instances is not ins))


@unit("deactivate_caching", [MOD + "deactivate_caching"])
def deactivate(v):
    w = start(v)
    old, _ = selection(v, "old_classes", NodeClass)
    old2, _ = selection(v, "old_instances", Node)
    de = Sets()
    methods = VDict()
    methods[Node(P().fresh("node", I_))] = "method"
    with Globals(_cache_active_global=v.case("was global"), _cached_classes=old, _cached_instances=old2, _cached_methods=methods, deactivate_extension=de):
        CE.deactivate_caching()
        v.oblige("the extension is deactivated", de.calls == [(("cache_execute",), {})])
        v.oblige("nothing stays selected", CE._cache_active_global is True and len(CE._cached_classes) == 0 and len(CE._cached_instances) == 0)
        v.oblige("no cached method stays", not (Node(P().fresh("other", I_)) in CE._cached_methods))


@unit("cache context", [MOD + "cache.__init__", MOD + "cache.__enter__", MOD + "cache.__exit__"])
def context(v):
    w = start(v)
    order = []
    cl, ins = object(), object()
    with Globals(activate_caching=lambda *a, **k: order.append(("on", a, k)), deactivate_caching=lambda *a, **k: order.append(("off",))):
        ctx = CE.cache("dir", cl, ins, 2)
        v.oblige("creating the context has no effect", order == [])
        ctx.__enter__()
        v.oblige("entering activates", len(order) == 1 and order[0][0] == "on")
        a, k = order[0][1:]
        full = dict(zip(("cachedir", "cache_classes", "cache_instances", "verbose"), a), **k)
        v.oblige("with the arguments of the context", full.get("cachedir") == "dir" and full.get("cache_classes") is cl
                 and full.get("cache_instances") is ins and full.get("verbose") == 2)
        e = v.case("exception")
        r = ctx.__exit__(*((ZeroDivisionError, ZeroDivisionError("body"), None) if e else (None, None, None)))
        v.oblige("leaving deactivates, exceptions propagate", len(order) == 2 and order[1][0] == "off" and not r)
