"""C11: a flow wrapped as a node."""
from .common import *
from .arrays import *
from mdp.hinet import flownode as FN
from mdp.hinet import FlowNode

MOD = "mdp.hinet.flownode:"
f_comp = z3.Function("through", I_, DSort, DSort)       # data after the first n nodes
f_inv = z3.Function("backwards", DSort, DSort)


class FWorld(object):
    _vc_ghost = True

    def __init__(self, n):
        self.n = n
        self.tr = z3.Function(P().fresh_name("trainable"), I_, z3.BoolSort())
        self.inv = z3.Function(P().fresh_name("invertible"), I_, z3.BoolSort())
        self.len, self.phase = ints("phases"), ints("phase")
        self.indim, self.outdim, self.has_in, self.has_out = [None] * 4
        self.indim, self.outdim = ints("indim"), ints("outdim")
        self.has_in = z3.Function(P().fresh_name("has_in"), I_, z3.BoolSort())
        self.has_out = z3.Function(P().fresh_name("has_out"), I_, z3.BoolSort())
        self.trace = VList()
        j = z3.Int("wj")
        P().assume(z3.ForAll([j], z3.And(self.phase(j) >= 0, self.phase(j) <= self.len(j))), quantified=True)


def w():
    return P().globals["flownode"]


def rec(*a):
    w().trace.append(a)


def at(j):
    """instances of the world's axioms for node j"""
    W = w()
    P().axiom(z3.And(W.phase(j) >= 0, W.phase(j) <= W.len(j)))


class INode(Ind):
    """node j of the inner flow: contract of mdp.Node"""
    family = "inner"

    def _vc_isa(self, cls):
        return cls in (mdp.Node, object)

    def _vc_type(self):
        return mdp.Node

    def is_trainable(self):
        return wrap(w().tr(self.idx))

    def is_invertible(self):
        return wrap(w().inv(self.idx))

    def get_current_train_phase(self):
        at(self.idx)
        return wrap(w().phase(self.idx))

    def _get_train_seq(self):
        at(self.idx)
        return VList.of([span(w().len(self.idx), lambda q: ("phase", wrap(q)))])

    def train(self, x, *args, **kw):
        rec("train", wrap(self.idx), x, *(tuple(args) + tuple(sorted(kw.items()))))

    def stop_training(self, *args, **kw):
        rec("stop", wrap(self.idx), *(tuple(args) + tuple(sorted(kw.items()))))

    def _vc_setattr(self, name, val):
        rec("set " + name, wrap(self.idx), val)

    @property
    def input_dim(self):
        if P().branch(w().has_in(self.idx)):
            return wrap(w().indim(self.idx))
        return None

    @input_dim.setter
    def input_dim(self, val):
        rec("set input_dim", wrap(self.idx), val)

    @property
    def output_dim(self):
        if P().branch(w().has_out(self.idx)):
            return wrap(w().outdim(self.idx))
        return None

    @output_dim.setter
    def output_dim(self, val):
        rec("set output_dim", wrap(self.idx), val)


class InnerFlow(object):
    """contract of Flow (C04): execute composes, inverse composes backwards, containers forward to the node list"""
    def __init__(self, n):
        self.n = n
        self.nodes = VList.of([span(num_term(n), lambda j: INode(j))])

    def execute(self, x, nodenr=None, *args, **kw):
        m = num_term(self.n) if nodenr is None else num_term(nodenr) + 1
        rt.oblige("an existing node", z3.And(m >= 1, m <= num_term(self.n)))
        rec("execute", x, *(tuple(args) + tuple(sorted(kw.items()))))
        return Data(f_comp(m, x.t))

    def inverse(self, x):
        return Data(f_inv(x.t))

    def vc_len(self):
        return self.nodes.vc_len()

    def __iter__(self):
        return iter(self.nodes)

    def vc_segs(self):
        return self.nodes.segs()

    def __getitem__(self, i):
        return self.nodes[i]

    def _check_nodes_consistency(self, flow=None):
        rec("consistency check")
        if w().inconsistent:
            raise ValueError("inconsistent")


def make(v, cls=FlowNode):
    n = v.fresh_int("n", 1)
    W = P().globals["flownode"] = FWorld(n)
    W.inconsistent = False
    o = cls.__new__(cls)
    track(o)
    o._flow = track(InnerFlow(n))
    o._pretrained_phase = VList.of([span(n.t, lambda j: wrap(W.phase(j)))])
    return o, n, W


class SeqNode(FlowNode):
    def _fix_nodes_dimensions(self):
        rec("fix")


@unit("FlowNode._get_train_seq", [MOD + "FlowNode._get_train_seq"])
def seq(v):
    o, n, W = make(v, SeqNode)
    remaining = lambda j: W.len(j) - W.phase(j)
    has = lambda j: z3.And(W.tr(j), remaining(j) > 0)
    q = z3.Int("cq")
    some = v.case("some phases")
    if some:
        last = v.fresh_int("last", 0).t
        at(last)
        v.assume(z3.And(last < n.t, has(last)))
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q > last, q < n.t), z3.Not(has(q)))))
    else:
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), z3.Not(has(q)))))
    r = o._get_train_seq()
    empty = not isinstance(r, list) or not r
    if not some:
        v.oblige("no phases if no node has one left", empty and isinstance(r, list))
        return
    v.oblige("there are phases", not empty)
    if empty:
        return
    block = lambda j: [Guard(W.tr(j), [Rep(remaining(j), lambda q: [Item(0)])])]
    v.oblige_eq("one phase for each remaining phase of each trainable node, in order", VList.of(skeleton(r.segs())),
                VList.of([Rep(last, block), Rep(remaining(last), lambda q: [Item(0)])]))
    path, pair = some_element(v, r.segs())
    compound = len(path) == 2
    i = path[0] if compound else last
    v.oblige("a phase is a pair of functions", isinstance(pair, tuple) and len(pair) == 2)
    x, a, b = XData_("x"), arg_("a"), arg_("b")
    W.trace.set_segs([])
    pair[0](x, a)
    first = P().branch(i == 0)
    want = [Item(("train", 0, x, a))] if first else [Item(("execute", x)), Item(("train", wrap(i), Data(f_comp(i, x.t)), a))]
    v.oblige_eq("the node learns the data after the nodes before it", W.trace, VList.of(want))
    W.trace.set_segs([])
    pair[1](b)
    fin = len(W.trace) == 2 if not W.trace.sym else None
    v.oblige_eq("closing the phase closes the node's", W.trace,
                VList.of([Item(("stop", wrap(i), b))] + ([] if not fin else [Item(("fix",))])))
    if not compound and not path:
        v.oblige("the dimensions are fixed when the training is complete", fin)


def XData_(name):
    x = Data(P().fresh(name, DSort))
    P().axiom(f_rows(x.t) >= 0)
    return x


def arg_(name):
    return SVal(P().fresh(name, ASort))


@unit("FlowNode capabilities and data flow", [MOD + "FlowNode.is_trainable", MOD + "FlowNode.is_invertible", MOD + "FlowNode._execute",
                                              MOD + "FlowNode._inverse"])
def simple(v):
    o, n, W = make(v)
    q = z3.Int("cq")
    r = o.is_invertible()
    t = num_term(r) if is_sym(r) else z3.BoolVal(bool(r))
    v.oblige("invertible exactly if all nodes are", t == z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), W.inv(q))))
    b = v.fresh_bool("trainable")
    o._is_trainable = b
    v.oblige("trainable as found on construction", o.is_trainable() is b or o.is_trainable() == b)
    x = XData_("x")
    y = o._execute(x)
    z = o._inverse(x)
    v.oblige_eq("executes like the flow", y, Data(f_comp(n.t, x.t)))
    v.oblige_eq("inverts like the flow", z, Data(f_inv(x.t)))


@unit("FlowNode.__init__", [MOD + "FlowNode.__init__"])
def init(v):
    n = v.fresh_int("n", 1)
    W = P().globals["flownode"] = FWorld(n)
    W.inconsistent = False
    flow = track(InnerFlow(n))
    ind, outd = opt_int("input_dim", 1), opt_int("output_dim", 1)
    dt = arg_("dtype") if v.case("dtype given") else None
    o = FlowNode.__new__(FlowNode)
    track(o)
    base = []
    k = P().fresh("wk", I_)
    total = prefix_sum(z3.If(W.tr(k), W.len(k) - W.phase(k), z3.IntVal(0)), k)
    v.candidates.append(("remaining phases", lambda k, v0=None: wrap(total(k if z3.is_expr(k) else z3.IntVal(k)))))
    old = mdp.Node.__init__
    last_dt = DType(P().fresh("last_dtype", TSort))
    INode.dtype = property(lambda self: (rt.oblige("dtype of the last node", self.idx == n.t - 1), last_dt)[1])
    mdp.Node.__init__ = lambda self, **kw: base.append((kw, self._training, self._is_trainable))
    try:
        o.__init__(flow, ind, outd, dt)
    finally:
        mdp.Node.__init__ = old
        del INode.dtype
    v.oblige("the wrapped flow", o._flow is flow)
    v.oblige("the base class is initialised once", len(base) == 1 and set(base[0][0]) == {"input_dim", "output_dim", "dtype"})
    kw, training, trainable = base[0]
    lastn = n.t - 1
    in0, outn = wrap(W.indim(z3.IntVal(0))), wrap(W.outdim(lastn))
    if ind is not None:
        v.oblige_eq("the given input dimension", kw["input_dim"], ind)
    elif kw["input_dim"] is None:
        v.oblige("no input dimension", z3.Not(W.has_in(0)))
    else:
        v.oblige_eq("the first node's input dimension", kw["input_dim"], in0)
        v.oblige("it is known", W.has_in(0))
    if outd is not None:
        v.oblige_eq("the given output dimension", kw["output_dim"], outd)
    elif kw["output_dim"] is None:
        v.oblige("no output dimension", z3.Not(W.has_out(lastn)))
    else:
        v.oblige_eq("the last node's output dimension", kw["output_dim"], outn)
        v.oblige("it is known", W.has_out(lastn))
    v.oblige("the dtype", kw["dtype"] is dt if dt is not None else v_same(kw["dtype"], last_dt))
    v.oblige_eq("the phases done before are stored", VList.of(seq_segs(o._pretrained_phase)),
                VList.of([span(n.t, lambda j: wrap(W.phase(j)))]))
    q = z3.Int("cq")
    some = z3.Exists([q], z3.And(q >= 0, q < n.t, W.tr(q), W.len(q) > W.phase(q)))
    # a sum of non-negative terms is zero exactly if all are (lemma 'sums of non-negative terms')
    P().assume((total(n.t) == 0) == z3.Not(some), quantified=True)
    for what in (training, trainable):
        t = num_term(what) if is_sym(what) else z3.BoolVal(bool(what))
        v.oblige("trainable and in training exactly if a phase remains", t == some)


def v_same(a, b):
    e = core.v_eq(a, b)
    return e


@unit("sums of non-negative terms", [])
def sums(v):
    """if the terms are non-negative: a partial sum is 0 exactly if all its terms are (induction over its length)"""
    f, S = ints("f"), ints("S")
    q = z3.Int("cq")
    k = v.fresh_int("k", 0).t
    v.assume(z3.ForAll([q], f(q) >= 0))
    v.assume(z3.And(S(z3.IntVal(0)) == 0, S(k + 1) == S(k) + f(k)))
    some = lambda m: z3.Exists([q], z3.And(q >= 0, q < m, f(q) > 0))
    hyp = lambda m: z3.And(S(m) >= 0, (S(m) == 0) == z3.Not(some(m)))
    v.oblige("initially", hyp(z3.IntVal(0)))
    v.assume(hyp(k))
    v.oblige("preserved", hyp(k + 1))


class Dims(FlowNode):
    """the base class's dimension properties, by contract (proved in C02): setting an equal or unset dimension
    reaches the implementation"""
    input_dim = property(lambda self: self._input_dim)

    @property
    def output_dim(self):
        return self._output_dim

    @output_dim.setter
    def output_dim(self, val):
        rec("own output_dim", val)


@unit("FlowNode._set_input_dim", [MOD + "FlowNode._set_input_dim"])
def set_in(v):
    o, n, W = make(v)
    W.inconsistent = v.case("inconsistent")
    o._input_dim = before = opt_int("before", 1)
    o._training = v.case("training")
    o.__class__ = type("S", (Dims,), {"_fix_nodes_dimensions": lambda self: rec("fix")})
    val = v.fresh_int("val", 1)
    kind, r = outcome(o._set_input_dim, val)
    v.oblige_eq("refused exactly if the flow is inconsistent", kind == "exc", W.inconsistent)
    want = [Item(("set input_dim", 0, val)), Item(("consistency check",))]
    if kind == "exc":
        v.oblige("the check's exception", isinstance(r, ValueError))
        v.oblige("unchanged", o._input_dim is before)
    else:
        v.oblige_eq("set", o._input_dim, val)
        if not o._training:
            # (setting the own output dimension reaches _set_output_dim, see there)
            known = P().branch(W.has_out(n.t - 1))
            want.append(Item(("own output_dim", wrap(W.outdim(n.t - 1)))) if known else Item(("fix",)))
    v.oblige_eq("the first node gets the dimension, the flow is checked, then the output dimension follows", W.trace, VList.of(want))


@unit("FlowNode._fix_nodes_dimensions", [MOD + "FlowNode._fix_nodes_dimensions"])
def fix(v):
    o, n, W = make(v, Dims)
    o._output_dim = None
    W.inconsistent = v.case("inconsistent")
    # (an unknown output dimension is passed on as None, which the node ignores)
    q = z3.Int("cq")
    multi = P().branch(n.t > 1)
    v.assume(z3.ForAll([q], W.has_out(q)))
    kind, r = outcome(o._fix_nodes_dimensions)
    want = []
    if multi:
        want += [Rep(n.t - 1, lambda j: [Guard(z3.Not(W.has_in(j + 1)), [Item(("set input_dim", wrap(j + 1), wrap(W.outdim(j))))])]),
                 Item(("consistency check",))]
    if kind == "exc":
        v.oblige("only an inconsistent flow is refused", isinstance(r, ValueError) and W.inconsistent and multi)
    else:
        want.append(Item(("own output_dim", wrap(W.outdim(n.t - 1)))))
    v.oblige_eq("unknown input dimensions are taken from the node before", W.trace, VList.of(want))


@unit("FlowNode._set_output_dim", [MOD + "FlowNode._set_output_dim"])
def set_out(v):
    """setting a dimension that differs from the last node's is refused"""
    o, n, W = make(v)
    o._output_dim = before = opt_int("before", 1)
    last = n.t - 1
    single = P().branch(n.t == 1)
    lw = P().globals["last"] = {"out": opt_int("last out", 0), "in": opt_int("last in", 0), "fixable": opt_int("fixed to", 0)}
    known = lw["out"] is not None

    class Last(INode):
        input_dim = property(lambda self: lw["in"])

        @property
        def output_dim(self):
            return lw["out"]

        @output_dim.setter
        def output_dim(self, val):
            rec("last set", val)
            rt.oblige("the last node's dimension is only set when it is unknown", lw["out"] is None)
            lw["out"] = val
    the_last = Last(last)
    o._flow.nodes = VList.of([span(last, lambda j: INode(j)), Item(the_last)])
    o.__class__ = type("S", (FlowNode,), {"_fix_nodes_dimensions": lambda self: (rec("fix"), lw.__setitem__("out", lw["fixable"]))[0]})
    val = v.fresh_int("val", 0)
    kind, r = outcome(o._set_output_dim, val)
    if kind == "exc":
        v.oblige("refused with a dimension error", isinstance(r, mdp.InconsistentDimException))
        v.oblige("unchanged", o._output_dim is before)
        if lw["out"] is None:
            v.oblige("only if the last node's dimensions are all unknown", not known and lw["in"] is None and not single)
        else:
            v.oblige("only if the last node has another dimension", num_term(lw["out"]) != val.t)
    else:
        v.oblige_eq("set", o._output_dim, val)
        v.oblige_eq("the last node has it too", lw["out"], val)


@unit("FlowNode containers", [MOD + "FlowNode.__len__", MOD + "FlowNode.__getitem__", MOD + "FlowNode.__iter__", MOD + "FlowNode.__contains__"])
def containers(v):
    o, n, W = make(v)
    calls = []

    class FF(object):
        def __getitem__(self, k):
            calls.append(("get", k))
            return "item"

        def __contains__(self, k):
            calls.append(("in", k))
            return "inside"

        def __iter__(self):
            calls.append("iter")
            return "iterator"

        def vc_len(self):
            return n
    o._flow = FF()
    k = v.fresh_int("k")
    v.oblige_eq("length", o.__len__(), n)
    v.oblige("item", o.__getitem__(k) == "item" and calls[-1] == ("get", k))
    v.oblige("contains", o.__contains__(k) == "inside" and calls[-1] == ("in", k))
    v.oblige("iteration", o.__iter__() == "iterator" and calls[-1] == "iter")


@unit("FlowNode.copy", [MOD + "FlowNode.copy"])
def copy_(v):
    o, n, W = make(v)

    class CNode(Ind):
        family = "copied"
    INode.copy = lambda self, *a: CNode(self.idx)
    o._flow.flow = o._flow.nodes
    nodes_before = VList.of(seq_segs(o._flow.nodes))
    seen = []

    class CopyFlow(object):
        flow = None

        def __getitem__(self, s):
            rt.oblige("the nodes are still there when they are read", self.flow is not None)
            return VList.of(seq_segs(self.flow))
    fl = CopyFlow()
    fl.flow = VList.of(seq_segs(nodes_before))
    o._flow = fl
    the_copy = FlowNode.__new__(FlowNode)
    the_copy._flow = CopyFlow()
    old = FN._copy.deepcopy

    def deepcopy(x, memo=None):
        rt.oblige("the flow node is copied without its nodes", x is o and fl.flow is None)
        return the_copy
    FN._copy = type("M", (), {"deepcopy": staticmethod(deepcopy)})
    try:
        r = o.copy()
    finally:
        import copy
        FN._copy = copy
        del INode.copy
    v.oblige("a deep copy", r is the_copy)
    v.oblige_eq("with the nodes' copies in order", VList.of(seq_segs(r._flow.flow)), VList.of([span(n.t, lambda j: CNode(j))]))
    v.oblige_eq("the original keeps its nodes", VList.of(seq_segs(o._flow.flow)), nodes_before)
    v.oblige("the original keeps its flow", o._flow is fl)


# ---------------------------------------------------------------- dtypes
f_known = z3.Function("known_dtype", I_, z3.BoolSort())
f_supports = z3.Function("node_supports", I_, I_, z3.BoolSort())
f_common = z3.Function("first_nodes_support", I_, I_, z3.BoolSort())        # all of the first k nodes support q


class DTy(Ind):
    family = "dtype"


class TSet(object):
    """a set of dtypes"""
    _vc_ghost = True

    def __init__(self, has):
        self.has = has

    def intersection(self, *others):
        has = self.has
        for o in others:
            if not isinstance(o, TSet):
                raise Unsupported("intersection with %r" % (o,))
            has = (lambda a, b: lambda q: z3.And(a(q), b(q)))(has, o.has)
        return TSet(has)

    __and__ = intersection

    def intersection_update(self, *others):
        self.has = self.intersection(*others).has

    def union(self, o):
        a = self.has
        return TSet(lambda q: z3.Or(a(q), o.has(q)))

    __or__ = union

    def difference(self, o):
        a = self.has
        return TSet(lambda q: z3.And(a(q), z3.Not(o.has(q))))

    __sub__ = difference

    def copy(self):
        return TSet(self.has)


def common_at(k, q):
    P().axiom(z3.And(f_common(0, q) == f_known(q), z3.Implies(k >= 0, f_common(k + 1, q) == z3.And(f_common(k, q), f_supports(k, q)))))


class SupportLoop(object):
    """types == the known dtypes that the first k nodes support"""
    def __init__(self, loop, locals_):
        self.objects = []
        self.k = z3.IntVal(0)
        self.names = [a for a, b in locals_.items() if isinstance(b, TSet)]

    def check(self, when, k):
        pass

    def havoc(self, k):
        self.k = k

    def check_locals(self, when, l):
        q = rt.fresh_int("some_dtype").t
        k = {"at the start": z3.IntVal(0)}.get(when)
        for a in self.names:
            if not isinstance(l.get(a), TSet):
                raise Unsupported("%s is no set of dtypes" % a)
            k = self.k + 1 if when == "preserved" else z3.IntVal(0)
            common_at(self.k, q)
            rt.oblige("%s: the dtypes the nodes support so far" % when, l[a].has(q) == f_common(k, q))

    def havoc_locals(self, l):
        k = self.k
        return {a: TSet(lambda q: f_common(k, q)) for a in self.names}


@unit("FlowNode dtypes", [MOD + "FlowNode._get_supported_dtypes", MOD + "FlowNode._set_dtype"])
def dtypes(v):
    o, n, W = make(v)
    H = rt.handlers
    keep = {f: H.get(f) for f in (set, list, mdp.utils.get_dtypes, frozenset)}
    to_list = keep[list]
    H[mdp.utils.get_dtypes] = lambda kind, *a: TSet(f_known) if kind == "All" else TSet(lambda q: z3.Bool("is_%s(%s)" % (kind, q)))
    same = lambda x=None, *a: x.copy() if isinstance(x, TSet) else (keep[set] or set)(x) if x is not None else set()
    H[set] = H[frozenset] = same
    H[list] = lambda *a: a[0].copy() if a and isinstance(a[0], TSet) else to_list(*a)
    INode.get_supported_dtypes = INode._get_supported_dtypes = lambda self: TSet(lambda q: f_supports(self.idx, q))
    INode.dtype = property(lambda self: None if P().branch(z3.Function("no_dtype", I_, z3.BoolSort())(self.idx)) else DTy(z3.Function("dtype_of", I_, I_)(self.idx)),
                           lambda self, t: rec("set dtype", wrap(self.idx), t))
    try:
        rt.hoare = [SupportLoop]
        r = o._get_supported_dtypes()
        q = v.fresh_int("dtype").t
        v.oblige("the dtypes that all nodes support", isinstance(r, TSet) and r.has(q) == f_common(num_term(n), q))
        rt.hoare = []
        t = DTy(z3.IntVal(5))
        W.trace = VList()
        o._set_dtype(t)
        v.oblige_eq("every node gets the dtype", W.trace, VList.of([Rep(num_term(n), lambda j: [Item(("set dtype", wrap(j), t))])]))
        v.oblige("and the flow node", o._dtype is t)
    finally:
        del INode.get_supported_dtypes, INode._get_supported_dtypes, INode.dtype
        for f, h in keep.items():
            if h is None:
                H.pop(f, None)
            else:
                H[f] = h
