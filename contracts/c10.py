"""C10: layers run their nodes on disjoint consecutive column blocks."""
from .common import *
from .arrays import *
from mdp.hinet import layer as L

MOD = "mdp.hinet.layer:"
f_block = z3.Function("block", DSort, I_, I_, DSort)            # columns a .. b-1
f_fn = z3.Function("nodefn", z3.StringSort(), I_, DSort, ASort, DSort)      # result of execute/inverse of node j
OSort = z3.DeclareSort("OutArray")


class XData(Data):
    """data whose columns are cut into blocks"""
    def __getitem__(self, key):
        if not (isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and isinstance(key[1], slice) and key[1].step is None):
            raise Unsupported("indexing data with %r" % (key,))
        a, b = num_term(0 if key[1].start is None else key[1].start), num_term(self.shape[1] if key[1].stop is None else key[1].stop)
        t = f_block(self.t, a, b)
        P().axiom(z3.And(f_rows(t) == f_rows(self.t), f_dtype(t) == f_dtype(self.t)))
        P().axiom(z3.Implies(z3.And(0 <= a, a <= b, b <= f_cols(self.t)), f_cols(t) == b - a))
        return XData(t)


def block(x, a, b):
    return XData(f_block(x.t, num_term(a), num_term(b)))


class LWorld(object):
    _vc_ghost = True

    def __init__(self, n):
        self.n = n
        self.ind, self.outd = ints("indim"), ints("outdim")
        self.known = z3.Function(P().fresh_name("known"), I_, z3.BoolSort())
        self.tr = z3.Function(P().fresh_name("training"), I_, z3.BoolSort())
        self.inv = z3.Function(P().fresh_name("invertible"), I_, z3.BoolSort())
        self.phases = ints("phases")
        self.all_known = True
        self.trace = VList()
        k = P().fresh("wk", I_)
        self.ioff, self.ooff = prefix_sum(self.ind(k), k), prefix_sum(self.outd(k), k)


def w():
    return P().globals["layer"]


def result(kind, j, x, a):
    return XData(f_fn(z3.StringVal(kind), num_term(j), x.t, a.t))


class LNode(Ind):
    """node j of the layer: the contract of mdp.Node"""
    family = "layernode"

    def _vc_isa(self, cls):
        return cls in (mdp.Node, object)

    def _vc_type(self):
        return mdp.Node

    @property
    def input_dim(self):
        P().axiom(w().ind(self.idx) >= 0)
        return wrap(w().ind(self.idx))

    @property
    def output_dim(self):
        W = w()
        P().axiom(W.outd(self.idx) >= 0)
        if not W.all_known and not P().branch(W.known(self.idx)):
            return None
        return wrap(W.outd(self.idx))

    def is_training(self):
        return wrap(w().tr(self.idx))

    def is_invertible(self):
        return wrap(w().inv(self.idx))

    def train(self, x, *args, **kw):
        rt.oblige("only nodes in training are trained", w().tr(self.idx))
        w().trace.append(("train", wrap(self.idx), x) + tuple(args) + tuple(sorted(kw.items())))

    def stop_training(self, *args, **kw):
        rt.oblige("only nodes in training are closed", w().tr(self.idx))
        w().trace.append(("stop", wrap(self.idx)) + tuple(args) + tuple(sorted(kw.items())))

    def _pre_execution_checks(self, x):
        w().trace.append(("check", wrap(self.idx), x))

    def _run(self, kind, x, args):
        y = result(kind, self.idx, x, args[0])
        P().axiom(f_rows(y.t) >= 0)
        return y

    def execute(self, x, *args, **kw):
        return self._run("execute", x, args)

    def inverse(self, x, *args, **kw):
        return self._run("inverse", x, args)

    def _get_train_seq(self):
        P().axiom(w().phases(self.idx) >= 0)
        return VList.of([span(w().phases(self.idx), lambda q: ("phase", wrap(q)))])


class Out(SVal):
    """the array a layer fills; the blocks written to it are recorded"""
    def __setitem__(self, key, val):
        g = P().globals["out"]
        rt.oblige("the written array is the allocated one", self.t == g.const)
        if not (isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and isinstance(key[1], slice) and key[1].step is None):
            raise Unsupported("writing with key %r" % (key,))
        g.writes.append((key[1].start, key[1].stop, val))


class OutLog(object):
    def __init__(self):
        self.const = z3.Const("the_output", OSort)
        self.writes = VList()


def with_out(f):
    g = P().globals["out"] = track(OutLog())
    old = rt.handlers[np.zeros]

    def zeros(shape, dtype=None, *a, **k):
        if not (isinstance(shape, (list, tuple)) and len(shape) == 2):
            raise Unsupported("zeros")
        g.writes.append(("allocated", shape[0], shape[1], dtype))
        return Out(g.const)
    rt.handlers[np.zeros] = zeros
    try:
        return f(), g
    finally:
        rt.handlers[np.zeros] = old


def layer(v, cls=L.Layer, known=True):
    o = cls.__new__(cls)
    track(o)
    n = v.fresh_int("n", 1)
    W = P().globals["layer"] = LWorld(n)
    W.all_known = known
    o.nodes = VList.of([span(n.t, lambda j: LNode(j))])
    return o, n, W


def data(name, cols):
    x = XData(P().fresh(name, DSort))
    P().assume(z3.And(f_rows(x.t) >= 0, f_cols(x.t) == num_term(cols)))
    return x


def arg(name):
    return SVal(P().fresh(name, ASort))


def extra(v):
    k = v.choose(["none", "one", "two"])
    return {"none": (), "one": (arg("a"),), "two": (arg("a"), arg("b"))}[k]


def blocks_unit(clsname, same):
    cls = getattr(L, clsname)

    @unit(clsname + "._train", [MOD + clsname + "._train"])
    def train(v):
        o, n, W = layer(v, cls)
        x = data("x", wrap(W.ioff(n.t)))
        args = extra(v)
        o._train(x, *args)
        cut = (lambda j: x) if same else (lambda j: block(x, W.ioff(j), W.ioff(j + 1)))
        want = VList.of([Rep(n.t, lambda j: [Guard(W.tr(j), [Item(("train", wrap(j), cut(j)) + args)])])])
        v.oblige_eq("every node still in training gets its block and the arguments, once", W.trace, want)

    @unit(clsname + "._stop_training", [MOD + "Layer._stop_training"])
    def stop(v):
        o, n, W = layer(v, cls)
        dims = {}
        o._output_dim = v.fresh_int("od", 0) if v.case("dim set") else None
        before = o._output_dim

        def from_nodes(self):
            dims["asked"] = True
            return dims.setdefault("dim", wrap(W.ooff(n.t)))
        sub = type("S", (cls,), {"_get_output_dim_from_nodes": from_nodes})
        o.__class__ = sub
        args = extra(v)
        o._stop_training(*args)
        v.oblige_eq("every node still in training is closed once", W.trace,
                    VList.of([Rep(n.t, lambda j: [Guard(W.tr(j), [Item(("stop", wrap(j)) + args)])])]))
        v.oblige_eq("the output dimension", o._output_dim, before if before is not None else wrap(W.ooff(n.t)))

    @unit(clsname + "._execute", [MOD + clsname + "._execute"])
    def execute(v):
        o, n, W = layer(v, cls)
        o._input_dim, o._output_dim = wrap(W.ioff(n.t)), wrap(W.ooff(n.t))
        x = data("x", o._input_dim)
        a = arg("a")
        y, g = with_out(lambda: o._execute(x, a))
        cut = (lambda j: x) if same else (lambda j: block(x, W.ioff(j), W.ioff(j + 1)))
        ys = lambda j: result("execute", j, cut(j), a)
        v.oblige("the filled array is returned", isinstance(y, Out) and y.t == g.const)
        y0 = ys(z3.IntVal(0))
        v.oblige_eq("results side by side in node order, in an array of the right size", g.writes, VList.of(
            [Item(("allocated", wrap(f_rows(y0.t)), o._output_dim, DType(f_dtype(y0.t)))),
             Rep(n.t, lambda j: [Item((wrap(W.ooff(j)), wrap(W.ooff(j + 1)), ys(j)))])]))

    @unit(clsname + "._pre_execution_checks", [MOD + clsname + "._pre_execution_checks"])
    def pre(v):
        o, n, W = layer(v, cls)
        known = v.case("dimension becomes known")
        dims = []
        x = data("x", wrap(W.ioff(n.t)))
        o._output_dim = v.fresh_int("od", 0) if v.case("dim set") else None
        before = o._output_dim

        def from_nodes(self):
            return wrap(W.ooff(n.t)) if known else None
        base = []
        old = mdp.Node._pre_execution_checks
        o.__class__ = type("S", (cls,), {"_get_output_dim_from_nodes": from_nodes})
        mdp.Node._pre_execution_checks = lambda self, x: base.append(x)
        try:
            kind, r = outcome(o._pre_execution_checks, x)
        finally:
            mdp.Node._pre_execution_checks = old
        cut = (lambda j: x) if same else (lambda j: block(x, W.ioff(j), W.ioff(j + 1)))
        if kind == "exc":
            v.oblige("refused only when the output dimension stays unknown", before is None and not known)
            v.oblige("refused with a node exception", isinstance(r, mdp.NodeException))
            return
        v.oblige_eq("the nodes check their blocks when the dimension is unset", W.trace,
                    VList() if before is not None else VList.of([span(n.t, lambda j: ("check", wrap(j), cut(j)))]))
        v.oblige("the output dimension is known", o._output_dim is not None)
        v.oblige_eq("the output dimension", o._output_dim, before if before is not None else wrap(W.ooff(n.t)))
        v.oblige("then the normal checks", len(base) == 1 and base[0] is x)


blocks_unit("Layer", False)
blocks_unit("SameInputLayer", True)


@unit("Layer._inverse", [MOD + "Layer._inverse"])
def inverse(v):
    o, n, W = layer(v)
    o._input_dim, o._output_dim = wrap(W.ioff(n.t)), wrap(W.ooff(n.t))
    x = data("x", o._output_dim)
    a = arg("a")
    y, g = with_out(lambda: o._inverse(x, a))
    ys = lambda j: result("inverse", j, block(x, W.ooff(j), W.ooff(j + 1)), a)
    v.oblige("the filled array is returned", isinstance(y, Out) and y.t == g.const)
    y0 = ys(z3.IntVal(0))
    v.oblige_eq("results side by side in node order, in an array of the right size", g.writes, VList.of(
        [Item(("allocated", wrap(f_rows(y0.t)), o._input_dim, DType(f_dtype(y0.t)))),
         Rep(n.t, lambda j: [Item((wrap(W.ioff(j)), wrap(W.ioff(j + 1)), ys(j)))])]))


@unit("Layer capabilities", [MOD + "Layer.is_invertible", MOD + "SameInputLayer.is_invertible", MOD + "Layer.is_trainable"])
def caps(v):
    o, n, W = layer(v)
    q = z3.Int("cq")
    r = o.is_invertible()
    t = num_term(r) if is_sym(r) else z3.BoolVal(bool(r))
    v.oblige("invertible exactly if all nodes are", t == z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), W.inv(q))))
    v.oblige("a same-input layer is not invertible", L.SameInputLayer.is_invertible() is False)


@unit("Layer._get_output_dim_from_nodes", [MOD + "Layer._get_output_dim_from_nodes"])
def outdims(v):
    o, n, W = layer(v, known=False)
    r = o._get_output_dim_from_nodes()
    q = z3.Int("cq")
    all_known = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), W.known(q)))
    if r is None:
        v.oblige("unknown only when some node's is", z3.Not(all_known))
    else:
        v.oblige("known only when every node's is", all_known)
        v.oblige_eq("the sum over the nodes", r, wrap(W.ooff(n.t)))


@unit("Layer._get_train_seq", [MOD + "Layer._get_train_seq"])
def seq(v):
    o, n, W = layer(v)
    mx = ints("largest")

    def largest(k, v0=None):
        k = z3.simplify(k) if z3.is_expr(k) else z3.IntVal(k)
        # definition of the running maximum
        P().axiom(mx(z3.IntVal(0)) == 0)
        for i in (k, k - 1):
            P().axiom(z3.Implies(i >= 0, mx(i + 1) == z3.If(W.phases(i) > mx(i), W.phases(i), mx(i))))
        # it starts at 0 and never decreases
        P().axiom(z3.Implies(k >= 0, mx(k) >= 0))
        return wrap(mx(k))
    v.candidates.append(("running maximum", largest))
    r = o._get_train_seq()
    top, q = seq_len(r), z3.Int("lq")
    num = lambda j: z3.If(W.phases(j) > 0, W.phases(j), z3.IntVal(0))
    v.oblige("as many phases as the longest node", z3.Or(top == num_term(largest(n.t)), z3.And(
        z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), num(q) <= top)), z3.Exists([q], z3.And(q >= 0, q < n.t, num(q) == top)))))
    k = v.fresh_int("k", 0)
    v.assume(k.t < top)
    pair = r[k]
    v.oblige("every phase trains and closes the layer", len(pair) == 2 and pair[0] == o._train and pair[1] == o._stop_training)


def seq_len(r):
    return segs_len(seq_segs(r))


# ---- clone layer: one node, its data cut into blocks of equal width
def euclid(q, b, r):
    """b > 0 and 0 <= r < b: q*b + r has quotient q and remainder r (proved in 'division lemmas')"""
    return z3.Implies(z3.And(b > 0, r >= 0, r < b), z3.And((q * b + r) / b == q, (q * b + r) % b == r))


@unit("division lemmas", [])
def lemmas(v):
    q, b, r = [v.fresh_int(c).t for c in "qbr"]
    v.oblige("uniqueness of quotient and remainder", euclid(q, b, r))
    m, n, d, k, c = [v.fresh_int(c, 0).t for c in "mndkc"]
    v.oblige("row-major position of block k", (m * n + k) * d + c == m * (n * d) + (k * d + c))
    v.oblige("width of a row", z3.Implies(z3.And(k < n, c < d), z3.And(k * d + c >= 0, k * d + c < n * d)))
    v.oblige("row sizes", (m * (n * d)) == (m * n) * d)


class CNode(SVal):
    """the shared node: contract of mdp.Node, data as arrays"""
    def __init__(self, n, d, e):
        SVal.__init__(self, P().fresh("clone", OSort))
        self.n, self.d, self.e = n, d, e
        self.calls = []

    def _vc_isa(self, cls):
        return cls in (mdp.Node, object)

    input_dim = property(lambda self: wrap(self.d))
    output_dim = property(lambda self: wrap(self.e))

    def _run(self, kind, x, width):
        f = z3.Function(P().fresh_name(kind), I_, I_, R_)
        P().globals["clone"].append((kind, x))
        y = SArr((x.shape[0], wrap(width)), lambda i, j: f(i, j), R)
        P().globals["result"] = f
        return y

    def execute(self, x):
        return self._run("execute", x, self.e)

    def inverse(self, x):
        return self._run("inverse", x, self.d)


def clone_unit(kind):
    @unit("CloneLayer._" + kind, [MOD + "CloneLayer._" + kind])
    def run(v):
        n, d, e, m = v.fresh_int("n", 1), v.fresh_int("d", 1), v.fresh_int("e", 1), v.fresh_int("rows", 0)
        o = L.CloneLayer.__new__(L.CloneLayer)
        track(o)
        P().globals["clone"] = calls = []
        o.node = CNode(n.t, d.t, e.t)
        W, E = v.fresh_int("width", 1), v.fresh_int("owidth", 1)
        v.assume(z3.And(W.t == n.t * d.t, E.t == n.t * e.t))
        o._input_dim, o._output_dim = W, E
        a, b, A, B = (d.t, e.t, W.t, E.t) if kind == "execute" else (e.t, d.t, E.t, W.t)
        # instances of the division lemmas
        N = n.t * m.t
        v.assume(z3.And(m.t * A == N * a, N * b == m.t * B))
        v.assume(euclid(N, a, z3.IntVal(0)))
        xs = z3.Function(P().fresh_name("x"), I_, I_, R_)
        x = SArr((m, wrap(A)), lambda i, j: xs(i, j), R)
        y = getattr(o, "_" + kind)(x)
        v.oblige("the shared node runs once", len(calls) == 1 and calls[0][0] == kind)
        x2 = calls[0][1]
        r, k, c = [v.fresh_int(q, 0).t for q in "rkc"]
        v.assume(z3.And(r < m.t, k < n.t, c < a))
        v.oblige("one row per sample and block", z3.And(num_term(x2.shape[0]) == N, num_term(x2.shape[1]) == a))
        pos = k * a + c
        v.assume(z3.And((r * n.t + k) * a + c == r * A + pos, pos >= 0, pos < A))
        v.assume(euclid(r, A, pos))
        v.oblige("row r*n+k of the node's data is block k of row r", x2.at(r * n.t + k, c) == xs(r, pos))
        f = P().globals["result"]
        v.oblige("shape of the result", len(y.shape) == 2 and z3.And(num_term(y.shape[0]) == m.t, num_term(y.shape[1]) == B))
        c2 = v.fresh_int("c2", 0).t
        v.assume(c2 < b)
        pos2 = k * b + c2
        v.assume(z3.And(r * B + pos2 == (r * n.t + k) * b + c2, pos2 >= 0, pos2 < B))
        v.assume(euclid(r * n.t + k, b, c2))
        v.oblige("the node's results lie side by side in block order", y.at(r, pos2) == f(r * n.t + k, c2))


clone_unit("execute")
clone_unit("inverse")


@unit("CloneLayer._stop_training", [MOD + "CloneLayer._stop_training"])
def cstop(v):
    o, n, W = layer(v, L.CloneLayer)
    o.node = LNode(z3.IntVal(0))
    o.nodes = VList.of([span(n.t, lambda j: LNode(z3.IntVal(0)))])
    o._output_dim = v.fresh_int("od", 0) if v.case("dim set") else None
    before = o._output_dim
    total = v.fresh_int("total", 0)
    o.__class__ = type("S", (L.CloneLayer,), {"_get_output_dim_from_nodes": lambda self: total})
    args = extra(v)
    training = v.case("node trains")
    v.assume(W.tr(0) if training else z3.Not(W.tr(0)))
    o._stop_training(*args)
    v.oblige_eq("the shared node is closed exactly once", W.trace, VList.of([Item(("stop", wrap(z3.IntVal(0))) + args)] if training else []))
    v.oblige_eq("the output dimension", o._output_dim, before if before is not None else total)


@unit("CloneLayer: training", [MOD + "Layer._train"])
def ctrain(v):
    o, n, W = layer(v, L.CloneLayer)
    o.nodes = VList.of([span(n.t, lambda j: LNode(z3.IntVal(0)))])
    training = v.case("node trains")
    v.assume(W.tr(0) if training else z3.Not(W.tr(0)))
    d = W.ind(z3.IntVal(0))
    x = data("x", wrap(n.t * d))
    args = extra(v)
    v.candidates.append(("offset", lambda k, v0=None: wrap((k if z3.is_expr(k) else z3.IntVal(k)) * d)))
    o._train(x, *args)
    v.oblige_eq("the shared node learns block after block", W.trace,
                VList.of([span(n.t, lambda j: ("train", wrap(z3.IntVal(0)), block(x, j * d, (j + 1) * d)) + args)] if training else []))


# ---- construction
def init_unit(name, fns, make):
    @unit(name, fns)
    def run(v):
        P().globals["layer"] = None
        n = v.fresh_int("n", 1)
        W = P().globals["layer"] = LWorld(n)
        W.all_known = True
        cls, args, clone, same = make(n)
        ind = (lambda j: W.ind(z3.IntVal(0))) if clone else W.ind
        o = cls.__new__(cls)
        track(o)
        known = v.case("output dimensions known")
        total = v.fresh_int("total", 0)
        dt = v.choose(["given", "none"])
        dt_in = arg("dtype") if dt == "given" else None
        dt_out = arg("found dtype")
        seen, base = [], []
        o.__class__ = type("S", (cls,), {"_check_props": lambda self, d: (seen.append(d), dt_out)[1],
                                         "_get_output_dim_from_nodes": lambda self: total if known else None})
        old = mdp.Node.__init__
        log = VList()

        class Widths(SVal):
            def __setitem__(self, i, val):
                log.append((i, val))
        H = rt.handlers
        oz, oa = H[np.zeros], H.get(np.any)
        H[np.zeros] = lambda n_, *a, **k: Widths(P().fresh("widths", OSort))
        H[np.any] = models.rt.handlers[any]
        mdp.Node.__init__ = lambda self, **kw: base.append(kw)
        try:
            kind, r = outcome(o.__class__.__init__, o, *args, **({"dtype": dt_in} if dt == "given" else {}))
        finally:
            mdp.Node.__init__ = old
            H[np.zeros] = oz
            if oa is None:
                del H[np.any]
            else:
                H[np.any] = oa
        q = z3.Int("cq")
        equal = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), ind(q) == ind(z3.IntVal(0))))
        if kind == "exc":
            v.oblige("refused with a node exception", isinstance(r, mdp.NodeException))
            v.oblige("only for unequal dimensions in a same-input layer", z3.And(z3.BoolVal(same), z3.Not(equal)))
            v.oblige("nothing initialised", not base)
            return
        if same:
            v.oblige("all input dimensions are equal", equal)
        v.oblige("the nodes' properties are checked once", len(seen) == 1 and seen[0] is dt_in)
        v.oblige("the base class is initialised once", len(base) == 1 and set(base[0]) == {"input_dim", "output_dim", "dtype"})
        kw = base[0]
        total_in = ind(z3.IntVal(0)) if same else (n.t * ind(z3.IntVal(0)) if clone else W.ioff(n.t))
        v.oblige_eq("the input dimension", kw["input_dim"], wrap(total_in))
        if known:
            v.oblige_eq("the output dimension", kw["output_dim"], total)
        else:
            v.oblige("no output dimension", kw["output_dim"] is None)
        v.oblige("the dtype", kw["dtype"] is dt_out)
        tr = (lambda j: W.tr(z3.IntVal(0))) if clone else W.tr
        some = z3.Exists([q], z3.And(q >= 0, q < n.t, tr(q)))
        t = o._training
        t = num_term(t) if is_sym(t) else z3.BoolVal(bool(t))
        v.oblige("in training exactly if some node is", t == some)
        t2 = o._is_trainable
        t2 = num_term(t2) if is_sym(t2) else z3.BoolVal(bool(t2))
        v.oblige("trainable exactly if some node is in training", t2 == some)
        if clone:
            v.oblige("the shared node", isinstance(o.node, LNode) and o.node.idx == 0)
        want = VList.of([span(n.t, lambda j: LNode(z3.IntVal(0)) if clone else LNode(j))])
        v.oblige_eq("the nodes, in order", VList.of(seq_segs(o.nodes)), want)


init_unit("Layer.__init__", [MOD + "Layer.__init__"], lambda n: (L.Layer, (VList.of([span(n.t, lambda j: LNode(j))]),), False, False))
init_unit("SameInputLayer.__init__", [MOD + "SameInputLayer.__init__"],
          lambda n: (L.SameInputLayer, (VList.of([span(n.t, lambda j: LNode(j))]),), False, True))
init_unit("CloneLayer.__init__", [MOD + "CloneLayer.__init__", MOD + "Layer.__init__"],
          lambda n: (L.CloneLayer, (LNode(z3.IntVal(0)), n), True, False))
