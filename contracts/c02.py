"""C02: dimensions and dtype are fixed once and enforced on all data."""
from .common import *
from mdp.signal_node import Node, PreserveDimNode, NodeException, InconsistentDimException, TrainingException
from mdp.signal_node_online import PreserveDimOnlineNode
from bimdp import PreserveDimBiNode, BiNode
from mdp import nodes as mn


def supported(v, n):
    sup = z3.Function("supported", z3.IntSort(), TSort)
    nsup = v.fresh_int("nsup", 0)
    n.g_supported = VIter([span(nsup.t, lambda j: DType(sup(j)))], "supported")
    n.g_nsup = nsup.t
    n.g_sup = sup


def is_supported(n, t):
    j = z3.Int("sj")
    return z3.Exists([j], z3.And(j >= 0, j < n.g_nsup, n.g_sup(j) == t.t))


def abstract(cls, **kw):
    """subclass with opaque implementation methods and declared dtypes"""
    d = dict(_get_supported_dtypes=lambda self: self.g_supported,
             is_trainable=lambda self: self.g_trainable, is_invertible=lambda self: True,
             _train=lambda self, x: self.g_trace.append(("train", x)),
             _stop_training=lambda self: self.g_trace.append(("stop",)),
             _execute=lambda self, x: self._rec("execute", x),
             _inverse=lambda self, x: self._rec("inverse", x))
    d.update(kw)

    def _rec(self, k, x):
        self.g_trace.append((k, x))
        return (k, x)
    d["_rec"] = _rec
    return type("Abstract" + cls.__name__, (cls,), d)


def bare(v, cls, preserve=False):
    n = cls.__new__(cls)
    track(n)
    n.g_trace = VList()
    n.g_trainable = False
    supported(v, n)
    n._input_dim = opt_int("indim", 0)
    if preserve:
        # class invariant: both set and equal, or both unset
        n._output_dim = n._input_dim
    else:
        n._output_dim = opt_int("outdim", 0)
    n._dtype = None if v.case("dtype_none") else new_dtype("dt")
    n._training = False
    n._train_phase = -1
    n._train_phase_started = False
    return n


ALL3 = ("_input_dim", "_output_dim", "_dtype")
ANode = abstract(Node)
APreserve = abstract(PreserveDimNode)
APreserveOnline = abstract(PreserveDimOnlineNode)
APreserveBi = abstract(PreserveDimBiNode)


def unchanged(v, what, n, old):
    for f, a, b in zip(ALL3, old, fields(n, *ALL3)):
        v.oblige_eq("%s: %s unchanged" % (what, f), b, a)


def dim_unit(which, cls, preserve, label, extra=None):
    attr = "_%s_dim" % which

    @unit("%s.%s_dim" % (label, which), ["%s:%s.set_%s_dim" % (cls.__mro__[1].__module__, cls.__mro__[1].__name__, which),
                                         "%s:%s._set_%s_dim" % (cls.__mro__[1].__module__, cls.__mro__[1].__name__, which)])
    def u(v):
        n = bare(v, cls, preserve)
        if extra:
            extra(v, n)
        d = opt_int("d", 0)
        old = fields(n, *ALL3)
        cur = n.__dict__[attr]
        kind, r = outcome(setattr, n, which + "_dim", d)
        if d is None:
            v.oblige("None is accepted", kind == "ok")
            unchanged(v, "None", n, old)
        elif cur is None:
            other = old[1] if which == "input" else old[0]
            if kind == "exc":
                v.oblige("a first value is refused only as inconsistent", isinstance(r, InconsistentDimException))
                unchanged(v, "refused", n, old)
                v.oblige("a first value is refused only where it conflicts with a dimension bound to it",
                         other is not None and cls.BOUND)
                if other is not None:
                    v.oblige("refused: the values differ", num_term(other) != num_term(d))
            else:
                v.oblige_eq("the value is taken", n.__dict__[attr], d)
                v.oblige_eq("the value is reported", getattr(n, which + "_dim"), d)
                v.oblige_eq("dtype unchanged", n._dtype, old[2])
                if cls.BOUND:
                    v.oblige_eq("dimension-preserving: both dimensions equal", n._input_dim, n._output_dim)
                else:
                    o = n._output_dim if which == "input" else n._input_dim
                    v.oblige_eq("the other dimension is unchanged", o, other)
        else:
            same = num_term(cur) == num_term(d)
            if kind == "exc":
                v.oblige("a different value raises InconsistentDimException", isinstance(r, InconsistentDimException))
                v.oblige("the same value is accepted", z3.Not(same))
            else:
                v.oblige("a different value is refused", same)
            unchanged(v, "already set", n, old)
    return u


for c, p, l in ((ANode, False, "Node"), (APreserve, True, "PreserveDimNode"), (APreserveOnline, True, "PreserveDimOnlineNode"),
                (APreserveBi, True, "PreserveDimBiNode")):
    c.BOUND = p
    for w in ("input", "output"):
        dim_unit(w, c, p, l)


# nodes whose output dimension follows the input dimension
def one_way(label, cls, setup=None):
    a = abstract(cls)
    a.BOUND = True

    @unit("%s.input_dim" % label, ["%s:%s._set_input_dim" % (cls.__module__, cls.__name__)])
    def u(v):
        n = bare(v, a)
        if setup:
            setup(v, n)
        if n._input_dim is not None:
            n._output_dim = n._input_dim
        old = fields(n, *ALL3)
        d = v.fresh_int("d", 0)
        kind, r = outcome(setattr, n, "input_dim", d)
        if old[0] is not None or old[1] is not None:
            cur = old[0] if old[0] is not None else old[1]
            same = num_term(cur) == d.t
            if kind == "exc":
                v.oblige("a conflicting value raises InconsistentDimException", isinstance(r, InconsistentDimException))
                v.oblige("only a conflicting value is refused", z3.Not(same))
                unchanged(v, "conflict", n, old)
            else:
                v.oblige("a conflicting value is refused", same)
                v.oblige_eq("input dim set", n._input_dim, d)
                v.oblige_eq("output dim equal", n._output_dim, d)
        else:
            v.oblige("a first value is accepted", kind == "ok")
            v.oblige_eq("input dim set", n._input_dim, d)
            v.oblige_eq("output dim follows", n._output_dim, d)
    return u


one_way("EtaComputerNode", mn.EtaComputerNode)
one_way("GrowingNeuralGasNode", mn.GrowingNeuralGasNode)
one_way("ICANode (whitened)", mn.ICANode, lambda v, n: (setattr(n, "whitened", v.case("whitened")), setattr(n, "white_comp", None)))


@unit("TimeFramesNode.input_dim", ["mdp.nodes.misc_nodes:TimeFramesNode._set_input_dim", "mdp.nodes.misc_nodes:TimeFramesNode._set_output_dim"])
def u_tf(v):
    n = bare(v, abstract(mn.TimeFramesNode))
    n._input_dim = n._output_dim = None
    n.time_frames = v.fresh_int("frames", 1)
    d = v.fresh_int("d", 0)
    n.input_dim = d
    v.oblige_eq("output dim is frames times input dim", n._output_dim, n.time_frames * d)
    v.oblige_eq("input dim", n._input_dim, d)
    old = fields(n, *ALL3)
    kind, r = outcome(setattr, n, "output_dim", v.fresh_int("o", 0))
    v.oblige("a derived output dimension cannot be set", kind == "exc" and isinstance(r, NodeException))
    unchanged(v, "derived", n, old)


@unit("Node.dtype", ["mdp.signal_node:Node.set_dtype", "mdp.signal_node:Node._set_dtype", "mdp.signal_node:Node.get_supported_dtypes"])
def u_dtype(v):
    n = bare(v, ANode)
    t = None if v.case("t_none") else new_dtype("t")
    old = fields(n, *ALL3)
    kind, r = outcome(setattr, n, "dtype", t)
    if t is None:
        v.oblige("None is accepted", kind == "ok")
        unchanged(v, "None", n, old)
        return
    if kind == "exc":
        v.oblige("refused with a node exception", isinstance(r, NodeException))
        unchanged(v, "refused", n, old)
        if old[2] is None:
            v.oblige("refused: the dtype is unsupported", z3.Not(is_supported(n, t)))
        else:
            v.oblige("refused: different from the one set, or unsupported", z3.Or(old[2].t != t.t, z3.Not(is_supported(n, t))))
        return
    v.oblige("accepted: supported", is_supported(n, t))
    v.oblige_eq("accepted: the dtype is the given one", n._dtype, t)
    if old[2] is not None:
        v.oblige_eq("accepted: same as before", t, old[2])
    v.oblige_eq("reported", n.dtype, t)
    v.oblige_eq("input dim unchanged", n._input_dim, old[0])
    v.oblige_eq("output dim unchanged", n._output_dim, old[1])


def data_ok(n, x, cols):
    return z3.And(f_ndim(x.t) == 2, f_rows(x.t) > 0, f_cols(x.t) == num_term(cols))


@unit("Node._check_input", ["mdp.signal_node:Node._check_input"])
def u_ci(v):
    n = bare(v, ANode)
    x = new_data("x")
    old = fields(n, *ALL3)
    kind, r = outcome(n._check_input, x)
    if kind == "exc":
        v.oblige("rejected with a node exception", isinstance(r, NodeException))
        if old[0] is not None and old[2] is not None:
            v.oblige("valid data is accepted", z3.Not(data_ok(n, x, old[0])))
    else:
        v.oblige("accepted data is two-dimensional, non-empty and has the node's width", data_ok(n, x, n._input_dim))
        v.oblige("dtype is known", n._dtype is not None)
        if old[2] is None:
            v.oblige_eq("unset dtype is the data's", n._dtype, x.dtype)
    if old[0] is not None:
        v.oblige_eq("a set input dim is kept", n._input_dim, old[0])
    elif n._input_dim is not None:
        v.oblige_eq("an unset input dim is the data's", n._input_dim, x.shape[1])
    if old[2] is not None:
        v.oblige_eq("a set dtype is kept", n._dtype, old[2])
    v.oblige_eq("output dim kept", n._output_dim, old[1])


@unit("Node._check_output", ["mdp.signal_node:Node._check_output"])
def u_co(v):
    n = bare(v, ANode)
    n._output_dim = v.fresh_int("o", 0)
    y = new_data("y")
    kind, r = outcome(n._check_output, y)
    ok = z3.And(f_ndim(y.t) == 2, f_cols(y.t) == n._output_dim.t)
    if kind == "exc":
        v.oblige("rejected with a node exception", isinstance(r, NodeException))
        v.oblige("valid data is accepted", z3.Not(ok))
    else:
        v.oblige("accepted data is two-dimensional with the node's width", ok)


@unit("refcast", ["mdp.utils.routines:refcast", "mdp.signal_node:Node._refcast"])
def u_refcast(v):
    n = bare(v, ANode)
    n._dtype = new_dtype("dt")
    x = new_data("x")
    r = n._refcast(x)
    v.oblige_eq("the data in the node's dtype", r, Data(cast_to(x, n._dtype)))
    v.oblige("dtype is the node's", f_dtype(r.t) == n._dtype.t)


def reach_unit(label, cls, preserve):
    @unit("%s data reaching the implementation" % label,
          ["mdp.signal_node:Node.train", "mdp.signal_node:Node.execute", "mdp.signal_node:Node.inverse",
           "mdp.signal_node:Node._pre_execution_checks", "mdp.signal_node:Node._pre_inversion_checks"], max_time=400)
    def u(v):
        n = bare(v, cls, preserve)
        op = v.choose(["train", "execute", "inverse"])
        n.g_trainable = op == "train"
        if op == "train":
            n._training, n._train_phase = True, 0
        x = new_data("x")
        old = fields(n, *ALL3)
        kind, r = outcome(getattr(n, op), x)
        tr = list(list.__iter__(n.g_trace))
        if kind == "exc":
            v.oblige("rejected with a node exception", isinstance(r, NodeException))
            v.oblige("the implementation is not called", len(tr) == 0)
        else:
            v.oblige_eq("the implementation receives the data in the node's dtype, once", n.g_trace,
                        VList([(op, Data(cast_to(x, n._dtype)))]) if n._dtype is not None else None)
            if old[2] is None:
                v.oblige("an unset dtype is taken from the first data", n._dtype is not None and n._dtype.t == f_dtype(x.t))
            w = n._input_dim if op != "inverse" else n._output_dim
            v.oblige("the data has rank two and the node's width", z3.And(f_ndim(x.t) == 2, f_cols(x.t) == num_term(w)))
            if op != "inverse":
                v.oblige("the data is not empty", f_rows(x.t) > 0)
            if op != "train":
                v.oblige("the output dim is known", n._output_dim is not None)
                if old[1] is None:
                    v.oblige_eq("an unset output dim becomes the input dim", n._output_dim, n._input_dim)
        for i, nm in ((0, "input dim"), (1, "output dim"), (2, "dtype")):
            if old[i] is not None:
                v.oblige_eq("a set %s never changes" % nm, fields(n, *ALL3)[i], old[i])
        if preserve:
            v.oblige_eq("dimension-preserving: both equal or both unset", n._input_dim, n._output_dim)
    return u


reach_unit("Node", ANode, False)
reach_unit("PreserveDimNode", APreserve, True)
