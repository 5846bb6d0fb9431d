"""C22: online nodes and online flows update in stream order, once per sample."""
from .flowmodel import *
from mdp.signal_node_online import OnlineNode, OnlineNodeException
from mdp.linear_flows_online import (OnlineFlow, OnlineFlowException, CircularOnlineFlow, CircularOnlineFlowException)
from mdp.linear_flows_online import __name__ as _modname

f_row = z3.Function("row", DSort, z3.IntSort(), DSort)      # sample i of a batch, as a one-row array


class Rows(Sym):
    """x[:, None, :]: the samples one by one"""
    def __init__(self, x):
        object.__setattr__(self, "x", x)

    def _vc_isa(self, cls):
        return cls in (np.ndarray, object)

    def _vc_hasattr(self, n):
        return hasattr(np.ndarray, n)

    def _vc_type(self):
        return np.ndarray

    def vc_segs(self):
        x = self.x
        P().axiom(f_rows(x.t) >= 0)
        return [Rep(f_rows(x.t), lambda i: [Item(OData(f_row(x.t, i)))])]

    @property
    def shape(self):
        return (wrap(f_rows(self.x.t)), 1, wrap(f_cols(self.x.t)))

    @property
    def ndim(self):
        return 3


class OData(Data):
    def astype(self, t):
        return OData(Data.astype(self, t).t)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 3 and k[1] is None and k[0] == slice(None) and k[2] == slice(None):
            return Rows(self)
        rows = k[0] if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None) else k
        if isinstance(rows, slice) and rows.step is None and rows.start is not None and rows.stop is not None:
            n = f_rows(self.t)
            lo, hi = num_term(rows.start), num_term(rows.stop)
            P().axiom(n >= 0)
            if P().branch(z3.And(0 <= lo, lo < n, hi == lo + 1)):
                return OData(f_row(self.t, lo))             # one sample
        raise Unsupported("index %r of abstract data" % (k,))


def odata(name="x"):
    return OData(P().fresh(name, DSort))


SAMPLES = 2


# ---------------------------------------------------------------- OnlineNode
class AOnline(OnlineNode):
    """online node with abstract learners: n phases, all of them active"""
    def _get_train_seq(self):
        return self.g_seq

    def is_trainable(self):
        return self.g_trainable

    def is_invertible(self):
        return True

    def _get_supported_dtypes(self):
        return self.g_supported

    def _get_supported_training_types(self):
        return self.g_types

    def _check_params(self, x):
        if self.g_badparams:
            raise OnlineNodeException("bad parameters")

    def _check_train_args(self, x, *a, **k):
        if self.g_badargs:
            raise TrainingException("bad args")

    def _execute(self, x, *a, **k):
        self.g_trace.append(("execute", x) + a)
        return ("result", x)

    def _inverse(self, x, *a, **k):
        self.g_trace.append(("inverse", x) + a)
        return ("inv", x)


class AnySeq(VIter):
    def __init__(self, segs):
        VIter.__init__(self, segs, "train_seq")


def phase_seq(n, trace, three):
    def run(j, x, *a, **k):
        return Data(f_exec(j, x.t))

    def elem(j):
        e = (Fn(j, "train", trace), Fn(j, "stop", trace))
        return e + (Fn(j, "exec", trace, run),) if three else e
    return AnySeq([span(n.t, elem)])


def make_online(v, three=True, how="any", trains=None):
    n = AOnline.__new__(AOnline)
    track(n)
    n.g_trace = VList()
    n.g_trainable = v.case("trainable") if trains is None else True
    n.g_badargs = False
    n.g_badparams = False
    n.g_types = ["incremental", "batch"]
    n.g_three = three
    nph = v.fresh_int("phases", 1)
    n.g_n = nph
    n.g_seq = phase_seq(nph, n.g_trace, three)
    sup = z3.Function("supported", z3.IntSort(), TSort)
    nsup = v.fresh_int("nsup", 0)
    n.g_supported = VIter([span(nsup.t, lambda j: DType(sup(j)))], "supported")
    n._input_dim = opt_int("indim", 0)
    n._output_dim = opt_int("outdim", 0)
    n._dtype = None if v.case("dtype_none") else new_dtype("dt")
    n._numx_rng = "generator"
    n._train_iteration = v.fresh_int("iteration", 0)
    n._training_type = how
    if how == "any":
        n._training_type = v.choose([None, "incremental", "batch"])
    if how is None:
        n.g_types = v.choose([["incremental", "batch"], ["batch", "incremental"]])
    if n.g_trainable:
        # all phases are active together: the phase index is 0 until training is stopped
        n._training = v.case("training") if trains is None else trains
        if n._training:
            n._train_phase = 0
            n._train_phase_started = v.case("started")
        else:
            n._train_phase = nph
            n._train_phase_started = False
    else:
        n._training, n._train_phase, n._train_phase_started = False, -1, False
    return n


STATE = ("_training", "_train_phase", "_train_phase_started", "_train_iteration", "_input_dim", "_output_dim", "_dtype",
         "_training_type")


def state(n):
    return fields(n, *STATE)


def same_state(v, name, n, old, only=STATE):
    for f, a, b in zip(STATE, old, state(n)):
        if f in only:
            v.oblige_eq("%s: %s unchanged" % (name, f), a, b)


def one_pass(n, x, args):
    """spec: x handed to the phases in order, each phase's execution function feeding the next"""
    def phase(j):
        y = comp(j, x)
        out = [Item(("train", wrap(j), y) + args)]
        if n.g_three:
            out.append(Item(("exec", wrap(j), y) + args))
        else:
            out = [Item(("train", wrap(j), x) + args)]
        return out
    return Rep(n.g_n.t, phase)


def training_calls(n, x, args, how):
    if how == "incremental":
        return [Rep(f_rows(x.t), lambda i: [one_pass(n, OData(f_row(x.t, i)), args)])]
    return [one_pass(n, x, args)]


def default_type(n, old):
    return old if old is not None else n.g_types[0]


@unit("OnlineNode.train [refused]", ["mdp.signal_node_online:OnlineNode.train"])
def u_refused(v):
    n = make_online(v, how="batch")
    what = "state"
    if n._training:
        what = v.choose(["arguments", "parameters"])
        n.g_badargs = what == "arguments"
        n.g_badparams = not n.g_badargs
    x = odata("x")
    args = v.choose([(), (new_data("arg"),)])
    old = state(n)
    kind, r = outcome(n.train, x, *args)
    v.oblige_eq("learners not called", n.g_trace, VList())
    if what == "state":
        want = IsNotTrainableException if not n.g_trainable else TrainingFinishedException
        v.oblige("not in training: refused", kind == "exc" and isinstance(r, want))
        return same_state(v, "not in training", n, old)
    v.oblige("bad arguments or parameters are refused", kind == "exc" and isinstance(r, NodeException))
    same_state(v, "rejected data", n, old, STATE[:4])


def train_unit(three, how):
    @unit("OnlineNode.train [phases with%s execution, %s]" % ("" if three else "out", how or "default type"),
          ["mdp.signal_node_online:OnlineNode.train", "mdp.signal_node_online:OnlineNode._check_input"])
    def u(v):
        v.candidates += [COMP]
        n = make_online(v, three, how, True)
        x = odata("x")
        args = v.choose([(), (new_data("arg"),)]) if how else ()
        old = state(n)
        kind, r = outcome(n.train, x, *args)
        if kind == "exc":
            v.oblige("rejected data: node exception", isinstance(r, NodeException))
            v.oblige_eq("rejected data: learners not called", n.g_trace, VList())
            same_state(v, "rejected data", n, old, STATE[:4])
            if old[4] is not None and old[6] is not None:
                v.oblige("valid data is not rejected", z3.Not(z3.And(f_ndim(x.t) == 2, f_rows(x.t) > 0, f_cols(x.t) == old[4].t)))
            return
        xx = OData(cast_to(x, n._dtype))
        how_ = default_type(n, old[7])
        P().axiom(f_rows(xx.t) == f_rows(x.t))
        v.oblige_eq("the training type is the chosen one, or the first supported", n._training_type, how_)
        v.oblige_eq("every sample (or the batch), cast, exactly once, in order, through every phase",
                    n.g_trace, SSeq(training_calls(n, xx, args, how_)))
        v.oblige_eq("the iteration counter advances by the number of samples", n._train_iteration,
                    wrap(old[3].t + f_rows(x.t)))
        v.oblige_eq("training has started", n._train_phase_started, True)
        v.oblige_eq("still in training", n._training, True)
        v.oblige_eq("phase index", n._train_phase, 0)
    return u


for _three in (True, False):
    for _how in ("incremental", "batch", None):
        train_unit(_three, _how)


@unit("OnlineNode.stop_training", ["mdp.signal_node_online:OnlineNode.stop_training"])
def u_stop(v):
    n = make_online(v)
    args = v.choose([(), (new_data("arg"),)])
    old = state(n)
    kind, r = outcome(n.stop_training, *args)
    if not old[0]:
        v.oblige("finished or not trainable: TrainingFinishedException", kind == "exc" and isinstance(r, TrainingFinishedException))
        v.oblige_eq("finished: finishers not called", n.g_trace, VList())
        return same_state(v, "finished", n, old)
    if not old[2]:
        v.oblige("no data: TrainingException", kind == "exc" and isinstance(r, TrainingException)
                 and not isinstance(r, TrainingFinishedException))
        v.oblige_eq("no data: finishers not called", n.g_trace, VList())
        return same_state(v, "no data", n, old)
    v.oblige("closing succeeds", kind == "ok")
    if kind != "ok":
        return
    v.oblige_eq("every phase is closed once, in order", n.g_trace,
                SSeq([Rep(n.g_n.t, lambda j: [Item(("stop", wrap(j)) + args)])]))
    v.oblige_eq("no longer training", n._training, False)
    v.oblige_eq("no phase remains", n._train_phase, n.g_n)
    v.oblige_eq("nothing open", n._train_phase_started, False)
    same_state(v, "closing", n, old, STATE[3:])


@unit("OnlineNode.execute", ["mdp.signal_node_online:OnlineNode._pre_execution_checks"])
def u_execute(v):
    v.candidates += [COMP]
    n = make_online(v)
    x = odata("x")
    args = v.choose([(), (new_data("arg"),)])
    old = state(n)
    fresh_node = n.g_trainable and old[0] and not old[2]
    kind, r = outcome(n.execute, x, *args)
    if kind == "exc":
        v.oblige("failure is a node exception", isinstance(r, NodeException))
        v.oblige_eq("still in the same training state", n._training, old[0])
        if old[4] is not None and old[6] is not None:
            v.oblige("valid data is not rejected", z3.Not(z3.And(f_ndim(x.t) == 2, f_rows(x.t) > 0, f_cols(x.t) == old[4].t)))
        return
    xx = OData(cast_to(x, n._dtype))
    P().axiom(f_rows(xx.t) == f_rows(x.t))
    pre = training_calls(n, xx, (), default_type(n, old[7])) if fresh_node else []
    v.oblige_eq("the implementation runs once on the cast data (a node that saw nothing is first trained on it); nothing is closed",
                n.g_trace, SSeq(pre + [Item(("execute", xx) + args)]))
    v.oblige_eq("the result is the implementation's", r, ("result", xx))
    v.oblige_eq("executing does not end training", n._training, old[0])
    v.oblige_eq("phase index unchanged", n._train_phase, old[1])
    if not fresh_node:
        v.oblige_eq("no training iteration is counted", n._train_iteration, old[3])
        v.oblige_eq("started flag unchanged", n._train_phase_started, old[2])
    v.oblige_eq("input dim is the data's", n._input_dim, x.shape[1])
    v.oblige_eq("an unset output dim becomes the input dim", n._output_dim, n._input_dim if old[5] is None else old[5])


@unit("OnlineNode.inverse", ["mdp.signal_node_online:OnlineNode._pre_inversion_checks"])
def u_inverse(v):
    n = make_online(v)
    y = odata("y")
    args = v.choose([(), (new_data("arg"),)])
    old = state(n)
    kind, r = outcome(n.inverse, y, *args)
    same_state(v, "inverting", n, old, STATE[:4])
    if kind == "exc":
        v.oblige("failure is a node exception", isinstance(r, NodeException))
        v.oblige_eq("nothing was called", n.g_trace, VList())
        if old[5] is not None and old[6] is not None:
            v.oblige("valid data is not refused", z3.Not(z3.And(f_ndim(y.t) == 2, f_cols(y.t) == old[5].t)))
        return
    yy = OData(cast_to(y, n._dtype if n._dtype is not None else DEFAULT_DTYPE))
    v.oblige_eq("the inverse runs once on the cast data", n.g_trace, VList([("inverse", yy) + args]))
    v.oblige_eq("the result is the implementation's", r, ("inv", yy))


@unit("OnlineNode.set_training_type", ["mdp.signal_node_online:OnlineNode.set_training_type",
                                       "mdp.signal_node_online:OnlineNode.get_current_train_iteration"])
def u_type(v):
    n = make_online(v)
    n.g_types = v.choose([["incremental", "batch"], ["batch"], ["incremental"]])
    t = v.choose(["incremental", "batch", "other", None])
    old = state(n)
    kind, r = outcome(n.set_training_type, t)
    if t in n.g_types:
        v.oblige("a supported type is accepted", kind == "ok")
        v.oblige_eq("and is set", n._training_type, t)
    else:
        v.oblige("an unknown type is refused", kind == "exc" and isinstance(r, OnlineNodeException))
        same_state(v, "refused", n, old)
    same_state(v, "setting the type", n, old, STATE[:7])
    v.oblige_eq("the iteration counter is reported", n.get_current_train_iteration(), old[3])


@unit("OnlineNode._get_train_seq", ["mdp.signal_node_online:OnlineNode._get_train_seq"])
def u_default(v):
    class N(OnlineNode):
        def _train(self, x):
            pass

        def _stop_training(self):
            pass
    n = N.__new__(N)
    s = OnlineNode._get_train_seq(n)
    v.oblige("one phase", len(s) == 1 and len(s[0]) == 3)
    v.oblige("learner and finisher of the node", s[0][0] == n._train and s[0][1] == n._stop_training)
    x, a = new_data("x"), new_data("a")
    v.oblige_eq("the data is passed on unchanged", s[0][2](x, a), x)


# ---------------------------------------------------------------- OnlineFlow
f_tr = z3.Function("in_training", z3.IntSort(), z3.BoolSort())
f_online = z3.Function("online", z3.IntSort(), z3.BoolSort())
f_needs = z3.Function("needs_args", z3.IntSort(), z3.BoolSort())
f_oarg = z3.Function("node_arg", z3.IntSort(), z3.IntSort(), z3.IntSort(), DSort)     # sample, node, position


class OMNode(MNode):
    """node j of an online flow: the contract of OnlineNode (above) or Node (C01)"""
    family = "onode"

    def _vc_isa(self, cls):
        if cls is OnlineNode:
            return P().branch(f_online(self.idx))
        return cls in (mdp.Node, object)

    def is_training(self):
        return wrap(f_tr(self.idx))

    def is_trainable(self):
        return wrap(f_trainable(self.idx))

    def get_current_train_phase(self):
        return P().globals["phase"]

    def get_remaining_train_phase(self):
        return P().globals["remaining"]

    def train(self, x, *args, **kw):
        w = world()
        rt.oblige("only nodes in training are trained", f_tr(self.idx))
        if w.boom and rt.case("train_boom"):
            raise Boom("training failed")
        w.trace.append(("train", wrap(self.idx), x) + tuple(args))

    def stop_training(self, *a, **k):
        world().trace.append(("stop", wrap(self.idx)))

    def execute(self, x, *args, **kw):
        w = world()
        if w.boom and rt.case("exec_boom"):
            raise Boom("execution failed")
        # a node that is not online would end its training
        rt.oblige("executing ends no training", z3.Or(z3.Not(f_tr(self.idx)), f_online(self.idx)))
        if w.record_exec:
            if P().branch(self.idx < num_term(w.n) - 1):
                w.trace.append(("execute", wrap(self.idx), x))
        return Data(f_exec(self.idx, x.t))


class OSamples(Sym):
    """the stream: sample m, alone or with one argument tuple per node"""
    def __init__(self, form, na=None, per=0):
        for k, val in dict(form=form, na=na, per=per, n=P().fresh("samples", z3.IntSort())).items():
            object.__setattr__(self, k, val)
        P().axiom(self.n >= 0)

    def args(self, m, j):
        return tuple(Data(f_oarg(m, j, z3.IntVal(a))) for a in range(self.per))

    def x(self, m):
        return Data(f_chunk(z3.IntVal(0), m))

    def elem(self, m):
        if self.form == "array":
            return self.x(m)
        segs = [Item(self.x(m)), span(self.na, lambda j: self.args(m, j))]
        return VTuple(segs) if self.form == "tuple" else VList.of(segs)

    def vc_segs(self):
        return [Rep(self.n, lambda m: [Item(self.elem(m))])]

    def _vc_hasattr(self, n):
        return n == "__iter__"

    def _vc_isa(self, cls):
        return cls in (object,)

    def _vc_type(self):
        return OSamples


def onodes(n):
    return VList.of([span(num_term(n), lambda j: OMNode(j))])


def _compmin(n):
    def cand(k, x):
        if not isinstance(x, Data):
            raise CannotMerge()
        k = z3.simplify(k) if z3.is_expr(k) else z3.IntVal(k)
        a, b = comp(k, x), comp(num_term(n) - 1, x)
        return Data(z3.If(k <= num_term(n) - 1, a.t, b.t))
    return ("composition of the first min(k, n - 1) nodes", cand)


def flow_world(v, cls=OnlineFlow, boom=False):
    n = v.fresh_int("n", 1)
    w = make_world(v, n)
    w.boom = boom
    w.record_exec = True
    last = n.t - 1
    P().globals["phase"] = v.fresh_int("phase")
    P().globals["remaining"] = v.fresh_int("remaining", 0)
    # a terminal node that is not online, with several phases left, is out of scope
    v.assume(z3.Or(f_online(last), num_term(P().globals["remaining"]) <= 1))
    # what _check_compatibility (C05) enforces: only the terminal node may be trainable without being online
    P().assume(z3.ForAll([z3.Int("cj")], z3.Implies(z3.And(z3.Int("cj") >= 0, z3.Int("cj") < last),
             z3.Or(z3.Not(f_tr(z3.Int("cj"))), f_online(z3.Int("cj")))), patterns=[f_tr(z3.Int("cj"))]), quantified=True)
    fl = cls.__new__(cls)
    track(fl)
    fl.flow = onodes(n)
    fl.verbose = False
    fl._crash_recovery = False
    return fl, w, n


def stream_unit(form, per, req, boom=False):
    label = form + ("" if form == "array" else ", %d arguments, %d required" % (per, req)) + (", failing nodes" if boom else "")

    @unit("OnlineFlow._train_nodes [%s]" % label, ["mdp.linear_flows_online:OnlineFlow._train_nodes"])
    def u(v):
        fl, w, n = flow_world(v, boom=boom)
        v.candidates += [COMP, _compmin(n)]
        na = v.fresh_int("tuples", 0)
        wrong = form != "array" and req > 0 and req != per       # every node then needs another number of arguments
        it = OSamples(form, na.t, per)
        fl._train_args_needed_list = VList.of([span(n.t, lambda j: True if wrong else wrap(f_needs(j)) if req else False)])
        fl._train_arg_keys_list = VList.of([span(n.t, lambda j: ["a%d" % a for a in range(req)])])
        kind, r = outcome(fl._train_nodes, it)
        if kind == "exc":
            v.oblige("failure is a flow exception", isinstance(r, (FlowException, OnlineFlowException)))
            if not boom and not wrong:
                if form == "array":
                    v.oblige("only an empty stream is refused", it.n == 0)
                else:
                    v.oblige("only an empty stream or a wrong number of argument tuples is refused",
                             z3.Or(it.n == 0, na.t != n.t))
                v.oblige_eq("nothing was trained", w.trace, VList())
            return
        v.oblige("an empty stream is refused", it.n > 0)
        if form != "array":
            v.oblige("a wrong number of argument tuples is refused", na.t == n.t)
            v.oblige("a wrong number of arguments is refused", not wrong)
            if wrong:
                return

        def sample(m):
            x = it.x(m)

            def node(j):
                y = comp(j, x)
                out = []
                a = it.args(m, j) if req else ()
                if req:
                    out.append(Guard(z3.And(f_tr(j), f_needs(j)), [Item(("train", wrap(j), y) + a)]))
                    out.append(Guard(z3.And(f_tr(j), z3.Not(f_needs(j))), [Item(("train", wrap(j), y))]))
                else:
                    out.append(Guard(f_tr(j), [Item(("train", wrap(j), y))]))
                out.append(Guard(j < n.t - 1, [Item(("execute", wrap(j), y))]))
                return out
            return [Rep(n.t, node)]
        v.oblige_eq("for every sample in order: node i gets it, processed by nodes 0..i-1 as just updated, with its own arguments",
                    w.trace, SSeq([Rep(it.n, sample)]))
    return u


stream_unit("array", 0, 0)
stream_unit("tuple", 1, 0)
stream_unit("tuple", 1, 1)
stream_unit("tuple", 2, 1)
stream_unit("list", 2, 2)
stream_unit("array", 0, 0, boom=True)


# ---------------------------------------------------------------- train
class RecOnline(OnlineFlow):
    def _train_nodes(self, data_iterables):
        world().trace.append(("train_nodes", data_iterables))

    def _close_last_node(self):
        world().trace.append(("close_last",))


@unit("OnlineFlow.train", ["mdp.linear_flows_online:OnlineFlow.train", "mdp.linear_flows_online:OnlineFlow._train_check_iterables"])
def u_train(v):
    fl, w, n = flow_world(v, v.choose([RecOnline]))
    what = v.choose(["2d", "3d", "iterable", "none", "neither"])
    it = OSamples("array")
    x = odata("x")
    if what == "2d":
        v.assume(f_ndim(x.t) == 2)
    if what == "3d":
        v.assume(f_ndim(x.t) == 3)
    data = {"2d": x, "3d": x, "iterable": it, "none": None, "neither": 17}[what]
    kind, r = outcome(fl.train, data)
    if what == "neither":
        v.oblige("not an iterable: flow exception", kind == "exc" and isinstance(r, FlowException))
        return v.oblige_eq("nothing is trained", w.trace, VList())
    v.oblige("accepted", kind == "ok")
    if kind != "ok":
        return
    segs = core._norm(w.trace.segs())
    v.oblige("the stream is trained first", isinstance(segs[0], Item) and segs[0].v[0] == "train_nodes")
    got = segs[0].v[1]
    if what == "2d":
        v.oblige("the samples of a two-dimensional array come one by one", isinstance(got, Rows))
        v.oblige_eq("those of the array", got.x, x)
    else:
        v.oblige("the blocks, or the iterable itself", got is data)
    rest = SSeq(segs[1:])
    if prove_bool(f_online(n.t - 1)):
        v.oblige_eq("an online terminal node stays in training", rest, SSeq([]))
    else:
        v.oblige("decided", prove_bool(z3.Not(f_online(n.t - 1))))
        v.oblige_eq("a terminal node that is not online is closed after the stream", rest, SSeq([Item(("close_last",))]))


# ---------------------------------------------------------------- CircularOnlineFlow
f_fb = z3.Function("feedback", z3.IntSort(), DSort, DSort)      # feedback(t, x): x through the whole flow t times
f_stored = z3.Function("stored", z3.IntSort(), DSort)           # the stored input after m samples when the stream is ignored


def feedback(n, t, x):
    """t times through all n nodes; unfolds its definition at t"""
    t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)
    n = num_term(n)
    r = f_fb(t, x.t)
    P().axiom(f_fb(z3.IntVal(0), x.t) == x.t)
    P().axiom(z3.Implies(t >= 0, f_fb(t + 1, x.t) == comp(n, Data(r)).t))
    P().axiom(z3.Implies(t > 0, r == comp(n, Data(f_fb(t - 1, x.t))).t))
    return Data(r)


class ADeque(VList):
    """collections.deque: indexing and rotation, no slices (trusted)"""
    def __getitem__(self, k):
        if isinstance(k, slice):
            rt.oblige("a deque is not sliced", False)
            raise TypeError("sequence index must be integer, not 'slice'")
        return VList.__getitem__(self, k)

    def rotate(self, k):
        """the last k elements move to the front"""
        n = num_term(self.vc_len())
        r = num_term(0 - k) % n
        segs = self.segs()
        self.set_segs(list(engine.cut(segs, r, n)) + list(engine.cut(segs, z3.IntVal(0), r)))


def deque(segs):
    d = ADeque()
    d.set_segs(segs)
    return d


def circular(v, boom=False):
    fl, w, n = flow_world(v, CircularOnlineFlow, boom)
    w.record_all = True
    fl._flow_iterations = v.fresh_int("iterations", 1)
    fl._ignore_input = False
    fl._stored_input = odata("stored")
    fl.output_node_idx = v.fresh_int("output", 0)
    v.assume(fl.output_node_idx.t < n.t)
    return fl, w, n


class CNode(OMNode):
    """node of a circular flow: online, or not in training"""
    family = "cnode"

    def execute(self, x, *args, **kw):
        w = world()
        if w.boom and rt.case("exec_boom"):
            raise Boom("execution failed")
        w.trace.append(("execute", wrap(self.idx), x))
        return Data(f_exec(self.idx, x.t))


def circular_unit(ignore):
    @unit("CircularOnlineFlow._train_nodes [%s]" % ("stored input" if ignore else "stream"),
          ["mdp.linear_flows_online:CircularOnlineFlow._train_nodes", "mdp.linear_flows_online:CircularOnlineFlow.get_stored_input"])
    def u(v):
        fl, w, n = circular(v)
        fl.flow = VList.of([span(n.t, lambda j: CNode(j))])
        fl._ignore_input = ignore
        T = fl._flow_iterations.t
        it = OSamples("array")
        s0 = fl._stored_input

        def sample_in(m):
            """what sample m starts from"""
            if not ignore:
                return it.x(m)
            P().axiom(f_stored(z3.IntVal(0)) == s0.t)
            m = z3.simplify(m) if z3.is_expr(m) else z3.IntVal(m)
            x = Data(f_stored(m))
            P().axiom(z3.Implies(m >= 0, f_stored(m + 1) == feedback(n, T, x).t))
            P().axiom(z3.Implies(m > 0, f_stored(m) == feedback(n, T, Data(f_stored(m - 1))).t))
            return x

        def iterations(x, t):
            def iteration(t):
                y = feedback(n, t, x)

                def node(j):
                    z = comp(j, y)
                    return [Guard(f_tr(j), [Item(("train", wrap(j), z))]), Item(("execute", wrap(j), z))]
                return [Rep(n.t, node)]
            return Rep(t, iteration)

        def samples(m):
            return Rep(m, lambda m: [iterations(sample_in(m), T)])

        def stored(m):
            if ignore:
                return sample_in(m)
            m = z3.simplify(m) if z3.is_expr(m) else z3.IntVal(m)
            return Data(z3.If(m == 0, s0.t, feedback(n, T, it.x(m - 1)).t))

        class OverSamples(object):
            objects = [fl, w.trace]

            def check(self, when, m):
                rt.oblige_eq("%s: the earlier samples went through" % when, w.trace, SSeq([samples(m)]))
                rt.oblige_eq("%s: the stored input is the last output" % when, fl._stored_input, stored(m))

            def havoc(self, m):
                self.m = m
                w.trace.set_segs([samples(m)])
                fl._stored_input = stored(m)

        class OverIterations(object):
            objects = [fl, w.trace]

            def __init__(self, outer):
                self.m = outer.m
                self.x = sample_in(self.m)

            def check_locals(self, when, locals_):
                if when == "initially":
                    self.role = [m for m, y in locals_.items() if isinstance(y, Data) and prove_bool(y.t == self.x.t)]
                    rt.oblige("the sample is at hand", bool(self.role))
                else:
                    for m in self.role:
                        rt.oblige_eq("preserved: fed back", locals_[m], feedback(n, self.t + 1, self.x))

            def havoc_locals(self, locals_):
                return {m: feedback(n, self.t, self.x) for m in self.role}

            def check(self, when, t):
                rt.oblige_eq("%s: the earlier iterations went through" % when, w.trace, SSeq([samples(self.m), iterations(self.x, t)]))
                rt.oblige_eq("%s: the stored input is the last output of this sample" % when, fl._stored_input, self.stored(t))

            def stored(self, t):
                t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)
                if ignore:
                    return feedback(n, t, self.x)
                return Data(z3.If(t == 0, stored(self.m).t, feedback(n, t, self.x).t))

            def havoc(self, t):
                self.t = t
                w.trace.set_segs([samples(self.m), iterations(self.x, t)])
                fl._stored_input = self.stored(t)
        outer = []

        def spec(loop, locals_):
            if getattr(loop, "rounds", None) is None:
                return None
            if not outer and loop.rounds.eq(it.n):
                outer.append(OverSamples())
                return outer[0]
            if outer and loop.rounds.eq(T):
                return OverIterations(outer[0])
        rt.hoare = [spec]
        v.candidates += [COMP]
        kind, r = outcome(fl._train_nodes, it)
        v.oblige("no failure", kind == "ok")
        if kind != "ok":
            return

        v.oblige_eq("every sample goes through the whole flow the configured number of times, fed back, training every node",
                    w.trace, SSeq([samples(it.n)]))
        v.oblige_eq("the stored input is the last output", fl._stored_input, stored(it.n))
    return u


circular_unit(False)
circular_unit(True)


def order(n, c=0):
    """the nodes c, c+1, ..., n-1, 0, ..., c-1"""
    c = num_term(c)
    return SSeq([Rep(n.t - c, lambda j: [Item(CNode(j + c))]), Rep(c, lambda j: [Item(CNode(j))])])


@unit("CircularOnlineFlow.set_input_node, set_output_node, reset_output_node",
      ["mdp.linear_flows_online:CircularOnlineFlow." + f for f in ("set_input_node", "set_output_node", "reset_output_node")])
def u_in_out(v):
    fl, w, n = circular(v)
    fl.flow = deque([span(n.t, lambda j: CNode(j))])
    out = fl.output_node_idx
    k = v.fresh_int("node_idx")
    what = v.choose(["input", "output", "reset"])
    if what == "reset":
        kind, r = outcome(fl.reset_output_node)
        v.oblige("accepted", kind == "ok")
        v.oblige_eq("the last node", fl.output_node_idx, n - 1)
        return v.oblige_eq("the nodes keep their order", fl.flow, order(n))
    kind, r = outcome(fl.set_input_node if what == "input" else fl.set_output_node, k)
    if kind == "exc":
        v.oblige("refused with the flow: %r" % r if not isinstance(r, CircularOnlineFlowException) else "refused with the flow's exception", isinstance(r, CircularOnlineFlowException))
        v.oblige("an existing node is not refused", z3.Or(k.t < 0, k.t >= n.t))
        v.oblige_eq("refused: the nodes keep their order", fl.flow, order(n))
        return v.oblige_eq("refused: the output node is kept", fl.output_node_idx, out)
    v.oblige("only an existing node is accepted", z3.And(k.t >= 0, k.t < n.t))
    if what == "output":
        v.oblige_eq("the output node", fl.output_node_idx, k)
        return v.oblige_eq("the nodes keep their order", fl.flow, order(n))
    v.oblige_eq("the cycle starts with the input node", fl.flow, order(n, k))
    new = num_term(fl.output_node_idx)
    v.oblige("the output node stays the same node", z3.And(new >= 0, new < n.t,
             z3.Or(k.t + new == out.t, k.t + new == out.t + n.t)))


@unit("CircularOnlineFlow.execute, inverse", ["mdp.linear_flows_online:CircularOnlineFlow.execute",
                                             "mdp.linear_flows_online:CircularOnlineFlow._inverse_seq",
                                             "mdp.linear_flows:Flow._execute_seq"])
def u_circ_execute(v):
    fl, w, n = circular(v, boom=v.case("failing nodes"))
    fl.flow = deque([span(n.t, lambda j: CNode(j))])
    out = fl.output_node_idx
    x = odata("x")
    if v.case("inverse"):
        v.candidates += [ICOMP(out.t + 1)]
        kind, r = outcome(fl._inverse_seq, x)
        want = icomp(out.t + 1, out.t + 1, x)
    else:
        v.candidates += [COMP]
        if v.case("to a given node"):
            out = v.fresh_int("nodenr", 0)
            v.assume(out.t < n.t)
            kind, r = outcome(fl.execute, x, out)
        else:
            kind, r = outcome(fl.execute, x)
        want = comp(out.t + 1, x)
    if kind == "exc":
        return v.oblige("only a failing node fails", w.boom and isinstance(r, FlowExceptionCR))
    v.oblige_eq("through the nodes up to the output node (backwards for the inverse)", r, want)
    v.oblige_eq("the nodes keep their order", fl.flow, order(n))


class Shaped(OData):
    @property
    def shape(self):
        return VTuple([Item(wrap(f_rows(self.t))), Item(wrap(f_cols(self.t)))])


@unit("CircularOnlineFlow.set_stored_input, set_flow_iterations, ignore_input",
      ["mdp.linear_flows_online:CircularOnlineFlow." + f for f in ("set_stored_input", "get_stored_input", "set_flow_iterations", "ignore_input")])
def u_stored(v):
    fl, w, n = circular(v)
    dim = opt_int("input_dim", 1)

    class First(CNode):
        input_dim = dim
    fl.flow = VList.of([Item(First(z3.IntVal(0))), span(n.t - 1, lambda j: CNode(j + 1))])
    old = fl._stored_input
    x = odata("x")
    kind, r = outcome(fl.set_stored_input, Data(x.t))
    if kind == "exc":
        v.oblige("refused with the flow's exception", isinstance(r, CircularOnlineFlowException))
        v.oblige("only an input of another dimension is refused", dim is not None and prove_bool(f_cols(x.t) != dim.t))
        v.oblige_eq("refused: the stored input is kept", fl.get_stored_input(), old)
    else:
        v.oblige("an input of another dimension is refused", dim is None or prove_bool(f_cols(x.t) == dim.t))
        v.oblige_eq("it is stored", fl.get_stored_input(), Data(x.t))
    k = v.fresh_int("k", 1)
    fl.set_flow_iterations(k)
    v.oblige_eq("number of iterations", fl._flow_iterations, k)
    b = v.case("flag")
    fl.ignore_input(b)
    v.oblige_eq("flag", fl._ignore_input, b)


class RecCircular(CircularOnlineFlow):
    def _train_nodes(self, data_iterables):
        world().trace.append(("train_nodes", data_iterables))


@unit("CircularOnlineFlow.train", ["mdp.linear_flows_online:CircularOnlineFlow.train"])
def u_circ_train(v):
    fl, w, n = circular(v)
    fl.__class__ = RecCircular
    what = v.choose(["2d", "3d", "iterable", "neither"])
    it = OSamples("array")
    x = odata("x")
    if what != "iterable":
        v.assume(f_ndim(x.t) == (2 if what == "2d" else 3))
    data = {"2d": x, "3d": x, "iterable": it, "neither": 17}[what]
    kind, r = outcome(fl.train, data)
    if what == "neither":
        v.oblige("not an iterable: flow exception", kind == "exc" and isinstance(r, FlowException))
        return v.oblige_eq("nothing is trained", w.trace, VList())
    v.oblige("accepted", kind == "ok")
    segs = core._norm(w.trace.segs())
    v.oblige("the stream is trained once", len(segs) == 1 and isinstance(segs[0], Item) and segs[0].v[0] == "train_nodes")
    got = segs[0].v[1]
    if what == "2d":
        v.oblige("the samples of a two-dimensional array come one by one", isinstance(got, Rows))
        v.oblige_eq("those of the array", got.x, x)
    else:
        v.oblige("the blocks, or the iterable itself", got is data)


# ---------------------------------------------------------------- flow nodes (bounded to three nodes)
from mdp.hinet import OnlineFlowNode, CircularOnlineFlowNode


class Part(object):
    """concrete node j of the flow of an online flow node"""
    def __init__(self, j, trains, left, log):
        self.j, self.trains, self.left, self.log = j, trains, left, log

    def is_trainable(self):
        return self.trains

    def is_training(self):
        return self.trains and self.left

    def _get_train_seq(self):
        return [None]

    def train(self, x, *a):
        if not (self.trains and self.left):
            raise TrainingFinishedException("finished")
        self.log.append(("train", self.j, x) + a)

    def stop_training(self, *a):
        if not (self.trains and self.left):
            raise TrainingFinishedException("finished")
        self.log.append(("stop", self.j) + a)

    def execute(self, x):
        self.log.append(("execute", self.j, x))
        return Copied(f_exec(z3.IntVal(self.j), x.t))


class Copied(Data):
    def copy(self):
        return self


def flow_node(v, cls, n):
    log = []
    P().globals["log"] = log
    parts = []
    for j in range(n):
        trains = v.case("trainable")
        parts.append(Part(j, trains, v.case("left") if trains else False, log))
    if not any(p.trains and p.left for p in parts):
        raise PathEnd()
    o = cls.__new__(cls)
    o._flow = parts
    o._pretrained_phase = [-1 if not p.trains else 0 if p.left else 1 for p in parts]
    o._fix_nodes_dimensions = lambda: None
    return o, parts, log


def through(seq, x, args):
    for t, s, e in seq:
        t(x, *args)
        x = e(x, *args)


def stopped(v, seq, parts, log, args):
    del log[:]
    for t, s, e in seq:
        s(*args)
    v.oblige_eq("every node in training is closed once, in order", VList(log),
                VList([("stop", p.j) + args for p in parts if p.trains and p.left]))


@unit("OnlineFlowNode._get_train_seq (bounded: 1-3 nodes)", ["mdp.hinet.flownode_online:OnlineFlowNode._get_train_seq"])
def u_flownode(v):
    o, parts, log = flow_node(v, OnlineFlowNode, v.choose([1, 2, 3]))
    x = Copied(P().fresh("x", DSort))
    args = v.choose([(), (new_data("arg"),)])
    seq = o._get_train_seq()
    through(seq, x, args)
    want, y = [], x
    last = max(p.j for p in parts if p.trains and p.left)
    for p in parts[:last + 1]:
        if p.trains and p.left:
            want.append(("train", p.j, y) + args)
        if p.j < last:
            want.append(("execute", p.j, y))
        y = Copied(f_exec(z3.IntVal(p.j), y.t))
    v.oblige_eq("each node in training gets the sample processed by the nodes before it as just updated", VList(log), VList(want))
    stopped(v, seq, parts, log, args)


@unit("CircularOnlineFlowNode._get_train_seq (bounded: 1-3 nodes, 1-3 iterations)",
      ["mdp.hinet.flownode_online:CircularOnlineFlowNode._get_train_seq"])
def u_circ_flownode(v):
    o, parts, log = flow_node(v, CircularOnlineFlowNode, v.choose([1, 2, 3]))
    T = o._flow_iterations = v.choose([1, 2, 3])
    o._ignore_input = v.case("ignore")
    stored = o._stored_input = Copied(P().fresh("stored", DSort))
    args = ()
    seq = o._get_train_seq()
    inputs = [Copied(P().fresh("x", DSort)) for _ in range(2)]
    want, last = [], stored
    for x in inputs:
        through(seq, x, args)
        y = last if o._ignore_input else x
        for t in range(T):
            for p in parts:
                if p.trains and p.left:
                    want.append(("train", p.j, y) + args)
                want.append(("execute", p.j, y))
                y = Copied(f_exec(z3.IntVal(p.j), y.t))
        last = y
    v.oblige_eq("the whole flow is trained the configured number of times, fed back", VList(log), VList(want))
    v.oblige_eq("the last output is stored", o._stored_input, last)
    stopped(v, seq, parts, log, args)
