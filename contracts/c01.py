"""C01: node training life-cycle."""
from .common import *
from mdp.signal_node import (Node, TrainingException, TrainingFinishedException,
                             IsNotTrainableException, IsNotInvertibleException, NodeException)


class ANode(Node):
    """Node with abstract learners: k phases, learner/finisher of each phase opaque."""
    def _get_train_seq(self):
        return self.g_seq

    def is_trainable(self):
        return self.g_trainable

    def is_invertible(self):
        return self.g_invertible

    def _get_supported_dtypes(self):
        return self.g_supported

    def _check_train_args(self, x, *a, **k):
        self.g_trace.append(("check", x) + a)
        if self.g_badargs:
            raise TrainingException("bad args")

    def _execute(self, x, *a, **k):
        self.g_trace.append(("execute", x) + a)
        return ("result", x)

    def _inverse(self, x, *a, **k):
        self.g_trace.append(("inverse", x) + a)
        return ("inv", x)


class AnySeq(VIter):
    def __init__(self, segs):
        VIter.__init__(self, segs, "train_seq")


def phase_seq(n, trace):
    return AnySeq([span(n.t if is_sym(n) else z3.IntVal(n), lambda j: (Fn(j, "train", trace), Fn(j, "stop", trace)))])


def make_node(v, cls=ANode, reachable=True):
    n = cls.__new__(cls)
    track(n)
    n.g_trace = VList()
    n.g_trainable = v.case("trainable")
    n.g_invertible = v.case("invertible")
    n.g_badargs = False
    nph = v.fresh_int("phases", 1)
    n.g_n = nph
    n.g_seq = phase_seq(nph, n.g_trace)
    sup = z3.Function("supported", z3.IntSort(), TSort)
    nsup = v.fresh_int("nsup", 0)
    n.g_supported = VIter([span(nsup.t, lambda j: DType(sup(j)))], "supported")
    n._input_dim = opt_int("indim", 0)
    n._output_dim = opt_int("outdim", 0)
    n._dtype = None if v.case("dtype_none") else new_dtype("dt")
    if n.g_trainable:
        n._training = v.case("training")
        ph = v.fresh_int("phase", 0)
        n._train_phase = ph
        if n._training:
            n._train_phase_started = v.case("started")
            v.assume(ph.t < nph.t)
        else:
            n._train_phase_started = False
            v.assume(ph.t == nph.t)
    else:
        n._training = False
        n._train_phase = -1
        n._train_phase_started = False
    return n


STATE = ("_training", "_train_phase", "_train_phase_started", "_input_dim", "_output_dim", "_dtype")


def state(n):
    return fields(n, *STATE)


def same_state(v, name, n, old, only=STATE):
    for f, a, b in zip(STATE, old, state(n)):
        if f in only:
            v.oblige_eq("%s: %s unchanged" % (name, f), a, b)


def invariant(v, n):
    """the life-cycle invariant is preserved"""
    if n.g_trainable:
        if isinstance(n._training, SBool):
            n._training = True if n._training else False
        if n._training is True or n._training is False:
            v.oblige("invariant: phase index in range", z3.And(
                num_term(n._train_phase) >= 0, num_term(n._train_phase) <= n.g_n.t,
                (num_term(n._train_phase) < n.g_n.t) if n._training else (num_term(n._train_phase) == n.g_n.t)))
            if not n._training:
                v.oblige_eq("invariant: nothing open after the last phase", n._train_phase_started, False)
        else:
            v.oblige("invariant: training flag is a boolean", False)
    else:
        v.oblige_eq("invariant: a non-trainable node is never training", n._training, False)


@unit("Node.train", ["mdp.signal_node:Node.train", "mdp.signal_node:Node._check_input", "mdp.signal_node:Node._refcast"])
def u_train(v):
    n = make_node(v)
    n.g_badargs = v.case("badargs")
    x = new_data("x")
    arg = new_data("arg")
    args = v.choose([(), (arg,)])
    old = state(n)
    kind, r = outcome(n.train, x, *args)
    calls = [e for e in n.g_trace.segs() if e.v[0] != "check"]
    if not old_trainable(n):
        v.oblige("not trainable: IsNotTrainableException", kind == "exc" and isinstance(r, IsNotTrainableException))
        v.oblige("not trainable: learner not called", len(calls) == 0)
        same_state(v, "not trainable", n, old)
        return
    if not old[0]:
        v.oblige("finished: TrainingFinishedException", kind == "exc" and isinstance(r, TrainingFinishedException))
        v.oblige("finished: learner not called", len(calls) == 0)
        same_state(v, "finished", n, old)
        return
    if kind == "exc":
        v.oblige("rejected data: node exception", isinstance(r, NodeException))
        v.oblige("rejected data: learner not called", len(calls) == 0)
        same_state(v, "rejected data", n, old, STATE[:3])
        ok = z3.And(f_ndim(x.t) == 2, f_rows(x.t) > 0)
        if old[3] is not None and old[5] is not None and not n.g_badargs:
            v.oblige("valid data is not rejected", z3.Not(z3.And(ok, f_cols(x.t) == old[3].t)))
        invariant(v, n)
        return
    v.oblige("accepted: bad arguments are refused", not n.g_badargs)
    v.oblige_eq("accepted: exactly one call, to the current phase's learner, with the cast data and the arguments",
                VList.of(calls), VList([("train", old[1], Data(cast_to(x, n._dtype))) + args]))
    v.oblige_eq("accepted: phase started", n._train_phase_started, True)
    v.oblige_eq("accepted: phase unchanged", n._train_phase, old[1])
    v.oblige_eq("accepted: still training", n._training, True)
    invariant(v, n)


def old_trainable(n):
    return n.g_trainable


@unit("Node.stop_training", ["mdp.signal_node:Node.stop_training", "mdp.signal_node:Node.get_remaining_train_phase"])
def u_stop(v):
    n = make_node(v)
    arg = new_data("arg")
    args = v.choose([(), (arg,)])
    old = state(n)
    kind, r = outcome(n.stop_training, *args)
    if not old[0]:
        v.oblige("finished or not trainable: TrainingFinishedException", kind == "exc" and isinstance(r, TrainingFinishedException))
        v.oblige_eq("finished: finisher not called", n.g_trace, VList())
        same_state(v, "finished", n, old)
        return
    if not old[2]:
        v.oblige("no data: TrainingException", kind == "exc" and isinstance(r, TrainingException)
                 and not isinstance(r, (TrainingFinishedException, IsNotTrainableException)))
        v.oblige_eq("no data: finisher not called", n.g_trace, VList())
        same_state(v, "no data", n, old)
        return
    v.oblige("closing succeeds", kind == "ok")
    if kind != "ok":
        return
    v.oblige_eq("exactly the current phase's finisher is called once", n.g_trace, VList([("stop", old[1]) + args]))
    v.oblige_eq("phase advanced by one", n._train_phase, old[1] + 1)
    v.oblige_eq("next phase not started", n._train_phase_started, False)
    v.oblige_eq("training flag iff phases remain", n._training,
                wrap(num_term(old[1]) + 1 < n.g_n.t) if not isinstance(n._training, bool) else n._training)
    if isinstance(n._training, bool):
        c = num_term(old[1]) + 1 < n.g_n.t
        v.oblige("training flag iff phases remain", c if n._training else z3.Not(c))
    same_state(v, "closing", n, old, STATE[3:])
    invariant(v, n)


@unit("Node.queries", ["mdp.signal_node:Node.is_training", "mdp.signal_node:Node.get_current_train_phase",
                       "mdp.signal_node:Node.get_remaining_train_phase", "mdp.signal_node:Node.has_multiple_training_phases"])
def u_queries(v):
    n = make_node(v)
    old = state(n)
    v.oblige_eq("is_training", n.is_training(), n._training)
    v.oblige_eq("current phase", n.get_current_train_phase(), old[1])
    v.oblige_eq("remaining phases", n.get_remaining_train_phase(), (n.g_n - old[1]) if n.g_trainable else 0)
    v.oblige_eq("multiple phases", n.has_multiple_training_phases(), wrap(n.g_n.t > 1))
    same_state(v, "queries", n, old)


def node_init(v):
    pass


@unit("Node.__init__", ["mdp.signal_node:Node.__init__"])
def u_init(v):
    n = ANode.__new__(ANode)
    track(n)
    n.g_trace = VList()
    n.g_trainable = v.case("trainable")
    n.g_invertible = True
    n.g_n = v.fresh_int("phases", 1)
    n.g_seq = phase_seq(n.g_n, n.g_trace)
    sup = z3.Function("supported", z3.IntSort(), TSort)
    n.g_supported = VIter([span(v.fresh_int("nsup", 0).t, lambda j: DType(sup(j)))], "supported")
    i, o = opt_int("i", 0), opt_int("o", 0)
    t = None if v.case("tnone") else new_dtype("t")
    kind, r = outcome(Node.__init__, n, i, o, t)
    if kind == "exc":
        v.oblige("only an unsupported dtype is refused", t is not None and isinstance(r, NodeException))
        return
    v.oblige_eq("input_dim", n.input_dim, i)
    v.oblige_eq("output_dim", n.output_dim, o)
    v.oblige_eq("dtype", n.dtype, t)
    v.oblige_eq("starts in phase 0 (or -1)", n._train_phase, 0 if n.g_trainable else -1)
    v.oblige_eq("not started", n._train_phase_started, False)
    v.oblige_eq("training iff trainable", n._training, n.g_trainable)
    invariant(v, n)


def auto_trace(n, x, dt, first, upto):
    """spec: train each of the phases first..upto-1 on x and close all but the last"""
    xv = Data(cast_to(x, dt))


@unit("Node._pre_execution_checks/execute", ["mdp.signal_node:Node.execute", "mdp.signal_node:Node._pre_execution_checks",
                                             "mdp.signal_node:Node._if_training_stop_training"])
def u_execute(v):
    n = make_node(v)
    x = new_data("x")
    arg = new_data("arg")
    args = v.choose([(), (arg,)])
    old = state(n)
    rejected = z3.Or(f_ndim(x.t) != 2, f_rows(x.t) == 0)
    kind, r = outcome(n.execute, x, *args)
    segs = drop_checks(n.g_trace.segs())
    fresh_node = n.g_trainable and old[0] and not old[2] and v_is(old[1], 0)
    if kind == "exc":
        v.oblige("failure is a node exception", isinstance(r, NodeException))
        v.oblige("implementation not executed", not any(isinstance(s, Item) and s.v[0] == "execute" for s in segs))
        return
    xx = Data(cast_to(x, n._dtype))
    want = []
    if n.g_trainable and old[0]:
        if not old[2] and prove_bool(num_term(old[1]) == 0):
            # never saw data: all phases trained on this very data
            want = [Rep(n.g_n.t - 1, lambda j: [Item(("train", wrap(j), xx)), Item(("stop", wrap(j)))]),
                    Item(("train", n.g_n - 1, xx)), Item(("stop", n.g_n - 1))]
        else:
            v.oblige("with an open node only the last started phase is closed",
                     z3.And(num_term(old[1]) == n.g_n.t - 1, z3.BoolVal(bool(old[2]))))
            want = [Item(("stop", old[1]))]
    v.oblige_eq("calls: finish training, then execute the cast data once", SSeq(segs),
                SSeq(want + [Item(("execute", xx) + args)]))
    v.oblige_eq("result is the implementation's", r, ("result", xx))
    v.oblige("data valid", z3.And(f_ndim(x.t) == 2, f_rows(x.t) > 0))
    v.oblige_eq("no longer training", n._training, False)
    v.oblige_eq("input dim is the data's", n._input_dim, x.shape[1])
    v.oblige("output dim set", n._output_dim is not None)
    if old[4] is None:
        v.oblige_eq("unset output dim becomes the input dim", n._output_dim, n._input_dim)
    else:
        v.oblige_eq("output dim unchanged", n._output_dim, old[4])
    invariant(v, n)


@unit("Node.execute refuses only what it must", ["mdp.signal_node:Node._pre_execution_checks"])
def u_execute_ok(v):
    """valid data on a finished (or last-phase or fresh) node with fixed dims is never refused"""
    n = make_node(v)
    x = new_data("x")
    v.assume(z3.And(f_ndim(x.t) == 2, f_rows(x.t) > 0))
    if n._input_dim is None or n._dtype is None:
        raise PathEnd()
    v.assume(f_cols(x.t) == n._input_dim.t)
    old = state(n)
    if n.g_trainable and old[0]:
        if old[2]:
            more = num_term(old[1]) + 1 < n.g_n.t
        else:
            more = num_term(old[1]) > 0
    else:
        more = z3.BoolVal(False)
    kind, r = outcome(n.execute, x)
    if kind == "ok":
        v.oblige("phases remaining: refused", z3.Not(more))
    else:
        v.oblige("refused only with phases remaining, as a training exception",
                 z3.And(more, z3.BoolVal(isinstance(r, TrainingException))))


def drop_checks(segs):
    out = []
    for s in core._norm(segs):
        if isinstance(s, Item):
            if s.v[0] != "check":
                out.append(s)
        elif isinstance(s, Rep):
            out.append(Rep(s.count, (lambda s: (lambda j: drop_checks(s.seg(j))))(s)))
        else:
            out.append(Guard(s.cond, drop_checks(s.segs)))
    return out


def v_is(a, b):
    return prove_bool(v_eq(a, b) if not isinstance(v_eq(a, b), bool) else z3.BoolVal(v_eq(a, b)))


@unit("Node.inverse", ["mdp.signal_node:Node.inverse", "mdp.signal_node:Node._pre_inversion_checks"])
def u_inverse(v):
    n = make_node(v)
    y = new_data("y")
    args = v.choose([(), (new_data("arg"),)])
    old = state(n)
    kind, r = outcome(n.inverse, y, *args)
    segs = drop_checks(n.g_trace.segs())
    if not n.g_invertible:
        v.oblige("not invertible: IsNotInvertibleException", kind == "exc" and isinstance(r, IsNotInvertibleException))
        v.oblige_eq("not invertible: nothing called", SSeq(segs), SSeq([]))
        same_state(v, "not invertible", n, old)
        return
    if kind == "exc":
        v.oblige("failure is a node exception", isinstance(r, NodeException))
        v.oblige("implementation not called", not any(isinstance(s, Item) and s.v[0] == "inverse" for s in segs))
        if n.g_trainable and old[0] and (not old[2] or not prove_bool(num_term(old[1]) + 1 == n.g_n.t)):
            v.oblige("phases open: training exception", isinstance(r, TrainingException))
        elif old[4] is not None and n._dtype is not None:
            v.oblige("valid data is not refused", z3.Not(z3.And(f_ndim(y.t) == 2, f_cols(y.t) == old[4].t)))
        return
    yy = Data(cast_to(y, n._dtype))
    want = []
    if n.g_trainable and old[0]:
        v.oblige("open node: only the last, started phase", z3.And(num_term(old[1]) == n.g_n.t - 1, z3.BoolVal(bool(old[2]))))
        want = [Item(("stop", old[1]))]
    v.oblige_eq("calls: close the last phase, then invert the cast data once", SSeq(segs),
                SSeq(want + [Item(("inverse", yy) + args)]))
    v.oblige_eq("result is the implementation's", r, ("inv", yy))
    v.oblige("data has rank 2 and the output dimension", z3.And(f_ndim(y.t) == 2, f_cols(y.t) == num_term(n._output_dim)))
    v.oblige_eq("no longer training", n._training, False)
    if old[4] is not None:
        v.oblige_eq("output dim unchanged", n._output_dim, old[4])
    else:
        v.oblige_eq("unset output dim becomes the input dim", n._output_dim, old[3])
    invariant(v, n)
