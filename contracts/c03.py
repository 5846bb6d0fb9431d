"""C03: flow training feeds each node the data processed by all nodes before it."""
from .flowmodel import *


class AFlow(Flow):
    def _execute_seq(self, x, nodenr=None):
        """contract of Flow._execute_seq (proved below): the data through nodes 0..nodenr"""
        w = world()
        n = num_term(w.n)
        last = n - 1 if nodenr is None else num_term(nodenr)
        rt.oblige("precondition of _execute_seq: an existing node", z3.And(last >= -1, last < n))
        if w.boom and rt.case("execute_seq_fails"):
            raise FlowExceptionCR("failure in node", self, Boom("execution failed"))
        return comp(last + 1, x)

    @staticmethod
    def _get_required_train_args(node):
        return ["a%d" % i for i in range(P().globals["required"])]


def setup(v, form, nargs, boom=False):
    n = v.fresh_int("n", 1)
    i = v.fresh_int("i", 0)
    v.assume(i.t < n.t)
    w = make_world(v, n, i.t)
    w.boom = boom
    v.assume(f_phases(i.t) >= 1)
    w.phase.v = v.fresh_int("phase", 0)
    w.started.v = False
    fl = make_flow(AFlow, n)
    it = Iterable(form, nargs)
    ph0 = w.phase.v
    P().globals["required"] = 0
    v.candidates += [COMP]
    return fl, w, i, it, ph0


@unit("Flow._execute_seq", ["mdp.linear_flows:Flow._execute_seq", "mdp.linear_flows:Flow._propagate_exception"])
def u_execute_seq(v):
    n = v.fresh_int("n", 1)
    w = make_world(v, n)
    w.boom = True
    v.candidates += [COMP]
    fl = make_flow(Flow, n)
    x = new_data("x")
    if v.case("upto"):
        last = v.fresh_int("last", -1)
        v.assume(last.t < n.t)
        arg = (last,)
        last = last.t
    else:
        arg, last = (), n.t - 1
    kind, r = outcome(fl._execute_seq, x, *arg)
    if kind == "exc":
        v.oblige("a failing node is reported as a flow exception", isinstance(r, FlowExceptionCR))
        v.oblige("no node was trained", len(w.trace) == 1 and w.trace[0][0] == "boom")
        return
    v.oblige_eq("the data went through nodes 0..nodenr in order", r, comp(last + 1, x))
    v.oblige_eq("no node was trained", w.trace, VList())


def expected(w, i, it, ph0, upto, last_open=True):
    """trace of training node i in phases ph0..ph0+upto-1, each closed except the last"""
    def train_seg(p):
        return Rep(f_cnt(p), lambda m: [Item(("train", i, wrap(ph0.t + p), comp(i.t, Data(f_chunk(p, m)))) + it.args(p, m))])

    def stop_seg(p):
        return Item(("stop", i, wrap(ph0.t + p)))
    return [Rep(upto - 1, lambda p: [train_seg(p), stop_seg(p)]), train_seg(upto - 1)]


def train_node_unit(form, nargs, required):
    label = "%s%s%s" % (form, "+%d" % nargs if nargs else "", " (%d required)" % required if required != nargs else "")

    @unit("Flow._train_node [%s]" % label, ["mdp.linear_flows:Flow._train_node"])
    def u(v):
        fl, w, i, it, ph0 = setup(v, form, nargs)
        P().globals["required"] = required
        trainable = f_trainable(i.t)
        v.assume(z3.Implies(trainable, ph0.t <= f_phases(i.t)))
        is_tr = P().branch(trainable)
        done = not is_tr or not P().branch(ph0.t < f_phases(i.t))
        kind, r = outcome(fl._train_node, it, i)
        if done:
            v.oblige_eq("a node that does not train gets nothing", w.trace, VList())
            if not is_tr:
                v.oblige("a node that is not trainable is skipped", kind == "ok")
                v.oblige_eq("no chunk is taken for a node that is not trainable", it.passes.v, 0)
            return
        todo = f_phases(i.t) - ph0.t
        if kind == "exc":
            v.oblige("failure is a flow exception", isinstance(r, FlowException))
            wrong = required > 0 and required != nargs
            # some pass was empty (or the number of arguments is wrong)
            last = num_term(it.passes.v) - 1
            if not wrong:
                v.oblige("only an exhausted iterable is refused", f_cnt(last) <= 0)
            v.oblige("no more passes than phases", num_term(it.passes.v) <= todo)
            return
        v.oblige("a wrong number of arguments is refused", not (required > 0 and required != nargs))
        v.oblige_eq("one pass over the iterable per phase", it.passes.v, wrap(todo))
        v.oblige_eq("every chunk, processed by the nodes before, once per phase, in order, with its own arguments",
                    w.trace, SSeq(expected(w, i, it, ph0, todo)))
        v.oblige_eq("all phases but the last are closed", w.phase.v, wrap(f_phases(i.t) - 1))
        v.oblige_eq("the last phase is left open", w.started.v, True)
        v.oblige("no pass was empty", f_cnt(todo - 1) > 0)
    return u


train_node_unit("array", 0, 0)
train_node_unit("tuple", 1, 0)
train_node_unit("tuple", 1, 1)
train_node_unit("tuple", 2, 1)
train_node_unit("tuple", 1, 2)
train_node_unit("tuple", 0, 1)
train_node_unit("list", 1, 1)
train_node_unit("array", 0, 1)


@unit("Flow._train_node [None]", ["mdp.linear_flows:Flow._train_node"])
def u_none(v):
    fl, w, i, it, ph0 = setup(v, "array", 0)
    kind, r = outcome(fl._train_node, None, i)
    tr = z3.And(f_trainable(i.t), ph0.t < f_phases(i.t))
    v.oblige_eq("nothing is trained", w.trace, VList())
    if kind == "exc":
        v.oblige("a flow exception", isinstance(r, FlowException))
        v.oblige("only for a node that still trains", tr)
    else:
        v.oblige("a missing iterable for a node in training is refused", z3.Not(tr))


class RecFlow(AFlow):
    """_train_node replaced by its contract (proved above)"""
    def _train_node(self, data_iterable, nodenr):
        w = world()
        if w.boom and rt.case("train_node_fails"):
            w.trace.append(("boom", nodenr))
            raise FlowException("failure in node")
        w.trace.append(("train_node", data_iterable, nodenr))

    def _close_last_node(self):
        world().trace.append(("close_last",))


class ItInd(Ind):
    """data iterable number j of the list given to train"""
    family = "iterable"

    def _vc_hasattr(self, n):
        return n == "__iter__"

    def _vc_isa(self, cls):
        return cls in (object,)


@unit("Flow.train", ["mdp.linear_flows:Flow.train", "mdp.linear_flows:Flow._train_check_iterables"])
def u_train(v):
    n = v.fresh_int("n", 1)
    w = make_world(v, n)
    w.boom = True
    fl = make_flow(RecFlow, n)
    m = v.fresh_int("m", 0)
    what = v.choose(["list", "array", "tuple"])
    if what == "array":
        x = new_data("x")
        data = x
    elif what == "list":
        data = VList.of([span(m.t, lambda j: ItInd(j))])
    else:
        data = VTuple([span(m.t, lambda j: ItInd(j))])
    kind, r = outcome(fl.train, data)
    if what == "tuple":
        v.oblige("neither a list nor an array: flow exception", kind == "exc" and isinstance(r, FlowException))
        v.oblige_eq("nothing is trained", w.trace, VList())
        return
    if kind == "exc":
        v.oblige("failure is a flow exception", isinstance(r, FlowException))
        if what == "list" and prove_bool(m.t != n.t):
            v.oblige_eq("wrong number of iterables: nothing is trained", w.trace, VList())
        else:
            last = w.trace[-1]
            v.oblige_eq("after a failure nothing more is trained", w.trace, SSeq(
                [Rep(num_term(last[1]), lambda j: [Item(("train_node", data_of(what, data, j), wrap(j)))]), Item(("boom", last[1]))]))
        return
    if what == "list":
        v.oblige("a wrong number of iterables is refused", m.t == n.t)
    if what == "array":
        # every node gets an iterable holding exactly the array
        want = lambda j: ("train_node", VList([x]), wrap(j))
        ok = []
        for s in core._norm(w.trace.segs()):
            if isinstance(s, Rep):
                j = z3.FreshConst(z3.IntSort(), "tj")
                inner = core._norm(s.seg(j))
                v.oblige("one training per node", len(inner) == 1 and inner[0].v[0] == "train_node")
                v.oblige_eq("in order", inner[0].v[2], wrap(j))
                v.oblige_eq("a single array is the only chunk of every node", inner[0].v[1], VList([x]))
                v.oblige("all nodes", s.count == n.t)
        v.oblige("close last", core._norm(w.trace.segs())[-1].v == ("close_last",))
    else:
        v.oblige_eq("node i is trained with iterable i, in order, then the last node is closed", w.trace, SSeq(
            [Rep(n.t, lambda j: [Item(("train_node", ItInd(j), wrap(j)))]), Item(("close_last",))]))


def data_of(what, data, j):
    return ItInd(j) if what == "list" else VList([data])


@unit("Flow._close_last_node", ["mdp.linear_flows:Flow._close_last_node"])
def u_close(v):
    n = v.fresh_int("n", 1)
    w = make_world(v, n, n.t - 1)
    v.assume(f_phases(n.t - 1) >= 1)
    w.phase.v = v.fresh_int("phase", 0)
    w.started.v = v.case("started")
    w.boom = True
    fl = make_flow(AFlow, n)
    ph0 = w.phase.v
    st = w.started.v
    tr = z3.And(f_trainable(n.t - 1), ph0.t < f_phases(n.t - 1))
    kind, r = outcome(fl._close_last_node)
    if kind == "exc":
        v.oblige("failure is a flow exception with the original", isinstance(r, FlowExceptionCR))
        v.oblige_eq("nothing was closed", w.trace, VList())
        v.oblige("a finished node is not an error", tr)
        return
    if prove_bool(tr):
        v.oblige_eq("the last node's open phase is closed", w.trace, VList([("stop", n - 1, ph0)]))
    else:
        v.oblige("decided", prove_bool(z3.Not(tr)))
        v.oblige_eq("a finished node is left alone", w.trace, VList())
