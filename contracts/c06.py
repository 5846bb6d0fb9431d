"""C06: checkpoints run once per node in order; crashes name the failing node."""
import builtins
import os
import pickle
import tempfile

from .flowmodel import *
from mdp import CheckpointFlow, CrashRecoveryException


# ---------------------------------------------------------------- files (trusted contracts)
class GhostFile(object):
    def __init__(self, name, trace):
        self.name, self.trace = name, trace

    def close(self):
        self.trace.append(("close", self.name))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def files():
    return P().globals.get("files")


@rt.handler(builtins.open)
def _open(name, mode="r", *a, **k):
    t = files()
    if t is None:
        return NotImplemented
    t.append(("open", name, mode))
    return GhostFile(name, t)


@rt.handler(tempfile.mkstemp)
def _mkstemp(*a, **k):
    t = files()
    if t is None:
        return NotImplemented
    name = "tmp%d" % len(t)
    t.append(("mkstemp", name))
    return (("fd", name), name)


@rt.handler(os.fdopen)
def _fdopen(fd, mode="r", *a, **k):
    t = files()
    if t is None:
        return NotImplemented
    t.append(("open", fd[1], mode))
    return GhostFile(fd[1], t)


@rt.handler(pickle.dump)
def _dump(obj, f, *a, **k):
    t = files()
    if t is None:
        return NotImplemented
    t.append(("dump", obj, f.name))


models.trusted("open, os.fdopen, tempfile.mkstemp, pickle.dump and traceback formatting act on the named file only (C06)")


def named(r, i):
    """the message names position i"""
    return show(wrap(z3.simplify(num_term(i)))) in str(r)


@unit("Flow._propagate_exception, FlowExceptionCR", ["mdp.linear_flows:Flow._propagate_exception",
                                                     "mdp.linear_flows:FlowExceptionCR.__init__",
                                                     "mdp.linear_flows:CrashRecoveryException.__init__",
                                                     "mdp.linear_flows:CrashRecoveryException.dump"])
def u_propagate(v):
    n = v.fresh_int("n", 1)
    make_world(v, n)
    fl = make_flow(Flow, n)
    i = v.fresh_int("i", 0)
    v.assume(i.t < n.t)
    rec = v.choose([False, True, "dumpfile"])
    fl.set_crash_recovery(rec)
    v.oblige_eq("recovery mode", fl._crash_recovery, rec)
    trace = P().globals["files"] = []
    e = v.choose([Boom("reason"), Boom(), mdp.NodeException("reason"), KeyError("k")])
    kind, r = outcome(fl._propagate_exception, e, i)
    v.oblige("a crash-recovery flow exception", kind == "exc" and isinstance(r, FlowExceptionCR) and isinstance(r, FlowException))
    v.oblige("it carries the original exception", r.parent_exception is e)
    v.oblige("it carries the flow", r.crashing_obj is fl)
    v.oblige("its message names the node", named(r, i))
    if not rec:
        v.oblige("without crash recovery nothing is written", trace == [])
        return
    name = r.filename
    v.oblige("the dump is the flow", len([t for t in trace if t[0] == "dump"]) == 1
             and [t for t in trace if t[0] == "dump"][0][1] is fl and [t for t in trace if t[0] == "dump"][0][2] == name)
    v.oblige("the file is writable, binary and closed", ("close", name) == trace[-1]
             and any(t[0] == "open" and t[1] == name and "b" in t[2] and ("w" in t[2] or "+" in t[2]) for t in trace))
    v.oblige("the file is the requested one", name == rec if rec is not True else ("mkstemp", name) in trace)
    v.oblige("the message says where the dump is", name in str(r))


@unit("CrashRecoveryException", ["mdp.linear_flows:CrashRecoveryException.__init__", "mdp.linear_flows:CrashRecoveryException.dump"])
def u_cre(v):
    obj, e = Cell(1), Boom("x")
    r = CrashRecoveryException("message", obj, e)
    v.oblige("carries object and exception", r.crashing_obj is obj and r.parent_exception is e and str(r) == "message")
    trace = P().globals["files"] = []
    name = v.choose([None, "somewhere"])
    got = r.dump(name)
    v.oblige("the object is dumped to the file that is returned",
             [t for t in trace if t[0] == "dump"] == [("dump", obj, got)] and (name is None or got == name) and trace[-1] == ("close", got))


# ---------------------------------------------------------------- a failing node stops the run and is named
def failing(v, cls=Flow):
    n = v.fresh_int("n", 1)
    w = make_world(v, n)
    w.boom = True
    w.record_exec = True
    fl = make_flow(cls, n)
    return n, w, fl


@unit("Flow._execute_seq [failing node]", ["mdp.linear_flows:Flow._execute_seq", "mdp.linear_flows:Flow._propagate_exception"])
def u_exec(v):
    n, w, fl = failing(v)
    v.candidates += [COMP]
    x = new_data("x")
    kind, r = outcome(fl._execute_seq, x)
    if kind == "ok":
        v.oblige_eq("all nodes", w.trace, SSeq([Rep(n.t, lambda j: [Item(("execute", wrap(j), comp(j, x)))])]))
        return
    last = w.trace[-1]
    v.oblige("stopped by the failing node", last[0] == "boom")
    i = num_term(last[1])
    v.oblige("an existing node", z3.And(i >= 0, i < n.t))
    v.oblige_eq("no later node is called", w.trace, SSeq([Rep(i, lambda j: [Item(("execute", wrap(j), comp(j, x)))]), Item(("boom", wrap(i)))]))
    v.oblige("a flow exception that carries the original exception and the flow",
             isinstance(r, FlowExceptionCR) and isinstance(r.parent_exception, Boom) and r.crashing_obj is fl)
    v.oblige("it names the failing node", named(r, i))


@unit("Flow._inverse_seq [failing node]", ["mdp.linear_flows:Flow._inverse_seq", "mdp.linear_flows:Flow._propagate_exception"])
def u_inv(v):
    n, w, fl = failing(v)
    v.candidates += [ICOMP(n)]
    x = new_data("x")
    kind, r = outcome(fl._inverse_seq, x)
    call = lambda j: [Item(("inverse", wrap(n.t - 1 - j), icomp(n, j, x)))]
    if kind == "ok":
        v.oblige_eq("all nodes", w.trace, SSeq([Rep(n.t, call)]))
        return
    last = w.trace[-1]
    v.oblige("stopped by the failing node", last[0] == "boom")
    i = num_term(last[1])
    v.oblige("an existing node", z3.And(i >= 0, i < n.t))
    v.oblige_eq("no further node is called", w.trace, SSeq([Rep(n.t - 1 - i, call), Item(("boom", wrap(i)))]))
    v.oblige("a flow exception that carries the original exception and the flow",
             isinstance(r, FlowExceptionCR) and isinstance(r.parent_exception, Boom) and r.crashing_obj is fl)
    v.oblige("it names the failing node", named(r, i))


class AFlow(Flow):
    """_execute_seq replaced by its contract (above): it may fail at some node, naming it"""
    def _execute_seq(self, x, nodenr=None):
        w = world()
        last = num_term(w.n) - 1 if nodenr is None else num_term(nodenr)
        rt.oblige("precondition of _execute_seq: an existing node", z3.And(last >= -1, last < num_term(w.n)))
        if rt.case("execute_seq_fails"):
            j = rt.fresh_int("failing", 0)
            rt.assume(j.t <= last)
            w.failed = j
            raise FlowExceptionCR("\nException in node #%s" % show(j), self, Boom("execution failed"))
        return comp(last + 1, x)

    @staticmethod
    def _get_required_train_args(node):
        return []


@unit("Flow._train_node [failing node]", ["mdp.linear_flows:Flow._train_node", "mdp.linear_flows:Flow._propagate_exception"])
def u_train(v):
    n = v.fresh_int("n", 1)
    i = v.fresh_int("i", 0)
    v.assume(i.t < n.t)
    w = make_world(v, n, i.t)
    w.failed = None
    v.assume(f_phases(i.t) >= 1)
    v.assume(f_trainable(i.t))
    w.phase.v = v.fresh_int("phase", 0)
    w.started.v = False
    v.assume(num_term(w.phase.v) < f_phases(i.t))
    w.boom = True
    fl = make_flow(AFlow, n)
    it = Iterable("array", 0)
    v.candidates += [COMP]
    calls = P().globals["after"] = []
    kind, r = outcome(fl._train_node, it, i)
    if kind == "ok":
        return v.oblige_eq("the last phase is left open", w.started.v, True)
    v.oblige("a flow exception", isinstance(r, FlowException))
    if w.failed is not None:
        v.oblige("it names the node that failed while processing the data", named(r, w.failed))
        v.oblige("and the node being trained", named(r, i))
    elif isinstance(r, FlowExceptionCR) and isinstance(r.parent_exception, Boom):
        v.oblige("a failing training names the trained node", named(r, i))
        v.oblige("carries the flow", r.crashing_obj is fl)
    else:
        last = num_term(it.passes.v) - 1
        v.oblige("otherwise only an exhausted iterable", f_cnt(last) <= 0)


@unit("Flow._close_last_node [failing node]", ["mdp.linear_flows:Flow._close_last_node"])
def u_close(v):
    n = v.fresh_int("n", 1)
    w = make_world(v, n, n.t - 1)
    v.assume(f_phases(n.t - 1) >= 1)
    v.assume(f_trainable(n.t - 1))
    w.phase.v = v.fresh_int("phase", 0)
    v.assume(num_term(w.phase.v) < f_phases(n.t - 1))
    w.started.v = True
    w.boom = True
    fl = make_flow(Flow, n)
    kind, r = outcome(fl._close_last_node)
    if kind == "exc":
        v.oblige("a flow exception that names the last node and carries original and flow", isinstance(r, FlowExceptionCR)
                 and isinstance(r.parent_exception, Boom) and r.crashing_obj is fl and named(r, n.t - 1))
    else:
        v.oblige_eq("closed", [t[0] for t in w.trace], ["stop"])


# ---------------------------------------------------------------- checkpoints
f_ret = z3.Function("checkpoint_returns", z3.IntSort(), z3.IntSort())       # 0 None, 1 empty dict, 2 dict
f_val = z3.Function("checkpoint_value", z3.IntSort(), DSort)
f_attr = z3.Function("attribute_after", z3.IntSort(), z3.IntSort(), DSort, DSort)


class CP(Ind):
    """checkpoint function number idx of the list"""
    family = "checkpoint"

    def _vc_isa(self, cls):
        return cls is object

    def __bool__(self):
        # a checkpoint is any callable object, its truth value says nothing
        return P().branch(P().fresh("checkpoint_truth", z3.BoolSort()))

    def __call__(self, *a, **k):
        w = world()
        w.trace.append(("checkpoint", wrap(self.idx)) + tuple(a) + tuple(sorted(k.items())))
        if w.returns:
            if P().branch(f_ret(self.idx) == 0):
                return None
            if P().branch(f_ret(self.idx) == 1):
                return VDict()
            return VDict({"ck": Data(f_val(self.idx))})
        return None


class KFlow(CheckpointFlow):
    """_train_node replaced by its contract (C03): trains node nodenr or fails"""
    def _train_node(self, data_iterable, nodenr):
        w = world()
        if w.boom and rt.case("train_node_fails"):
            w.trace.append(("boom", nodenr))
            raise FlowException("failure in node")
        w.trace.append(("train_node", data_iterable, nodenr))

    def _close_last_node(self):
        world().trace.append(("close_last",))


class ItInd(Ind):
    family = "iterable"

    def _vc_hasattr(self, n):
        return n == "__iter__"

    def _vc_isa(self, cls):
        return cls in (object,)


@unit("CheckpointFlow.train", ["mdp.linear_flows:CheckpointFlow.train", "mdp.linear_flows:CheckpointFlow._train_check_checkpoints"])
def u_checkpoints(v):
    a, b, c = [v.fresh_int(x, 0) for x in "abc"]
    n = v.fresh_int("n", 1)
    w = make_world(v, n)
    w.boom = v.case("boom")
    w.returns = False
    fl = make_flow(KFlow, n)
    data = VList.of([span(n.t, lambda j: ItInd(j))])
    form = v.choose(["list", "single", "none"])
    if form == "list":
        # present, absent, present blocks of arbitrary length
        A, B, C = a.t, b.t, c.t
        cps = VList.of([span(A, lambda j: CP(j)), span(B, lambda j: None), span(C, lambda j: CP(A + B + j))])
        m = A + B + C
    else:
        cps = CP(z3.IntVal(0)) if form == "single" else None
        m = n.t
    kind, r = outcome(fl.train, data, cps)
    if not prove_bool(m == n.t):
        v.oblige("a wrong number of checkpoints is refused with a flow exception", kind == "exc" and isinstance(r, FlowException))
        v.oblige_eq("before anything is trained", w.trace, VList())
        return
    train = lambda j: Item(("train_node", ItInd(j), wrap(j)))
    if form == "list":
        full = [Rep(A, lambda j: [train(j), Item(("checkpoint", wrap(j), MNode(j)))]),
                Rep(B, lambda j: [train(A + j)]),
                Rep(C, lambda j: [train(A + B + j), Item(("checkpoint", wrap(A + B + j), MNode(A + B + j)))])]
    elif form == "single":
        full = [Rep(n.t, lambda j: [train(j), Item(("checkpoint", wrap(z3.IntVal(0)), MNode(j)))])]
    else:
        full = [Rep(n.t, lambda j: [train(j)])]
    if kind == "exc":
        v.oblige("only a failing training", w.boom and isinstance(r, FlowException))
        v.oblige("nothing happens after the failure", w.trace[-1][0] == "boom")
        return
    v.oblige_eq("checkpoint i once, with node i, after node i is trained and before the next; then the last node is closed",
                w.trace, SSeq(full + [Item(("close_last",))]))


def is_dict(k):
    return z3.Not(z3.Or(f_ret(k) == 0, f_ret(k) == 1))


def attr(k, v0):
    """value of the attribute after k checkpoints: the last returned one"""
    k = z3.simplify(k)
    t = lambda m: f_attr(m, z3.IntVal(0), v0.t)
    P().axiom(t(z3.IntVal(0)) == v0.t)
    P().axiom(z3.Implies(k >= 0, t(k + 1) == z3.If(is_dict(k), f_val(k), t(k))))
    P().axiom(z3.Implies(k > 0, t(k) == z3.If(is_dict(k - 1), f_val(k - 1), t(k - 1))))
    return Data(t(k))


def _attr_candidate(k, v0):
    if not isinstance(v0, Data):
        raise CannotMerge()
    return attr(k, v0)


@unit("CheckpointFlow.train [returned dictionaries]", ["mdp.linear_flows:CheckpointFlow.train"])
def u_dict(v):
    n = v.fresh_int("n", 1)
    w = make_world(v, n)
    w.returns = True
    fl = make_flow(KFlow, n)
    old = new_data("old")
    other = new_data("other")
    fl.ck = old
    fl.untouched = other
    v.candidates += [("last returned value", _attr_candidate)]
    data = VList.of([span(n.t, lambda j: ItInd(j))])
    cps = VList.of([span(n.t, lambda j: CP(j))])
    kind, r = outcome(fl.train, data, cps)
    v.oblige_eq("no failure", kind, "ok")
    v.oblige_eq("the returned dictionaries became attributes, in order", fl.ck, attr(n.t, old))
    v.oblige_eq("other attributes are untouched", fl.untouched, other)
    v.oblige_eq("the nodes are untouched", fl.flow, node_list(n))
