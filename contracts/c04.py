"""C04: flow execute/inverse are exact function composition."""
from .flowmodel import *


class Joined(Sym):
    """numpy.concatenate of a list of arrays (row-wise, in list order)"""
    def __init__(self, segs):
        object.__setattr__(self, "segs_", segs)

    def vc_eq(self, o):
        return isinstance(o, Joined) and core.seqs_equal(self.segs_, o.segs_)

    def _vc_isa(self, cls):
        return cls in (np.ndarray, object)


@rt.handler(np.concatenate)
def _concatenate(seq, axis=0, *a, **k):
    segs = list(core._norm(engine.seq_segs(seq))) if isinstance(seq, (list, tuple)) or is_sym(seq) else []
    if not any(isinstance(s, Rep) or (isinstance(s, Item) and isinstance(s.v, Data)) for s in segs):
        return NotImplemented
    if axis != 0 or a or k:
        raise Unsupported("concatenate with an axis")
    return Joined(segs)


models.trusted("numpy.concatenate(list) joins the arrays of the list row-wise in list order (C04)")


class CFlow(Flow):
    """_execute_seq/_inverse_seq replaced by their contracts (proved below and in C03)"""
    def _execute_seq(self, x, nodenr=None):
        w = world()
        n = num_term(w.n)
        last = n - 1 if nodenr is None else num_term(nodenr)
        rt.oblige("precondition of _execute_seq: an existing node", z3.And(last >= -1, last < n))
        w.trace.append(("execute_seq", x))
        if w.boom and rt.case("execute_seq_fails"):
            raise FlowExceptionCR("failure in node", self, Boom("execution failed"))
        return comp(last + 1, x)

    def _inverse_seq(self, x):
        w = world()
        w.trace.append(("inverse_seq", x))
        if w.boom and rt.case("inverse_seq_fails"):
            raise FlowExceptionCR("failure in node", self, Boom("inversion failed"))
        return icomp(w.n, num_term(w.n), x)


def nodenr_arg(v, n):
    if v.case("upto"):
        last = v.fresh_int("last", 0)
        v.assume(last.t < n.t)
        return last, last.t + 1
    return None, n.t


@unit("Flow._execute_seq", ["mdp.linear_flows:Flow._execute_seq"])
def u_execute_seq(v):
    """every node 0..nodenr is executed exactly once, in order, on the previous result"""
    n = v.fresh_int("n", 0)
    w = make_world(v, n)
    w.record_exec = True
    v.candidates += [COMP]
    fl = make_flow(Flow, n)
    x = new_data("x")
    last, m = nodenr_arg(v, n)
    kind, r = outcome(fl._execute_seq, x, *([] if last is None else [last]))
    v.oblige_eq("no exception", kind, "ok")
    v.oblige_eq("the composition of nodes 0..nodenr", r, comp(m, x))
    v.oblige_eq("each node once, on the result of the previous", w.trace,
                SSeq([Rep(m, lambda j: [Item(("execute", wrap(j), comp(j, x)))])]))


@unit("Flow._inverse_seq", ["mdp.linear_flows:Flow._inverse_seq"])
def u_inverse_seq(v):
    n = v.fresh_int("n", 0)
    w = make_world(v, n)
    w.record_exec = True
    w.boom = v.case("boom")
    v.candidates += [ICOMP(n)]
    fl = make_flow(Flow, n)
    x = new_data("x")
    kind, r = outcome(fl._inverse_seq, x)
    if kind == "exc":
        v.oblige("a failing node is reported as a flow exception", isinstance(r, FlowExceptionCR) and w.boom)
        return
    v.oblige_eq("the composition of all inverses, last node first", r, icomp(n, n.t, x))
    v.oblige_eq("each node once, last to first", w.trace,
                SSeq([Rep(n.t, lambda j: [Item(("inverse", wrap(n.t - 1 - j), icomp(n, j, x)))])]))


def setup(v):
    n = v.fresh_int("n", 1)
    w = make_world(v, n)
    w.boom = v.case("boom")
    return n, w, make_flow(CFlow, n)


def run_unit(name, how, inverse):
    @unit("Flow.%s" % name, ["mdp.linear_flows:Flow.%s" % name])
    def u(v):
        n, w, fl = setup(v)
        if inverse:
            args, val = (), (lambda x: icomp(n, n.t, x))
        else:
            last, m = nodenr_arg(v, n)
            args = () if last is None else (last,)
            val = lambda x: comp(m, x)
        if v.case("one_array"):
            x = new_data("x")
            kind, r = outcome(getattr(fl, name), x, *args)
            v.oblige_eq("the sequence is run once, on the array", w.trace, VList([(how, x)]))
            if kind == "exc":
                v.oblige("only when a node fails", w.boom and isinstance(r, FlowExceptionCR))
            else:
                v.oblige_eq("the result is the composition", r, val(x))
            return
        it = Iterable("array", 0)
        kind, r = outcome(getattr(fl, name), it, *args)
        v.oblige_eq("one pass over the iterable", it.passes.v, 1)
        cnt = f_cnt(z3.IntVal(0))
        chunk = lambda j: Data(f_chunk(z3.IntVal(0), j))
        if kind == "exc":
            v.oblige("a flow exception", isinstance(r, FlowException))
            if isinstance(r, FlowExceptionCR):
                v.oblige("only when a node fails", w.boom)
                k = core.segs_len(w.trace.segs())
                v.oblige("not more than the items", k <= cnt)
                v.oblige_eq("items in order up to the failing one", w.trace, SSeq([Rep(k, lambda j: [Item((how, chunk(j)))])]))
            else:
                v.oblige("only for an empty iterable", cnt == 0)
                v.oblige_eq("nothing is run", w.trace, VList())
            return
        v.oblige("an empty iterable is refused", cnt > 0)
        v.oblige_eq("every item once, in iteration order", w.trace, SSeq([Rep(cnt, lambda j: [Item((how, chunk(j)))])]))
        v.oblige_eq("the results of the items, concatenated in iteration order", r,
                    Joined([Rep(cnt, lambda j: [Item(val(chunk(j)))])]))


run_unit("execute", "execute_seq", False)
run_unit("__call__", "execute_seq", False)
run_unit("inverse", "inverse_seq", True)


class SFlow(Flow):
    """consistency check replaced by its contract (C05): it only decides between accepting and ValueError"""
    def _check_nodes_consistency(self, flow=None):
        if world().boom and rt.case("inconsistent"):
            raise ValueError("dimensions mismatch")


@unit("Flow.__getitem__ [slice]", ["mdp.linear_flows:Flow.__getitem__", "mdp.linear_flows:Flow.__init__"])
def u_slice(v):
    """flow[a:b] is a new flow of exactly nodes a..b-1; flow[:n+1] executes like execute(x, n)"""
    n = v.fresh_int("n", 0)
    w = make_world(v, n)
    fl = make_flow(SFlow, n)
    form = v.choose(["a:b", "a:", ":b", ":"])
    a = v.fresh_int("a") if "a" in form else None
    b = v.fresh_int("b") if "b" in form else None
    old = fl.flow
    kind, r = outcome(fl.__getitem__, slice(a, b))
    v.oblige_eq("a slice of a flow is a flow", kind == "ok" and type(r) is SFlow, True)
    lo, hi = engine.slice_bounds(n.t, slice(a, b))
    hi = z3.If(hi < lo, lo, hi)
    v.oblige_eq("exactly the selected nodes", r.flow, SSeq([span(hi - lo, lambda j: MNode(lo + j))]))
    v.oblige("the flow keeps its own list", fl.flow is old and r.flow is not old)
    v.oblige_eq("the flow is not changed", fl.flow, node_list(n))


@unit("Flow slice then execute", ["mdp.linear_flows:Flow.__getitem__", "mdp.linear_flows:Flow._execute_seq"])
def u_slice_exec(v):
    n = v.fresh_int("n", 1)
    w = make_world(v, n)
    v.candidates += [COMP]
    k = v.fresh_int("k", 0)
    v.assume(k.t < n.t)
    fl = make_flow(SFlow, n)
    x = new_data("x")
    part = fl[:k + 1]
    kind, r = outcome(part.execute, x)
    kind2, r2 = outcome(fl.execute, x, k)
    v.oblige_eq("both succeed", (kind, kind2), ("ok", "ok"))
    v.oblige_eq("executing up to node n equals executing the slice up to n+1", r, r2)
    v.oblige_eq("the composition", r2, comp(k.t + 1, x))
