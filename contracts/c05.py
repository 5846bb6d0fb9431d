"""C05: flow container operations keep it consistent or leave it untouched.

1. _check_nodes_consistency (loop over an arbitrary list of nodes) accepts exactly the lists in which every known
   output dimension equals the next known input dimension, and raises ValueError otherwise.
2. Every container operation, with that function replaced by its contract: on success the flow's list is the one the
   corresponding list operation gives, and it is a list the check has accepted; on ValueError the list that operation
   gives was rejected; on any failure, and for operations returning a new flow, the flows are as before.
"""
from .flowmodel import *

f_inset = z3.Function("in_set", z3.IntSort(), z3.BoolSort())
f_in = z3.Function("in_dim", z3.IntSort(), z3.IntSort())
f_outset = z3.Function("out_set", z3.IntSort(), z3.BoolSort())
f_out = z3.Function("out_dim", z3.IntSort(), z3.IntSort())
f_isnode = z3.Function("isnode", z3.IntSort(), z3.BoolSort())
f_at = z3.Function("at", z3.IntSort(), z3.IntSort())


class DNode(MNode):
    """a node with optional dimensions"""
    @property
    def input_dim(self):
        return wrap(f_in(self.idx)) if P().branch(f_inset(self.idx)) else None

    @property
    def output_dim(self):
        return wrap(f_out(self.idx)) if P().branch(f_outset(self.idx)) else None

    def __str__(self):
        return "node"


class Value(DNode):
    """something that may or may not be a node"""
    family = "node"

    def _vc_isa(self, cls):
        if cls is object:
            return True
        if cls is mdp.Node:
            return P().branch(f_isnode(self.idx))
        return False


def fits(a, b):
    """node a may be followed by node b"""
    return z3.Implies(z3.And(f_outset(a), f_inset(b)), f_out(a) == f_in(b))


@unit("Flow._check_nodes_consistency", ["mdp.linear_flows:Flow._check_nodes_consistency",
                                        "mdp.linear_flows:Flow._check_dimension_consistency"])
def u_check(v):
    n = v.fresh_int("n", 0)
    make_world(v, n)
    lst = VList.of([span(n.t, lambda j: DNode(f_at(j)))])
    fl = make_flow(Flow, n)
    if v.case("own_list"):
        fl.flow = lst
        arg = ()
    else:
        arg = (lst,)
    kind, r = outcome(fl._check_nodes_consistency, *arg)
    if kind == "ok":
        j = P().fresh("j", z3.IntSort())
        v.assume(z3.And(j >= 1, j < n.t))
        instantiate([j, j - 1])
        v.oblige("every accepted neighbour pair fits", fits(f_at(j - 1), f_at(j)))
    else:
        v.oblige("refusal is a ValueError", isinstance(r, ValueError))
        # the path that raised knows a neighbour pair that does not fit
        j = P().fresh("j", z3.IntSort())
        v.oblige("only a list with a neighbour pair that does not fit is refused",
                 z3.Not(z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < n.t), fits(f_at(j - 1), f_at(j))))))


def instantiate(ts):
    """instances of the universally quantified facts of the path at the given terms"""
    p = P()
    for f in list(p.facts):
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1:
            for t in ts:
                p.assume(z3.substitute_vars(f.body(), t))


class KFlow(Flow):
    """_check_nodes_consistency replaced by its contract"""
    def _check_nodes_consistency(self, flow=None):
        w = world()
        lst = SSeq(list(core._norm(engine.seq_segs(self.flow if flow is None else flow))))
        if any(core.seqs_equal(lst.segs, l.segs) for l in w.accepted):
            return                       # the verdict is a function of the list
        if rt.case("consistent"):
            w.accepted.append(lst)
        else:
            w.rejected.append(lst)
            raise ValueError("dimensions mismatch")


class Other(object):
    pass


def setup(v, cls=KFlow):
    n = v.fresh_int("n", 0)
    w = make_world(v, n)
    w.accepted, w.rejected = [], []
    fl = make_flow(cls, n)
    fl.flow = VList.of([span(n.t, lambda j: DNode(j))])
    return n, w, fl


def nodes(lo, hi):
    return span(z3.simplify(hi - lo), lambda j: DNode(z3.simplify(lo + j)))


def verdict(v, w, fl, n, kind, r, want, ok_types=(ValueError,), new=False):
    """want: the list the operation must give"""
    old = SSeq([nodes(z3.IntVal(0), n.t)])
    if kind == "exc":
        v.oblige("a refused operation raises ValueError", isinstance(r, ok_types))
        v.oblige_eq("a failed operation leaves the flow as it was", fl.flow, old)
        if type(r) is ValueError:
            v.oblige("ValueError only for an inconsistent result", bool(w.rejected) and not w.accepted)
            v.oblige_eq("the refused list is the list the operation would give", w.rejected[-1], want)
        return False
    target = r if new else fl
    v.oblige_eq("the list operation's result", target.flow, want)
    v.oblige("nothing inconsistent was accepted", not w.rejected and bool(w.accepted))
    v.oblige_eq("the result passed the consistency check", w.accepted[-1], want)
    if new:
        v.oblige("a new flow of the same class", type(r) is type(fl) and r is not fl and r.flow is not fl.flow)
        v.oblige_eq("the operand is not modified", fl.flow, old)
    return True


def norm(i, n):
    return z3.If(i < 0, i + n, i)


def index(v, n, name="i"):
    """an index, and whether it is in range"""
    i = v.fresh_int(name)
    k = norm(i.t, n.t)
    ok = P().branch(z3.And(k >= 0, k < n.t))
    return i, z3.simplify(k), ok


def slc(v, n):
    form = v.choose(["a:b", "a:", ":b", ":"])
    a = v.fresh_int("a") if "a" in form else None
    b = v.fresh_int("b") if "b" in form else None
    lo, hi = engine.slice_bounds(n.t, slice(a, b))
    hi = z3.If(hi < lo, lo, hi)
    return slice(a, b), lo, hi


def one(v, maybe=True):
    """a single value, node or not"""
    t = P().fresh("new", z3.IntSort())
    v.assume(t < 0)                    # not one of the flow's nodes
    return Value(t) if maybe else DNode(t), t


def without(n, lo, hi, mid):
    return SSeq([nodes(z3.IntVal(0), lo)] + mid + [nodes(hi, n.t)])


def notnode(v, w, fl, n, kind, r):
    v.oblige("something that is not a node is refused with TypeError", kind == "exc" and isinstance(r, TypeError))
    v.oblige_eq("a failed operation leaves the flow as it was", fl.flow, SSeq([nodes(z3.IntVal(0), n.t)]))
    v.oblige("refused before the check", not w.accepted)


def outofrange(v, w, fl, n, kind, r):
    v.oblige("like a list: IndexError", kind == "exc" and isinstance(r, IndexError))
    v.oblige_eq("a failed operation leaves the flow as it was", fl.flow, SSeq([nodes(z3.IntVal(0), n.t)]))


@unit("Flow.__setitem__ [index]", ["mdp.linear_flows:Flow.__setitem__", "mdp.linear_flows:Flow._check_value_type_isnode"])
def u_set(v):
    n, w, fl = setup(v)
    i, k, inr = index(v, n)
    x, t = one(v)
    kind, r = outcome(fl.__setitem__, i, x)
    if not prove_bool(f_isnode(t)):
        return notnode(v, w, fl, n, kind, r)
    if not inr:
        return outofrange(v, w, fl, n, kind, r)
    verdict(v, w, fl, n, kind, r, without(n, k, k + 1, [Item(DNode(t))]))


def values(v, name="m"):
    m = v.fresh_int(name, 0)
    form = v.choose(["list", "iterator"])
    base = P().fresh("base", z3.IntSort())
    segs = [span(m.t, lambda j: Value(f_at(j)))]
    if form == "list":
        return m, VList.of(segs), segs
    return m, OneShot(segs), segs


class OneShot(Sym):
    """an iterator: its items can be taken once"""
    def __init__(self, segs):
        object.__setattr__(self, "segs_", segs)
        object.__setattr__(self, "used", Cell(False))

    def vc_segs(self):
        if self.used.v:
            return []
        self.used.v = True
        return list(self.segs_)

    def _vc_isa(self, cls):
        return cls is object


@unit("Flow.__setitem__ [slice]", ["mdp.linear_flows:Flow.__setitem__"])
def u_setslice(v):
    n, w, fl = setup(v)
    s, lo, hi = slc(v, n)
    m, val, segs = values(v)
    kind, r = outcome(fl.__setitem__, s, val)
    if kind == "exc" and isinstance(r, TypeError):
        v.oblige("refused before the check", not w.accepted)
        v.oblige_eq("a failed operation leaves the flow as it was", fl.flow, SSeq([nodes(z3.IntVal(0), n.t)]))
        j = P().fresh("j", z3.IntSort())
        v.oblige("TypeError only if some value is not a node",
                 z3.Not(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m.t), f_isnode(f_at(j))))))
        return
    verdict(v, w, fl, n, kind, r, without(n, lo, hi, segs))
    j = P().fresh("j", z3.IntSort())
    v.assume(z3.And(j >= 0, j < m.t))
    instantiate([j])
    v.oblige("only nodes are accepted", f_isnode(f_at(j)))


@unit("Flow.__delitem__", ["mdp.linear_flows:Flow.__delitem__"])
def u_del(v):
    n, w, fl = setup(v)
    if v.case("slice"):
        s, lo, hi = slc(v, n)
        kind, r = outcome(fl.__delitem__, s)
    else:
        i, k, inr = index(v, n)
        kind, r = outcome(fl.__delitem__, i)
        if not inr:
            return outofrange(v, w, fl, n, kind, r)
        lo, hi = k, k + 1
    verdict(v, w, fl, n, kind, r, without(n, lo, hi, []))


@unit("Flow.__getitem__, __len__, __iter__, __contains__", ["mdp.linear_flows:Flow.__getitem__", "mdp.linear_flows:Flow.__len__",
                                                            "mdp.linear_flows:Flow.__iter__"])
def u_get(v):
    n, w, fl = setup(v)
    lst = fl.flow
    v.oblige_eq("length", fl.__len__(), n)
    v.oblige_eq("iteration", SSeq(engine.seq_segs(fl)), SSeq([nodes(z3.IntVal(0), n.t)]))
    if v.case("slice"):
        s, lo, hi = slc(v, n)
        kind, r = outcome(fl.__getitem__, s)
        if verdict(v, w, fl, n, kind, r, SSeq([nodes(lo, hi)]), new=True):
            v.oblige("the original list is kept", fl.flow is lst)
        return
    i, k, inr = index(v, n)
    kind, r = outcome(fl.__getitem__, i)
    if not inr:
        return outofrange(v, w, fl, n, kind, r)
    v.oblige_eq("the node at the index", (kind, r), ("ok", DNode(k)))
    v.oblige("the list is kept", fl.flow is lst)
    v.oblige_eq("the flow is not changed", fl.flow, SSeq([nodes(z3.IntVal(0), n.t)]))


def other_operand(v, n):
    """-> operand, segments it contributes or None, flow operand"""
    what = v.choose(["flow", "same", "node", "neither"])
    if what == "flow":
        m = v.fresh_int("m", 0)
        o = make_flow(KFlow, m)
        segs = [span(m.t, lambda j: DNode(f_at(j)))]
        o.flow = VList.of(segs)
        return what, o, segs
    if what == "node":
        x, t = one(v, False)
        return what, x, [Item(DNode(t))]
    return what, v.choose([Other(), 3, None, "x"]) if what == "neither" else None, None


def concat_unit(name, new):
    @unit("Flow.%s" % name, ["mdp.linear_flows:Flow.%s" % name])
    def u(v):
        n, w, fl = setup(v)
        lst = fl.flow
        what, o, segs = other_operand(v, n)
        if what == "same":
            o, segs = fl, [nodes(z3.IntVal(0), n.t)]
        oflow = o.flow if what == "flow" else None
        if name == "extend" and what == "node":
            raise PathEnd()
        kind, r = outcome(getattr(fl, name), o)
        if what == "neither":
            return notnode(v, w, fl, n, kind, r)
        want = SSeq([nodes(z3.IntVal(0), n.t)] + segs)
        if verdict(v, w, fl, n, kind, r, want, new=new):
            if name == "__iadd__":
                v.oblige("the same flow is returned", r is fl)
        if oflow is not None:
            v.oblige("the other flow keeps its list", o.flow is oflow)
            v.oblige_eq("the other flow is not modified", o.flow, SSeq(segs))
            v.oblige("the two flows do not share their lists", (r if new and kind == "ok" else fl).flow is not oflow)
    return u


concat_unit("__add__", True)
concat_unit("__iadd__", False)
concat_unit("extend", False)


@unit("Flow.append", ["mdp.linear_flows:Flow.append"])
def u_append(v):
    n, w, fl = setup(v)
    x, t = one(v)
    kind, r = outcome(fl.append, x)
    if not prove_bool(f_isnode(t)):
        return notnode(v, w, fl, n, kind, r)
    verdict(v, w, fl, n, kind, r, SSeq([nodes(z3.IntVal(0), n.t), Item(DNode(t))]))


@unit("Flow.insert", ["mdp.linear_flows:Flow.insert"])
def u_insert(v):
    n, w, fl = setup(v)
    x, t = one(v)
    i = v.fresh_int("i")
    kind, r = outcome(fl.insert, i, x)
    if not prove_bool(f_isnode(t)):
        return notnode(v, w, fl, n, kind, r)
    k = z3.If(i.t < 0, z3.If(i.t + n.t < 0, z3.IntVal(0), i.t + n.t), z3.If(i.t > n.t, n.t, i.t))
    verdict(v, w, fl, n, kind, r, without(n, k, k, [Item(DNode(t))]))


@unit("Flow.pop", ["mdp.linear_flows:Flow.pop"])
def u_pop(v):
    n, w, fl = setup(v)
    if v.case("default"):
        i, k = v.fresh_int("unused"), n.t - 1
        inr = P().branch(n.t > 0)
        kind, r = outcome(fl.pop)
    else:
        i, k, inr = index(v, n)
        kind, r = outcome(fl.pop, i)
    if not inr:
        return outofrange(v, w, fl, n, kind, r)
    if verdict(v, w, fl, n, kind, r, without(n, k, k + 1, [])):
        v.oblige_eq("the removed node is returned", r, DNode(k))


@unit("Flow.__init__", ["mdp.linear_flows:Flow.__init__"])
def u_init(v):
    n, w, fl = setup(v)
    lst = VList.of([nodes(z3.IntVal(0), n.t)])
    kind, r = outcome(KFlow, lst)
    if kind == "exc":
        v.oblige("only a list that does not fit is refused", isinstance(r, ValueError) and w.rejected)
        return
    v.oblige_eq("the nodes are the list's", r.flow, SSeq([nodes(z3.IntVal(0), n.t)]))
    v.oblige_eq("the list passed the consistency check", w.accepted[-1], SSeq([nodes(z3.IntVal(0), n.t)]))


# ---------------------------------------------------------------- OnlineFlow
from mdp import OnlineFlow


class KOnline(OnlineFlow):
    _check_nodes_consistency = KFlow._check_nodes_consistency

    def _check_compatibility(self, flow):
        if rt.case("unsuitable_for_online_training"):
            raise TypeError("not an online node")

    def _check_value_type_is_online_or_nontrainable_node(self, value):
        if not isinstance(value, mdp.Node) or rt.case("unsuitable_value"):
            raise TypeError("not an online node")

    def _get_required_train_args_from_flow(self, flow):
        world().args_of.append(SSeq(list(core._norm(engine.seq_segs(flow)))))
        return VList(), VList()


def osetup(v):
    n, w, fl = setup(v, KOnline)
    w.args_of = []
    return n, w, fl


def overdict(v, w, fl, n, kind, r, want, new=False):
    old = SSeq([nodes(z3.IntVal(0), n.t)])
    if kind == "exc":
        v.oblige("a refused operation raises ValueError or TypeError", isinstance(r, (ValueError, TypeError)))
        v.oblige_eq("a failed operation leaves the flow as it was", fl.flow, old)
        return
    target = r if new else fl
    v.oblige_eq("the list operation's result", target.flow, want)
    v.oblige("nothing inconsistent was accepted", not w.rejected and bool(w.accepted))
    v.oblige_eq("the result passed the consistency check", w.accepted[-1], want)
    if new:
        v.oblige("a new flow", r is not fl and r.flow is not fl.flow)
        v.oblige_eq("the operand is not modified", fl.flow, old)
    v.oblige_eq("the argument requirements are those of the new list", w.args_of[-1], want)


def online_units():
    M = "mdp.linear_flows_online:OnlineFlow."

    @unit("OnlineFlow.__setitem__", [M + "__setitem__"])
    def u1(v):
        n, w, fl = osetup(v)
        if v.case("slice"):
            s, lo, hi = slc(v, n)
            m, val, segs = values(v)
            kind, r = outcome(fl.__setitem__, s, val)
            return overdict(v, w, fl, n, kind, r, without(n, lo, hi, segs))
        i, k, inr = index(v, n)
        x, t = one(v)
        kind, r = outcome(fl.__setitem__, i, x)
        if kind == "exc" and isinstance(r, IndexError):
            v.oblige("only outside", not inr)
            return v.oblige_eq("a failed operation leaves the flow as it was", fl.flow, SSeq([nodes(z3.IntVal(0), n.t)]))
        overdict(v, w, fl, n, kind, r, without(n, k, k + 1, [Item(DNode(t))]))

    @unit("OnlineFlow.__delitem__, pop", [M + "__delitem__"])
    def u2(v):
        n, w, fl = osetup(v)
        how = v.choose(["slice", "del", "pop"])
        if how == "slice":
            s, lo, hi = slc(v, n)
            kind, r = outcome(fl.__delitem__, s)
        else:
            i, k, inr = index(v, n)
            kind, r = outcome(fl.__delitem__ if how == "del" else fl.pop, i)
            if not inr:
                return outofrange(v, w, fl, n, kind, r)
            lo, hi = k, k + 1
        overdict(v, w, fl, n, kind, r, without(n, lo, hi, []))

    @unit("OnlineFlow.__add__, __iadd__, extend", [M + "__add__", M + "__iadd__", M + "extend"])
    def u3(v):
        n, w, fl = osetup(v)
        name = v.choose(["__add__", "__iadd__", "extend"])
        what, o, segs = other_operand(v, n)
        if what == "same" or (name == "extend" and what == "node"):
            raise PathEnd()
        oflow = o.flow if what == "flow" else None
        kind, r = outcome(getattr(fl, name), o)
        if what == "neither":
            return notnode(v, w, fl, n, kind, r)
        overdict(v, w, fl, n, kind, r, SSeq([nodes(z3.IntVal(0), n.t)] + segs), new=name == "__add__")
        if oflow is not None:
            v.oblige("the other flow keeps its list", o.flow is oflow)
            v.oblige_eq("the other flow is not modified", o.flow, SSeq(segs))

    @unit("OnlineFlow.append, insert", [M + "append", M + "insert"])
    def u4(v):
        n, w, fl = osetup(v)
        x, t = one(v)
        if v.case("append"):
            kind, r = outcome(fl.append, x)
            k = n.t
        else:
            i = v.fresh_int("i")
            kind, r = outcome(fl.insert, i, x)
            k = z3.If(i.t < 0, z3.If(i.t + n.t < 0, z3.IntVal(0), i.t + n.t), z3.If(i.t > n.t, n.t, i.t))
        overdict(v, w, fl, n, kind, r, without(n, k, k, [Item(DNode(t))]))


online_units()
