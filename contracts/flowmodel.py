"""Abstract nodes, data iterables and flows used by the flow contracts (C03, C04, C06, ...)."""
from .common import *
from mdp.linear_flows import Flow, FlowException, FlowExceptionCR
from mdp.signal_node import (TrainingException, TrainingFinishedException, IsNotTrainableException, NodeException,
                             IsNotInvertibleException)

f_exec = z3.Function("exec", z3.IntSort(), DSort, DSort)       # node j's function
f_inv = z3.Function("inv", z3.IntSort(), DSort, DSort)
f_comp = z3.Function("comp", z3.IntSort(), DSort, DSort)       # comp(m, x): x through nodes 0..m-1
f_icomp = z3.Function("icomp", z3.IntSort(), z3.IntSort(), DSort, DSort)   # icomp(n, m, y): y through the m last inverses
f_trainable = z3.Function("trainable", z3.IntSort(), z3.BoolSort())
f_phases = z3.Function("phases", z3.IntSort(), z3.IntSort())


def comp(m, x):
    """x through the first m nodes; unfolds its definition at m"""
    m = z3.simplify(m) if z3.is_expr(m) else z3.IntVal(m)
    t = f_comp(m, x.t)
    P().axiom(f_comp(z3.IntVal(0), x.t) == x.t)
    P().axiom(z3.Implies(m > 0, t == f_exec(m - 1, f_comp(m - 1, x.t))))
    P().axiom(z3.Implies(m >= 0, f_comp(m + 1, x.t) == f_exec(m, t)))
    return Data(t)


def icomp(n, m, y):
    """y through the inverses of nodes n-1, ..., n-m"""
    m = z3.simplify(m) if z3.is_expr(m) else z3.IntVal(m)
    n = num_term(n)
    t = f_icomp(n, m, y.t)
    P().axiom(f_icomp(n, z3.IntVal(0), y.t) == y.t)
    P().axiom(z3.Implies(m > 0, t == f_inv(n - m, f_icomp(n, m - 1, y.t))))
    P().axiom(z3.Implies(m >= 0, f_icomp(n, m + 1, y.t) == f_inv(n - 1 - m, t)))
    return Data(t)


def _comp_candidate(k, x):
    if not isinstance(x, Data):
        raise CannotMerge()
    return comp(k, x)


# loop invariant candidate: the value that went through k nodes is the composition of their functions
COMP = ("composition of the first k nodes", _comp_candidate)


def ICOMP(n):
    def cand(k, y):
        if not isinstance(y, Data):
            raise CannotMerge()
        return icomp(n, k, y)
    return ("composition of the last k inverses", cand)


class Boom(Exception):
    """an arbitrary error of a node"""


class World(object):
    """Ghost state of the abstract nodes of one flow."""
    _vc_ghost = True

    def __init__(self, n, focus=None):
        self.n = n                      # number of nodes
        self.focus = focus              # index (z3 term) of the node whose life-cycle is tracked
        self.trace = VList()
        self.phase = Cell(None)
        self.started = Cell(None)
        self.boom = False               # nodes may raise
        self.record_exec = False


def world():
    return P().globals["world"]


class MNode(Ind):
    """node j of the flow: the contract of mdp.Node (C01, C02)"""
    family = "node"

    def _vc_isa(self, cls):
        return cls in (mdp.Node, object)

    def _vc_type(self):
        return mdp.Node

    def _vc_hasattr(self, n):
        return hasattr(mdp.Node, n)

    def _focus(self):
        w = world()
        if w.focus is None or not prove_bool(self.idx == w.focus):
            return False
        return True

    def is_trainable(self):
        return wrap(f_trainable(self.idx))

    def _tr(self):
        """training flag (symbolic)"""
        w = world()
        return z3.And(f_trainable(self.idx), num_term(w.phase.v) < f_phases(self.idx))

    def is_training(self):
        if not self._focus():
            rt.oblige("only the node being trained is asked for its training state", False)
        return wrap(self._tr())

    def get_current_train_phase(self):
        if not self._focus():
            raise Unsupported("phase of another node")
        return world().phase.v

    def get_remaining_train_phase(self):
        if not self._focus():
            raise Unsupported("phase of another node")
        if P().branch(f_trainable(self.idx)):
            return wrap(f_phases(self.idx) - num_term(world().phase.v))
        return 0

    def train(self, x, *args, **kw):
        w = world()
        if not self._focus():
            rt.oblige("no other node is trained", False)
            raise PathEnd()
        if not P().branch(f_trainable(self.idx)):
            raise IsNotTrainableException("not trainable")
        if not P().branch(self._tr()):
            raise TrainingFinishedException("finished")
        if w.boom and rt.case("train_boom"):
            raise Boom("training failed")
        w.trace.append(("train", wrap(self.idx), w.phase.v, x) + tuple(args) + tuple(sorted(kw.items())))
        w.started.v = True

    def stop_training(self, *args, **kw):
        w = world()
        if not self._focus():
            rt.oblige("no other node is closed", False)
            raise PathEnd()
        if not P().branch(self._tr()):
            raise TrainingFinishedException("finished")
        st = w.started.v
        if not (st if isinstance(st, bool) else P().branch(term(st))):
            raise TrainingException("no data")
        if w.boom and rt.case("stop_boom"):
            raise Boom("closing failed")
        w.trace.append(("stop", wrap(self.idx), w.phase.v) + tuple(args) + tuple(sorted(kw.items())))
        w.phase.v = w.phase.v + 1
        w.started.v = False

    def execute(self, x, *args, **kw):
        w = world()
        if w.boom:
            if rt.case("exec_boom"):
                w.trace.append(("boom", wrap(self.idx)))
                raise Boom("execution failed")
        if w.record_exec:
            w.trace.append(("execute", wrap(self.idx), x) + tuple(args))
        return Data(f_exec(self.idx, x.t))

    def inverse(self, x, *args, **kw):
        w = world()
        if w.boom:
            if rt.case("inv_boom"):
                w.trace.append(("boom", wrap(self.idx)))
                raise Boom("inversion failed")
        if w.record_exec:
            w.trace.append(("inverse", wrap(self.idx), x) + tuple(args))
        return Data(f_inv(self.idx, x.t))

    def __call__(self, x, *a, **k):
        return self.execute(x, *a, **k)

    def vc_deepcopy(self):
        raise Unsupported("copy of an abstract node")


f_cnt = z3.Function("chunks", z3.IntSort(), z3.IntSort())
f_chunk = z3.Function("chunk", z3.IntSort(), z3.IntSort(), DSort)
f_arg = z3.Function("chunkarg", z3.IntSort(), z3.IntSort(), z3.IntSort(), DSort)


class Iterable(Sym):
    """A data iterable: pass p yields chunks(p) items (arrays, or tuples/lists with nargs arguments)."""
    def __init__(self, form, nargs):
        object.__setattr__(self, "form", form)
        object.__setattr__(self, "nargs", nargs)
        object.__setattr__(self, "passes", Cell(0))

    def elem(self, p, m):
        x = Data(f_chunk(p, m))
        args = tuple(Data(f_arg(p, m, z3.IntVal(a))) for a in range(self.nargs))
        if self.form == "array":
            return x
        if self.form == "tuple":
            return (x,) + args
        return VList([x] + list(args))

    def args(self, p, m):
        return tuple(Data(f_arg(p, m, z3.IntVal(a))) for a in range(self.nargs))

    def vc_segs(self):
        """starts a new pass"""
        p = num_term(self.passes.v)
        self.passes.v = self.passes.v + 1
        P().axiom(f_cnt(p) >= 0)
        return [Rep(f_cnt(p), lambda m: [Item(self.elem(p, m))])]

    def _vc_hasattr(self, n):
        return n == "__iter__"

    def _vc_isa(self, cls):
        return cls in (object,)

    def _vc_type(self):
        return Iterable


def node_list(n):
    return VList.of([span(num_term(n), lambda j: MNode(j))])


def make_world(v, n=None, focus=None):
    n = n if n is not None else v.fresh_int("n", 1)
    w = World(n, focus)
    P().globals["world"] = w
    return w


def make_flow(cls, n, **kw):
    f = cls.__new__(cls)
    track(f)
    f.flow = node_list(n)
    f.verbose = False
    f._crash_recovery = False
    f.__dict__.update(kw)
    return f
