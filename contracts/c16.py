"""C16: parallel training and execution.

The flow consists of n abstract nodes; node j has finished ph(j) phases and has rem(j) left.  A FlowNode trains, forks, joins and
closes the first node that is still in training (its own contract, C10).
"""
from .common import *


def _z(x):
    """Integer term of a number or term"""
    return x if z3.is_expr(x) else num_term(x)

PF = sys.modules["mdp.parallel.parallelflows"]
PN = sys.modules["mdp.parallel.parallelnodes"]
PH = sys.modules["mdp.parallel.parallelhinet"]
PC = sys.modules["mdp.parallel.parallelclassifiers"]
SCH = sys.modules["mdp.parallel.scheduling"]

MOD = "mdp.parallel.parallelflows:"
NOD = "mdp.parallel.parallelnodes:"
I_ = z3.IntSort()
f_forkable = z3.Function("forkable", I_, I_, z3.BoolSort())      # node, phase
f_count = z3.Function("n_chunks", I_, I_)
f_chunk = z3.Function("data_chunk", I_, I_, I_)


class Boom(Exception):
    pass


def W():
    return P().globals["flowworld"]


class Chunk(Ind):
    family = "data chunk"

    def _vc_type(self):
        return Chunk

    def _vc_isa(self, cls):
        return cls is object


class Result(Ind):
    family = "task result"


class Proxy(object):
    """a module with some names replaced"""
    def __init__(self, mod, **names):
        self.__dict__.update(names)
        self.__dict__["_mod"] = mod

    def __getattr__(self, n):
        return getattr(self._mod, n)


class Iterator(object):
    """data iterator of node j"""
    _vc_ghost = True

    def __init__(self, j, pos):
        self.j, self.pos = j, pos

    def __iter__(self):
        return self

    def __next__(self):
        n = f_count(self.j)
        if P().branch(_z(self.pos) < n):
            c = Chunk(f_chunk(self.j, _z(self.pos)))
            self.pos = _z(self.pos) + 1
            return c
        raise StopIteration

    next = __next__


class Chunks(Ind):
    """the data iterable of node j: n_chunks(j) chunks"""
    family = "data iterable"

    def __iter__(self):
        P().axiom(f_count(self.idx) >= 0)
        return Iterator(self.idx, z3.IntVal(0))

    def _vc_hasattr(self, n):
        return n == "__iter__"

    def _vc_isa(self, cls):
        return cls is object


class AllChunks(Chunks):
    def vc_segs(self):
        P().axiom(f_count(self.idx) >= 0)
        return [Rep(f_count(self.idx), lambda m: [Item(Chunk(f_chunk(self.idx, m)))])]


class GNode(Ind):
    family = "node"

    def is_training(self):
        return wrap(W().rem(self.idx) > 0)

    def get_current_train_phase(self):
        return wrap(W().ph(self.idx))

    def get_remaining_train_phase(self):
        return wrap(W().rem(self.idx))


class FNode(object):
    """FlowNode(Flow(nodes))"""
    _vc_ghost = True

    def __init__(self, flow=None):
        self.flow = flow

    def first(self):
        """the first node in training; the position of the flow must be at it"""
        w = W()
        i = _z(w.flow._i_train_node)
        j = w.v.fresh_int("earlier", 0).t
        rt.oblige("the phase of the current node is handled while no earlier node is in training",
                  z3.And(i >= 0, i < w.n, w.rem(i) > 0, z3.Implies(j < i, w.rem(j) == 0)))
        return i

    def fork(self):
        i = self.first()
        if P().branch(f_forkable(i, W().ph(i))):
            return FNode(self.flow)
        raise PN.NotForkableParallelException("can not be forked")

    def stop_training(self, *a, **k):
        w = W()
        i = self.first()
        w.event("stop", wrap(i))
        w.rem = upd(w.rem, i, w.rem(i) - 1)
        w.ph = upd(w.ph, i, w.ph(i) + 1)

    def join(self, result):
        W().joined.append(result)

    def use_execute_fork(self):
        return W().execute_fork


def upd(f, i, x):
    return lambda j: z3.If(j == i, x, f(j))


class CallableClass(object):
    """train_callable_class / execute_callable_class"""
    _vc_ghost = True

    def __call__(self, flownode, **kw):
        c = TaskCall(flownode, kw)
        W().made.append(c)
        return c


class TaskCall(object):
    _vc_ghost = True

    def __init__(self, flownode, kw):
        self.flownode, self.kw = flownode, kw

    def __call__(self, data):
        W().called.append(data)


class World(object):
    _vc_ghost = True

    def __init__(self, v, cls, training=True):
        P().globals["flowworld"] = self
        self.v = v
        self.n = v.fresh_int("n_nodes", 1).t
        fr, fp = z3.Function(P().fresh_name("rem"), I_, I_), z3.Function(P().fresh_name("phase"), I_, I_)
        j = z3.Int("rj")
        v.assume(z3.ForAll([j], z3.And(fr(j) >= 0, fp(j) >= 0)))
        self.rem0, self.ph0 = fr, fp
        self.rem, self.ph = (lambda j: fr(j)), (lambda j: fp(j))
        self.events, self.made = [], []
        self.joined, self.called = VList(), VList()
        self.execute_fork = False
        f = self.flow = cls.__new__(cls)
        track(f)
        f.flow = VList.of([span(self.n, lambda j: GNode(j))])
        self.flownode = FNode()
        self.callable_class = CallableClass()
        f.__dict__.update(verbose=False, _crash_recovery=False, _train_data_iterables=None, _train_data_iterator=None, _i_train_node=None, _flownode=None,
                          _exec_data_iterator=None, _next_task=None, _train_callable_class=None, _execute_callable_class=None)
        if training:
            f.__dict__.update(_train_data_iterables=VList.of([span(self.n, lambda j: Chunks(j))]), _flownode=self.flownode,
                              _train_callable_class=self.callable_class)

    def event(self, *e):
        self.events.append(e)

    def at(self, i, first=True):
        """the flow is at node i, all earlier nodes are trained"""
        j = z3.Int("aj")
        self.flow._i_train_node = wrap(i)
        self.v.assume(z3.And(i >= 0, i < self.n))
        self.v.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), self.rem0(j) == 0)))
        if first:
            self.v.assume(self.rem0(i) > 0)


class Hooks(PF.ParallelFlow):
    """callees by their contracts"""
    def _local_train_phase(self, data):
        w = W()
        if w.v.case("local training fails"):
            w.boom = True
            raise Boom("training")
        w.event("local", wrap(_z(self._i_train_node)), data)

    def _stop_training_hook(self):
        W().event("hook")

    def _post_stop_training_hook(self):
        W().event("post", self._i_train_node)


class Phases(object):
    """loop over the phases that are trained locally and the nodes that are trained"""
    def __init__(self, loop, locals_):
        self.w = w = W()
        self.objects = [w.flow]

    def check(self, when, k):
        w = self.w
        i = w.flow._i_train_node
        rt.oblige("%s: a position" % when, i is not None)
        i = _z(i)
        j = w.v.fresh_int("any", 0).t
        rt.oblige("%s: earlier nodes are trained" % when, z3.And(i >= 0, i <= w.n, z3.Implies(z3.And(j >= 0, j < i), w.rem(j) == 0)))
        rt.oblige("%s: later nodes are untouched" % when, z3.Implies(j > i, z3.And(w.rem(j) == w.rem0(j), w.ph(j) == w.ph0(j))))
        rt.oblige("%s: phases" % when, z3.And(w.rem(j) + w.ph(j) == w.rem0(j) + w.ph0(j), w.rem(j) >= 0))
        if when != "initially":
            self.iteration()
        rt.oblige("%s: nothing is prepared yet" % when, w.flow._next_task is None and not w.made)

    def iteration(self):
        w = self.w
        if not w.events:
            rt.oblige("only a trained node is skipped", self.rem(self.i) == 0)
            return
        i = wrap(self.i)
        rt.oblige_eq("a phase is trained locally and closed, with its hooks", VList(w.events),
                     [("local", i, Chunks(self.i)), ("hook",), ("stop", i), ("post", i)])
        rt.oblige("only a phase that can not be forked", z3.Not(f_forkable(self.i, self.ph(self.i))))

    def havoc(self, k):
        w = self.w
        i = self.i = w.v.fresh_int("i_train_node", 0).t
        r, p = w.v.fresh_int("remaining", 0).t, w.v.fresh_int("phase", 0).t
        w.v.assume(z3.And(i <= w.n, r + p == w.rem0(i) + w.ph0(i)))
        fr, fp = z3.Function(P().fresh_name("rem"), I_, I_), z3.Function(P().fresh_name("phase"), I_, I_)
        j = z3.Int("hj")
        w.v.assume(z3.ForAll([j], z3.And(fr(j) >= 0, fp(j) >= 0, fr(j) + fp(j) == w.rem0(j) + w.ph0(j))))
        w.v.assume(z3.ForAll([j], z3.And(z3.Implies(z3.And(j >= 0, j < i), fr(j) == 0), z3.Implies(j > i, z3.And(fr(j) == w.rem0(j), fp(j) == w.ph0(j))))))
        w.rem, w.ph = (lambda j: fr(j)), (lambda j: fp(j))
        self.rem, self.ph = w.rem, w.ph
        w.flow._i_train_node = wrap(i)
        w.events, w.made = [], []


def prepared(v, w, i, pass_=0):
    """the task for the first chunk of node i is the next one"""
    f = w.flow
    v.oblige("one callable is created", len(w.made) == 1)
    v.oblige("for the flow node", w.made[0].flownode is w.flownode)
    v.oblige("nodes may be purged", w.made[0].kw.get("purge_nodes", True) is True)
    v.oblige_eq("the first task is the first chunk with the callable", f._next_task, (Chunk(f_chunk(i, z3.IntVal(0))), w.made[0]))
    v.oblige("there is a first chunk", f_count(i) > 0)
    it = f._train_data_iterator
    v.oblige("the iterator is that of the node", isinstance(it, Iterator))
    v.oblige("it is behind the first chunk", z3.And(_z(it.j) == i, _z(it.pos) == 1))


@unit("ParallelFlow._next_train_phase", [MOD + "ParallelFlow._next_train_phase", MOD + "ParallelFlow._create_train_task"])
def next_phase(v):
    w = World(v, Hooks)
    w.boom = False
    i0 = v.fresh_int("start", 0).t
    j = z3.Int("sj")
    v.assume(i0 <= w.n)
    v.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i0), w.rem0(j) == 0)))
    w.flow._i_train_node = wrap(i0)
    rt.hoare = [Phases]
    kind, r = outcome(w.flow._next_train_phase)
    f = w.flow
    j = v.fresh_int("any", 0).t
    if w.boom:
        v.oblige("the error is reported", kind == "exc" and isinstance(r, Boom))
        v.oblige("a phase that was not trained is not closed", not w.events)
        return
    if kind == "exc":
        i = _z(f._i_train_node)
        v.oblige("empty data is refused", isinstance(r, mdp.FlowException))
        v.oblige("only empty data", z3.And(i < w.n, f_count(i) == 0, f_forkable(i, w.ph(i)), w.rem(i) > 0))
        v.oblige("no task", f._next_task is None and not w.events)
        return
    v.oblige("nothing is trained at the end", not w.events)
    if f._i_train_node is None:
        v.oblige("all nodes are trained", z3.Implies(j < w.n, w.rem(j) == 0))
        v.oblige("there is no task", f._next_task is None and not w.made)
        return
    i = _z(f._i_train_node)
    v.oblige("the first node in training", z3.And(i >= 0, i < w.n, w.rem(i) > 0, z3.Implies(j < i, w.rem(j) == 0)))
    v.oblige("its phase can be forked", f_forkable(i, w.ph(i)))
    prepared(v, w, i)


@unit("ParallelFlow._local_train_phase", [MOD + "ParallelFlow._local_train_phase"])
def local_phase(v):
    w = World(v, PF.ParallelFlow)
    i = v.fresh_int("i", 0).t
    w.at(i)
    kind, r = outcome(w.flow._local_train_phase, AllChunks(i))
    v.oblige("one callable", len(w.made) == 1 and w.made[0].flownode is w.flownode)
    v.oblige("the nodes are kept", w.made[0].kw.get("purge_nodes") is False)
    v.oblige_eq("each chunk is used once, in order", w.called, VList.of([Rep(f_count(i), lambda m: [Item(Chunk(f_chunk(i, m)))])]))
    if kind == "exc":
        v.oblige("empty data is refused", isinstance(r, mdp.FlowException))
        v.oblige("only empty data", f_count(i) == 0)
    else:
        v.oblige("empty data is not accepted", f_count(i) > 0)


# ---------------------------------------------------------------- states
def any_state(v, w):
    """idle, training or executing, with or without a task in the buffer"""
    f = w.flow
    mode = v.choose(["idle", "train", "exec"])
    if mode == "train":
        i = v.fresh_int("i", 0).t
        w.at(i)
        w.i = i
        f._train_data_iterator = Iterator(i, v.fresh_int("position", 1).t)
    else:
        f._flownode = None
    if mode == "exec":
        w.i = v.fresh_int("x", 0).t
        f._exec_data_iterator = Iterator(w.i, v.fresh_int("position", 1).t)
        f._flownode = w.flownode
    P().axiom(z3.BoolVal(True) if mode == "idle" else f_count(w.i) >= 1)
    w.task = (Chunk(v.fresh_int("chunk").t), TaskCall(w.flownode, {}) if v.case("first task") else None)
    f._next_task = w.task if mode != "idle" and v.case("tasks left") else None
    return mode


NAMES = ("_train_data_iterables", "_train_data_iterator", "_i_train_node", "_flownode", "_exec_data_iterator", "_next_task", "_train_callable_class", "_execute_callable_class")


def state(w):
    d = w.flow.__dict__
    it = tuple((d[n].j, d[n].pos) if isinstance(d[n], Iterator) else None for n in ("_train_data_iterator", "_exec_data_iterator"))
    return tuple(d[n] for n in NAMES), it


def unchanged(v, w, s):
    for n, a, b in zip(NAMES, state(w)[0], s[0]):
        v.oblige("%s is unchanged" % n, a is b or isinstance(a, Sym) and isinstance(b, Sym) and prove_bool(_z(a) == _z(b)))
    for a, b in zip(state(w)[1], s[1]):
        v.oblige("no data is consumed", (a is None) == (b is None) and (a is None or prove_bool(z3.And(_z(a[0]) == _z(b[0]), _z(a[1]) == _z(b[1])))))


@unit("ParallelFlow.get_task and the state properties", [MOD + "ParallelFlow.get_task", MOD + "ParallelFlow.is_parallel_training", MOD + "ParallelFlow.is_parallel_executing",
                                                         MOD + "ParallelFlow.task_available", MOD + "ParallelFlow._create_execute_task", MOD + "ParallelFlow._create_train_task"])
def get_task(v):
    w = World(v, PF.ParallelFlow)
    mode = any_state(v, w)
    f = w.flow
    v.oblige_eq("training", f.is_parallel_training, mode == "train")
    v.oblige_eq("executing", f.is_parallel_executing, mode == "exec")
    v.oblige_eq("task available", f.task_available, f._next_task is not None)
    s = state(w)
    kind, r = outcome(f.get_task)
    if s[0][NAMES.index("_next_task")] is None:
        v.oblige("no task: refused", kind == "exc" and isinstance(r, PF.NoTaskException))
        unchanged(v, w, s)
        return
    v.oblige("the task is given out", kind == "ok")
    v.oblige_eq("the task in the buffer", r, w.task)
    pos = [p for p in s[1] if p is not None][0][1]
    it = f._train_data_iterator if mode == "train" else f._exec_data_iterator
    if f._next_task is None:
        v.oblige("no more tasks only at the end of the data", _z(pos) >= f_count(w.i))
    else:
        v.oblige_eq("the next task is the next chunk, with the same callable", f._next_task, (Chunk(f_chunk(w.i, _z(pos))), None))
        v.oblige("there is one", _z(pos) < f_count(w.i))
        v.oblige("one chunk is consumed", _z(it.pos) == _z(pos) + 1)
    v.oblige_eq("still training", f.is_parallel_training, mode == "train")
    v.oblige_eq("still executing", f.is_parallel_executing, mode == "exec")


class Use(PF.ParallelFlow):
    def _stop_training_hook(self):
        W().event("hook")

    def _post_stop_training_hook(self):
        W().event("post", self._i_train_node)

    def _next_train_phase(self):
        W().event("next", self._i_train_node)


@unit("ParallelFlow.use_results", [MOD + "ParallelFlow.use_results"])
def use_results(v):
    w = World(v, Use)
    mode = any_state(v, w)
    f = w.flow
    m = v.fresh_int("n_results", 1).t
    s = state(w)
    if mode == "exec":
        w.execute_fork = v.case("execution forks")
        first = v.case("joined flow node")
        # the container gives the joined flow node with the first result
        results = VList.of([Item((Result(z3.IntVal(0)), Result(z3.IntVal(-1)) if first else None)), span(m - 1, lambda j: (Result(j + 1), None))])
    else:
        results = VList.of([span(m, lambda j: Result(j))])
    cat = []

    def concatenate(ys):
        cat.append(ys)
        return ("concatenated",)
    with Patched(PF, n=Proxy(PF.n, concatenate=concatenate)):
        kind, r = outcome(f.use_results, results)
    if mode == "idle" or s[0][NAMES.index("_next_task")] is not None:
        v.oblige("refused, there are no results to use", kind == "exc" and isinstance(r, PF.ParallelFlowException))
        unchanged(v, w, s)
        v.oblige("nothing is trained", not w.events)
        v.oblige_eq("nothing is joined", w.joined, VList())
        return
    v.oblige("accepted", kind == "ok")
    if mode == "train":
        i = w.i
        v.oblige_eq("each result is joined once", w.joined, VList.of([span(m, lambda j: Result(j))]))
        v.oblige_eq("the phase is closed, then the next one is looked for", VList(w.events[:-1]), [("hook",), ("stop", wrap(i)), ("post", wrap(i))])
        v.oblige("once", len(w.events) == 4 and w.events[-1][0] == "next")
        v.oblige("at the right node", _z(w.events[-1][1]) == z3.If(w.rem(i) > 0, i, i + 1))
        return
    v.oblige("the outputs are concatenated", r == ("concatenated",) and len(cat) == 1)
    v.oblige_eq("in order", cat[0], VList.of([span(m, lambda j: Result(j))]))
    v.oblige("the execution is finished", not f.is_parallel_executing and not f.task_available)
    if w.execute_fork:
        v.oblige_eq("the flow node that was used is joined", w.joined, [Result(z3.IntVal(-1))] if first else VList())
    else:
        v.oblige_eq("nothing to join", w.joined, VList())


class Setup(PF.ParallelFlow):
    def _train_check_iterables(self, data):
        W().event("check", data)
        return "checked iterables"

    def _next_train_phase(self):
        W().event("next", self._i_train_node)


def ghost_mdp(v, made):
    class GFlow(object):
        _vc_ghost = True

        def __init__(self, nodes):
            self.nodes = nodes

        def execute(self, x):
            W().event("executed", self.nodes, x)
            for j in W().closed_by_execute(self.nodes):
                W().rem = upd(W().rem, j, z3.IntVal(0))

    def flownode(flow):
        made.append(flow)
        return W().flownode
    return Patched(PF, mdp=Proxy(mdp, Flow=GFlow), FlowNode=flownode)


def refused(v, w, s, kind, r):
    v.oblige("refused", kind == "exc" and isinstance(r, PF.ParallelFlowException))
    unchanged(v, w, s)
    v.oblige("nothing is done", not w.events)


@unit("ParallelFlow.setup_parallel_training", [MOD + "ParallelFlow.setup_parallel_training"])
def setup_training(v):
    w = World(v, Setup)
    mode = any_state(v, w)
    s = state(w)
    made = []
    cc = CallableClass()
    with ghost_mdp(v, made):
        kind, r = outcome(w.flow.setup_parallel_training, "data", train_callable_class=cc)
    if mode != "idle":
        refused(v, w, s, kind, r)
        return
    f = w.flow
    v.oblige("accepted", kind == "ok")
    v.oblige("the data is checked, then the first phase is looked for, from the first node on", w.events == [("check", "data"), ("next", 0)])
    v.oblige("the checked data is used", f._train_data_iterables == "checked iterables")
    v.oblige("with the given callable", f._train_callable_class is cc)
    v.oblige("one flow node", len(made) == 1 and f._flownode is w.flownode)
    v.oblige_eq("of the nodes of the flow", made[0].nodes, VList.of([span(w.n, lambda j: GNode(j))]))


class XNode(GNode):
    """nodes of a flow that is executed: rem(j) phases are left, the open one may have been started"""
    @property
    def _train_phase_started(self):
        return wrap(W().started(self.idx))

    def _if_training_stop_training(self):
        w = W()
        rt.oblige("closing the phase of a node that was trained", z3.Or(w.started(self.idx), w.ph(self.idx) > 0))
        w.rem = upd(w.rem, self.idx, z3.IntVal(0))


class Closing(object):
    """loop over the nodes whose phases are closed before the execution"""
    def __init__(self, loop, locals_):
        self.w = w = W()
        self.objects = [w.flow]

    def check(self, when, k):
        w = self.w
        j = w.v.fresh_int("any", 0).t
        rt.oblige("%s: the phases of the first nodes are closed" % when, z3.Implies(j < k, w.rem(j) == 0))
        rt.oblige("%s: later nodes are untouched" % when, z3.Implies(j >= k, w.rem(j) == w.rem0(j)))
        for e in w.events:
            rt.oblige("%s: only executed for its first node in training" % when, e[0] == "executed")
            rt.oblige_eq("%s: the nodes up to it" % when, wrap(engine.segs_len(engine.seq_segs(e[1]))), wrap(k))
            rt.oblige_eq("%s: on the first chunk" % when, e[2], w.first)
        w.events = []

    def havoc(self, k):
        w = self.w
        w.events = []
        w.rem = lambda j: z3.If(z3.And(j >= 0, j < k), 0, w.rem0(j))


@unit("ParallelFlow.setup_parallel_execution", [MOD + "ParallelFlow.setup_parallel_execution"])
def setup_execution(v):
    w = World(v, PF.ParallelFlow, training=False)
    fs = z3.Function(P().fresh_name("started"), I_, z3.BoolSort())
    w.started = lambda j: fs(j)
    w.flow.flow = VList.of([span(w.n, lambda j: XNode(j))])
    mode = any_state(v, w)
    s = state(w)
    made = []
    cc = CallableClass()
    nodenr = opt_int("nodenr", 0)
    if nodenr is not None:
        v.assume(nodenr.t < w.n)
    d = v.fresh_int("data", 0).t
    last = w.n if nodenr is None else nodenr.t + 1
    w.first = Chunk(f_chunk(d, z3.IntVal(0)))

    def closed(nodes):
        # executing the first nodes of a flow trains and closes its last node, all before are closed already
        m = engine.segs_len(engine.seq_segs(nodes))
        rt.oblige("executed for a node that was never trained", z3.And(m >= 1, m <= w.n, w.rem(m - 1) > 0, z3.Not(w.started(m - 1)), w.ph(m - 1) <= 0))
        return [m - 1]
    w.closed_by_execute = closed
    rt.hoare = [Closing]
    with ghost_mdp(v, made):
        kind, r = outcome(w.flow.setup_parallel_execution, Chunks(d), nodenr=nodenr, execute_callable_class=cc)
    if mode != "idle":
        refused(v, w, s, kind, r)
        return
    f = w.flow
    if kind == "exc":
        v.oblige("empty data is refused", isinstance(r, mdp.FlowException))
        v.oblige("only empty data", f_count(d) == 0)
        v.oblige("nothing is underway", not (f.is_parallel_executing or f.is_parallel_training or f.task_available))
        return
    j = v.fresh_int("any", 0).t
    v.oblige("no node that is executed is in training", z3.Implies(j < last, w.rem(j) == 0))
    v.oblige("one flow node", len(made) == 1 and f._flownode is w.flownode)
    m = engine.segs_len(engine.seq_segs(made[0].nodes))
    v.oblige("of the nodes that are executed, at least", z3.And(m >= last, m <= w.n))
    v.oblige_eq("in the order of the flow", made[0].nodes, VList.of([span(m, lambda j: XNode(j))]))
    v.oblige("one callable", len(w.made) == 1 and w.made[0].flownode is w.flownode)
    got = w.made[0].kw.get("nodenr")
    v.oblige("which executes up to nodenr", (got is None) == (nodenr is None) and (nodenr is None or got is nodenr or prove_bool(_z(got) == nodenr.t)))
    v.oblige_eq("the first task is the first chunk with the callable", f._next_task, (w.first, w.made[0]))
    it = f._exec_data_iterator
    v.oblige("executing", f.is_parallel_executing and not f.is_parallel_training)
    v.oblige("the iterator is behind the first chunk", z3.And(_z(it.j) == d, _z(it.pos) == 1))


# ---------------------------------------------------------------- train and execute
def inner(cls, name):
    """the function below the extension decorator"""
    f = cls.__dict__[name]
    for c in f.__closure__ or ():
        g = c.cell_contents
        if callable(g) and getattr(g, "__name__", None) == name:
            return inner_of(g, name)
    return f


def inner_of(g, name):
    for c in getattr(g, "__closure__", None) or ():
        h = c.cell_contents
        if callable(h) and getattr(h, "__name__", None) == name:
            return h
    return g


class GScheduler(SCH.Scheduler):
    """a scheduler: executes each task and gives out the results (C15)"""
    _vc_ghost = True

    def __init__(self, container):
        self.__dict__["result_container"] = container

    def add_task(self, data, task_callable=None):
        w = W()
        if w.v.case("add_task fails"):
            w.failed.append(Boom("task"))
            raise w.failed[-1]
        w.event("add", data, task_callable)

    def get_results(self):
        w = W()
        if w.failed:
            w.event("dropped")
            return []
        if w.v.case("get_results fails"):
            w.failed.append(Boom("results"))
            raise w.failed[-1]
        w.event("get_results")
        r = w.results = Result(P().fresh("results", I_))
        return [r]

    def shutdown(self):
        W().event("shutdown")


class Run(PF.ParallelFlow):
    """callees by their contracts, as proved above"""
    def setup_parallel_training(self, data, train_callable_class=None, **kw):
        w = W()
        if w.v.case("setup fails"):
            if w.v.case("after it began"):
                self._i_train_node = 0
                w.begin(tasks=False)
            w.failed.append(Boom("setup"))
            raise w.failed[-1]
        w.event("setup", data, train_callable_class, kw)
        w.begin()

    setup_parallel_execution = None

    def get_task(self):
        w = W()
        rt.oblige("a task is only asked for if there is one", self._next_task is not None)
        if w.v.case("data iterator fails"):
            w.failed.append(Boom("data"))
            raise w.failed[-1]
        t = (Chunk(P().fresh("chunk", I_)), None)
        w.event("task", t)
        w.tasks = w.tasks - 1
        w.buffer()
        return t

    def use_results(self, results):
        w = W()
        rt.oblige("results are used after all tasks", self._next_task is None)
        if w.v.case("use_results fails"):
            w.failed.append(Boom("use"))
            raise w.failed[-1]
        w.event("use", results)
        if w.training:
            w.begin()
        else:
            self._exec_data_iterator = None
            return "concatenated"


def setup_exec(self, iterable, nodenr=None, execute_callable_class=None):
    w = W()
    if w.v.case("setup fails"):
        w.failed.append(Boom("setup"))
        raise w.failed[-1]
    w.event("setup", iterable, nodenr, execute_callable_class)
    self._exec_data_iterator = "iterator"
    w.begin()


Run.setup_parallel_execution = setup_exec


class RunWorld(World):
    def __init__(self, v, training):
        World.__init__(self, v, Run, training=False)
        self.training = training
        self.failed = []
        self.tasks = z3.IntVal(0)
        self.results = None

    def begin(self, tasks=True):
        """the next phase: some tasks, or all is trained"""
        f = self.flow
        if self.training and tasks and self.v.case("all trained"):
            f._i_train_node = None
            self.tasks = z3.IntVal(0)
            f._next_task = None
            return
        if self.training:
            f._i_train_node = wrap(self.v.fresh_int("i_train_node", 0).t)
            f._train_data_iterator = "iterator"
            f._train_data_iterables = "iterables"
        self.tasks = self.v.fresh_int("tasks", 1).t
        self.buffer()

    def buffer(self):
        self.flow._next_task = ("next",) if P().branch(self.tasks > 0) else None


class Tasks(object):
    """while task_available: get a task, add it"""
    def __init__(self, loop, locals_):
        self.w = W()
        self.objects = [self.w.flow]

    def check(self, when, k):
        w = self.w
        rt.oblige("%s: the buffer" % when, (w.flow._next_task is not None) == prove_bool(w.tasks > 0))
        if when != "initially":
            e = w.events
            rt.oblige("each task is added once", len(e) == 2 and e[0][0] == "task" and e[1][0] == "add")
            rt.oblige_eq("as it is", tuple(e[1][1:]), tuple(e[0][1]))
        else:
            self.before = w.events

    def havoc(self, k):
        w = self.w
        w.before_tasks = w.events
        w.events = []
        w.tasks = w.v.fresh_int("tasks", 0).t
        w.buffer()


class TrainPhases(object):
    """while is_parallel_training"""
    def __init__(self, loop, locals_):
        self.w = W()
        self.objects = [self.w.flow]

    def check(self, when, k):
        w = self.w
        f = w.flow
        rt.oblige("%s: tasks only in training" % when, f._i_train_node is not None or f._next_task is None)
        if when != "initially":
            e = w.events
            rt.oblige("the results of the phase are used once", [x[0] for x in e] == ["get_results", "use"])
            rt.oblige_eq("all of them", e[1][1], [w.results])

    def havoc(self, k):
        w = self.w
        w.events = []
        w.begin()

    def check_locals(self, when, l):
        if when == "initially":
            self.locals = l
        else:
            for n in ("scheduler", "schedulers"):
                rt.oblige("the scheduler stays the same", l.get(n) is self.locals.get(n))

    def havoc_locals(self, l):
        return {n: l[n] for n in ("scheduler", "schedulers") if n in l}


def outer_once(loop, locals_):
    w = W()
    if w.training and not w.__dict__.get("outer"):
        w.outer = True
        return TrainPhases(loop, locals_)
    return Tasks(loop, locals_)


def over(v, f):
    v.oblige("nothing is underway any more", f._i_train_node is None and f._next_task is None and f._exec_data_iterator is None)
    v.oblige("the data is released", f._train_data_iterator is None and f._train_data_iterables is None)


@unit("ParallelFlow.train", [MOD + "ParallelFlow.train", MOD + "_drop_results"])
def train(v):
    w = RunWorld(v, True)
    f = w.flow
    mode = any_state(v, w)
    s = state(w)
    own = v.choose(["none", "train"])
    c0 = PF.TrainResultContainer() if own == "train" else SCH.ListResultContainer()
    sch = GScheduler(c0)
    over_ = v.case("overwrite")
    cc = CallableClass() if v.case("own callable class") else None
    rt.hoare = [outer_once]
    kind, r = outcome(inner(PF.ParallelFlow, "train"), f, "data", scheduler=sch, train_callable_class=cc, overwrite_result_container=over_, further="argument")
    if mode != "idle":
        refused(v, w, s, kind, r)
        v.oblige("the scheduler is untouched", sch.result_container is c0)
        return
    over(v, f)
    c = sch.result_container
    if w.failed:
        v.oblige("the error is reported", kind == "exc" and r is w.failed[0])
        v.oblige("no result is left in the scheduler", w.events[-1:] == [("dropped",)])
        return
    v.oblige("trained", kind == "ok" and r is None)
    v.oblige("results are joined as they come in", isinstance(c, PF.TrainResultContainer) if over_ else c is c0)
    v.oblige("a joining container is kept", c is c0 or own != "train")
    v.oblige("no shutdown of the user's scheduler", ("shutdown",) not in w.events)


@unit("ParallelFlow.execute", [MOD + "ParallelFlow.execute", MOD + "_drop_results"])
def execute(v):
    w = RunWorld(v, False)
    f = w.flow
    mode = any_state(v, w)
    s = state(w)
    own = v.choose(["none", "exec"])
    c0 = PF.ExecuteResultContainer() if own == "exec" else SCH.ListResultContainer()
    sch = GScheduler(c0)
    over_ = v.case("overwrite")
    cc = CallableClass() if v.case("own callable class") else None
    nodenr = v.choose([None, 0, 3])
    rt.hoare = [outer_once]
    kind, r = outcome(inner(PF.ParallelFlow, "execute"), f, "data", nodenr=nodenr, scheduler=sch, execute_callable_class=cc, overwrite_result_container=over_)
    if mode != "idle":
        refused(v, w, s, kind, r)
        v.oblige("the scheduler is untouched", sch.result_container is c0)
        return
    v.oblige("nothing is underway any more", f._i_train_node is None and f._next_task is None and f._exec_data_iterator is None)
    c = sch.result_container
    if w.failed:
        v.oblige("the error is reported", kind == "exc" and r is w.failed[0])
        v.oblige("no result is left in the scheduler", w.events[-1:] == [("dropped",)])
        return
    v.oblige("the concatenated result", kind == "ok" and r == "concatenated")
    e = w.before_tasks
    v.oblige("set up once, for the data and the nodes", len(e) == 1 and e[0][:3] == ("setup", "data", nodenr)
             and (e[0][3] is cc if cc is not None else e[0][3] is PF.FlowExecuteCallable))
    v.oblige("all results are used", [x[0] for x in w.events] == ["get_results", "use"])
    v.oblige_eq("these results", w.events[1][1], [w.results])
    v.oblige("results keep the order of the chunks", isinstance(c, PF.ExecuteResultContainer) if over_ else c is c0)


@unit("ParallelFlow.train and execute [no scheduler]", [MOD + "ParallelFlow.train", MOD + "ParallelFlow.execute"])
def no_scheduler(v):
    w = RunWorld(v, True)
    f = w.flow
    mode = any_state(v, w)
    s = state(w)
    calls = []

    def plain(name):
        def g(self, *a, **k):
            calls.append((name, a, k))
            return name
        return g
    cc = CallableClass() if v.case("own callable class") else None
    with Patched(mdp.Flow, train=plain("train"), execute=plain("execute")):
        if v.case("train"):
            kind, r = outcome(inner(PF.ParallelFlow, "train"), f, "data", train_callable_class=cc, extra=1)
            want = [("train", ("data",), {"extra": 1})]
        else:
            nodenr = v.choose([None, 2])
            kind, r = outcome(inner(PF.ParallelFlow, "execute"), f, "data", nodenr, execute_callable_class=cc)
            want = [("execute", ("data", nodenr), {})]
    if mode != "idle" or cc is not None:
        refused(v, w, s, kind, r)
        v.oblige("nothing is called", calls == [])
        return
    v.oblige("as a normal flow", kind == "ok" and calls == want)


# ---------------------------------------------------------------- callables and containers
class GFN(object):
    """a flow node in a task"""
    _vc_ghost = True

    def __init__(self, w):
        self.w, self.trained, self.forks = w, [], []
        self._flow = self

    def train(self, *a):
        self.trained.append(a)

    def fork(self):
        f = GFN(self.w)
        self.forks.append(f)
        return f

    def execute(self, x, nodenr=None):
        self.w.executed.append((self, x, nodenr))
        return ("y", x, nodenr)

    def use_execute_fork(self):
        return self.w.use_fork


class TaskWorld(object):
    _vc_ghost = True

    def __init__(self, v):
        self.v = v
        self.executed, self.purged = [], []
        self.use_fork = False


@unit("FlowTrainCallable", [MOD + "FlowTrainCallable.__init__", MOD + "FlowTrainCallable.__call__", MOD + "FlowTrainCallable.fork", MOD + "FlowTaskCallable.__init__"])
def train_callable(v):
    w = TaskWorld(v)
    fn = GFN(w)
    purge = v.case("purge")
    with Patched(PF, _purge_flownode=lambda f: w.purged.append((f, list(f.trained)))):
        c = PF.FlowTrainCallable(fn, purge_nodes=purge)
        form = v.choose(["array", "tuple", "list", "other"])
        x, l = new_data("x"), new_data("labels")
        data = {"array": x, "tuple": (x, l), "list": [x, l], "other": Chunk(v.fresh_int("o").t)}[form]
        forked = v.case("forked")
        t = c
        if forked:
            t = c.fork()
            v.oblige("a callable of the same class with a fork of the flow node", type(t) is type(c) and len(fn.forks) == 1 and t._flownode is fn.forks[0])
        own = fn.forks[0] if forked else fn
        r = t(data)
    v.oblige("the flow node itself is returned", r is own)
    want = (x, l) if form in ("tuple", "list") else (data,)
    v.oblige("trained once", len(own.trained) == 1 and len(own.trained[0]) == len(want))
    for a, b in zip(own.trained[0], want):
        v.oblige_eq("with the data", a, b)
    v.oblige("the original is not touched", not forked or not fn.trained)
    v.oblige("purged after the training, if wanted", w.purged == ([(own, list(own.trained))] if purge else []))


@unit("FlowExecuteCallable", [MOD + "FlowExecuteCallable.__init__", MOD + "FlowExecuteCallable.__call__", MOD + "FlowExecuteCallable.fork"])
def execute_callable(v):
    w = TaskWorld(v)
    w.use_fork = v.case("execute fork")
    fn = GFN(w)
    purge = v.case("purge")
    nodenr = v.choose([None, 0, 2])
    with Patched(PF, _purge_flownode=lambda f: w.purged.append((f, len(w.executed)))):
        c = PF.FlowExecuteCallable(fn, nodenr=nodenr, purge_nodes=purge)
        forked = v.case("forked")
        t = c
        if forked:
            t = c.fork()
            v.oblige("a callable of the same class with a fork of the flow node", type(t) is type(c) and len(fn.forks) == 1 and t._flownode is fn.forks[0])
        own = fn.forks[0] if forked else fn
        x = Chunk(v.fresh_int("x").t)
        y, f = t(x)
    v.oblige("executed once, up to nodenr", len(w.executed) == 1 and w.executed[0][0] is own and w.executed[0][1] is x and w.executed[0][2] == nodenr)
    v.oblige("the result", y[0] == "y" and y[1] is x)
    v.oblige("the flow node is returned exactly if it is needed", f is (own if w.use_fork else None))
    v.oblige("purged after the execution", w.purged == ([(own, 1)] if purge and w.use_fork else []))


class JFN(object):
    """a flow node that is joined"""
    _vc_ghost = True

    def __init__(self, name):
        self.name, self.parts = name, [name]

    def join(self, other):
        self.parts += other.parts


@unit("TrainResultContainer", [MOD + "TrainResultContainer.__init__", MOD + "TrainResultContainer.add_result", MOD + "TrainResultContainer.get_results"])
def train_container(v):
    c = PF.TrainResultContainer()
    for rnd in range(2):
        n = v.choose([1, 2, 3])
        for k in range(n):
            c.add_result(JFN((rnd, k)), v.fresh_int("index"))
        r = c.get_results()
        v.oblige("one joined result", len(r) == 1)
        v.oblige("each result once, nothing from before", sorted(r[0].parts) == [(rnd, k) for k in range(n)])


@unit("ExecuteResultContainer", [MOD + "ExecuteResultContainer.__init__", MOD + "ExecuteResultContainer.add_result", MOD + "ExecuteResultContainer.get_results"])
def execute_container(v):
    c = PF.ExecuteResultContainer()
    for rnd in range(2):
        n = v.choose([1, 2, 3])
        perm = v.choose([[0, 1, 2], [2, 0, 1], [1, 2, 0]])
        forks = v.case("forks")
        for k in [p for p in perm if p < n]:
            c.add_result((("y", rnd, k), JFN((rnd, k)) if forks else None), 10 * rnd + k)
        r = c.get_results()
        v.oblige("results in the order of the tasks", [a for a, _ in r] == [("y", rnd, k) for k in range(n)])
        fs = [b for _, b in r if b is not None]
        if forks:
            v.oblige("each flow node is joined once, none from before", len(fs) == 1 and sorted(fs[0].parts) == [(rnd, k) for k in range(n)])
        else:
            v.oblige("no flow node", fs == [])


# ---------------------------------------------------------------- statistics of the parallel nodes
class Cov(object):
    """a CovarianceMatrix: what it has accumulated"""
    _vc_ghost = True

    def __init__(self, v, name, empty=False):
        self._dtype = v.fresh_int(name + "_dtype")
        for n in ("_cov_mtx", "_avg", "_tlen"):
            self.__dict__[n] = None if empty and n != "_tlen" else v.fresh_real(name + n)
        if empty:
            self._tlen = 0

    def total(self):
        return tuple(0 if self.__dict__[n] is None else self.__dict__[n] for n in ("_cov_mtx", "_avg", "_tlen"))


def plus(a, b):
    return tuple(x + y for x, y in zip(a, b))


@unit("_join_covariance", [NOD + "ParallelExtensionNode._join_covariance"])
def join_cov(v):
    a, b = Cov(v, "a"), Cov(v, "b")
    want = plus(a.total(), b.total())
    PN.ParallelExtensionNode._join_covariance(a, b)
    v.oblige_eq("sums are added", a.total(), want)


def bare(cls, **d):
    n = cls.__new__(cls)
    n.__dict__.update(_dtype=None, **d)
    return n


@unit("ParallelPCANode._join, ParallelSFANode._join", [NOD + "ParallelPCANode._join", NOD + "ParallelSFANode._join"])
def join_pca(v):
    sfa = v.case("SFA")
    empty = v.case("the node itself has seen no data")
    names = ("_cov_mtx", "_dcov_mtx") if sfa else ("_cov_mtx",)
    cls = PN.ParallelSFANode if sfa else PN.ParallelPCANode
    dts = []

    class Node(cls):
        def set_dtype(self, t):
            dts.append(t)
    a = bare(Node, **{n: Cov(v, "a" + n, empty) for n in names})
    b = bare(Node, **{n: Cov(v, "b" + n) for n in names})
    want = [plus(getattr(a, n).total(), getattr(b, n).total()) for n in names]
    a._join(b)
    for n, w in zip(names, want):
        v.oblige_eq("%s has the sums of both" % n, getattr(a, n).total(), w)
    v.oblige("different statistics stay different", not sfa or a._cov_mtx is not a._dcov_mtx)


@unit("ParallelNIPALSNode._join", [NOD + "ParallelNIPALSNode._join"])
def join_nipals(v):
    n, m = v.fresh_int("n", 0).t, v.fresh_int("m", 0).t
    fa, fb = z3.Function(P().fresh_name("a"), I_, I_), z3.Function(P().fresh_name("b"), I_, I_)
    la, lb = VList.of([span(n, lambda j: Chunk(fa(j)))]), VList.of([span(m, lambda j: Chunk(fb(j)))])
    t, u = v.fresh_int("t", 0), v.fresh_int("u", 0)
    a, b = bare(PN.ParallelNIPALSNode, data=la, tlen=t), bare(PN.ParallelNIPALSNode, data=lb, tlen=u)
    a._join(b)
    v.oblige_eq("all data", a.data, VList.of([span(n, lambda j: Chunk(fa(j))), span(m, lambda j: Chunk(fb(j)))]))
    v.oblige_eq("all samples", a.tlen, t + u)


@unit("ParallelHistogramNode._join", [NOD + "ParallelHistogramNode._join"])
def join_hist(v):
    cat = []

    def concatenate(l, *a):
        cat.append(list(l))
        return "both"
    own, forked = v.case("own data"), v.case("forked data")
    a, b = bare(PN.ParallelHistogramNode, data_hist=Chunk(z3.IntVal(0)) if own else None), bare(PN.ParallelHistogramNode, data_hist=Chunk(z3.IntVal(1)) if forked else None)
    ha, hb = a.data_hist, b.data_hist
    with Patched(PN, numx=Proxy(PN.numx, concatenate=concatenate)):
        a._join(b)
    if own and forked:
        v.oblige("both", a.data_hist == "both" and len(cat) == 1 and len(cat[0]) == 2 and {id(x) for x in cat[0]} == {id(ha), id(hb)})
    else:
        v.oblige("all data there is", a.data_hist is (ha if own else hb) and not cat)


class Key(Ind):
    family = "label"


class Dict(object):
    """label -> sum: has(q), and the sums val[0](q), ..."""
    _vc_ghost = True

    def __init__(self, v, name, parts=1, empty=False):
        fh = z3.Function(P().fresh_name(name + "_has"), I_, z3.BoolSort())
        self.n = v.fresh_int(name + "_size", 0).t
        self.pos, self.key = z3.Function(P().fresh_name("pos"), I_, I_), z3.Function(P().fresh_name("key"), I_, I_)
        i = z3.Int("ki")
        v.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(fh(self.key(i)), self.pos(self.key(i)) == i))))
        v.assume(z3.ForAll([i], fh(i) == z3.And(self.pos(i) >= 0, self.pos(i) < self.n, self.key(self.pos(i)) == i)))
        self.has = lambda q: fh(q)
        fs = [z3.Function(P().fresh_name(name + "_val"), I_, z3.RealSort()) for _ in range(parts)]
        self.val = [(lambda f: lambda q: f(q))(f) for f in fs]
        self.scalar = parts == 1

    def vc_contains(self, q):
        return wrap(self.has(q.idx))

    def __contains__(self, q):
        return P().branch(self.has(q.idx))

    def __bool__(self):
        return P().branch(self.n > 0)

    def vc_segs(self):
        return [Rep(self.n, lambda i: [Item(Key(self.key(i)))])]

    def keys(self):
        return VIter(self.vc_segs())

    def items(self):
        return VIter([Rep(self.n, lambda i: [Item((Key(self.key(i)), self.at(self.key(i))))])])

    def at(self, q):
        return wrap(self.val[0](q)) if self.scalar else Part(self, q)

    def __getitem__(self, q):
        rt.oblige("the label is there", self.has(q.idx))
        return self.at(q.idx)

    def __setitem__(self, q, x):
        q = q.idx
        self.has = upd(self.has, q, z3.BoolVal(True))
        xs = [x] if self.scalar else [getattr(x, n) for n in Part.names]
        self.val = [(lambda f, t: upd(f, q, t))(f, t if z3.is_expr(t) else z3.ToReal(num_term(t)) if z3.is_int(num_term(t)) else num_term(t)) for f, t in zip(self.val, xs)]


def part(n):
    k = Part.names.index(n)

    def get(self):
        return wrap(self.d.val[k](self.q))

    def put(self, x):
        self.d.val = self.d.val[:k] + [upd(self.d.val[k], self.q, num_term(x))] + self.d.val[k + 1:]
    return property(get, put)


class Part(object):
    """the CovarianceMatrix under one label"""
    _vc_ghost = True
    names = ("_cov_mtx", "_avg", "_tlen")

    def __init__(self, d, q):
        self.d, self.q = d, q


for _n in Part.names:
    setattr(Part, _n, part(_n))


class Labels(object):
    """loop over the labels of the fork: those of the first k are joined"""
    def __init__(self, loop, locals_):
        self.pairs = P().globals["pairs"]
        self.objects = []

    def check(self, when, k):
        q = rt.fresh_int("some label").t
        for own, forked, has0, val0 in self.pairs:
            done = z3.And(forked.has(q), forked.pos(q) < k)
            rt.oblige("%s: labels" % when, own.has(q) == z3.Or(has0(q), done))
            for f, f0, g in zip(own.val, val0, forked.val):
                rt.oblige("%s: sums" % when, z3.Implies(own.has(q), f(q) == z3.If(has0(q), f0(q), 0) + z3.If(done, g(q), 0)))

    def havoc(self, k):
        for own, forked, has0, val0 in self.pairs:
            own.has = (lambda has0, forked: lambda q: z3.Or(has0(q), z3.And(forked.has(q), forked.pos(q) < k)))(has0, forked)
            own.val = [(lambda f0, g, has0, forked: lambda q: z3.If(has0(q), f0(q), 0) + z3.If(z3.And(forked.has(q), forked.pos(q) < k), g(q), 0))(f0, g, has0, forked)
                       for f0, g in zip(val0, forked.val)]


def labelled(v, cls, names, parts=1, **attrs):
    """join of statistics per label"""
    a = bare(cls, **{n: Dict(v, "own", parts) for n in names})
    b = bare(cls, **{n: Dict(v, "fork", parts) for n in names})
    for x, y in ((a, b), (b, a)):
        for n in names[1:]:
            # the attributes have the same labels
            d, e = getattr(x, names[0]), getattr(x, n)
            e.has, e.n, e.pos, e.key = d.has, d.n, d.pos, d.key
    for x in (a, b):
        x.__dict__.update(attrs)
    pairs = P().globals["pairs"] = [(getattr(a, n), getattr(b, n), getattr(a, n).has, list(getattr(a, n).val)) for n in names]
    rt.hoare = [Labels]
    q = v.fresh_int("label").t
    hb = [(getattr(b, n).has(q), [f(q) for f in getattr(b, n).val]) for n in names]
    a._join(b)
    for n, (own, forked, has0, val0), (h, vals) in zip(names, pairs, hb):
        d = getattr(a, n)
        v.oblige("%s: every label of one of them" % n, d.has(q) == z3.Or(has0(q), h))
        for f, f0, g in zip(d.val, val0, vals):
            v.oblige("%s: the sum of both" % n, z3.Implies(d.has(q), f(q) == z3.If(has0(q), f0(q), 0) + z3.If(h, g, 0)))


class NoDtype(object):
    def set_dtype(self, t):
        pass


class Gauss(NoDtype, PC.ParallelGaussianClassifier):
    pass


class Fda(NoDtype, PN.ParallelFDANode):
    def get_current_train_phase(self):
        return self.phase


@unit("ParallelGaussianClassifier._join", ["mdp.parallel.parallelclassifiers:ParallelGaussianClassifier._join", NOD + "ParallelExtensionNode._join_covariance"])
def join_gauss(v):
    labelled(v, Gauss, ["_cov_objs"], 3)


@unit("ParallelNearestMeanClassifier._join", ["mdp.parallel.parallelclassifiers:ParallelNearestMeanClassifier._join"])
def join_mean(v):
    labelled(v, PC.ParallelNearestMeanClassifier, ["label_means", "n_label_samples"])


@unit("ParallelKNNClassifier._join", ["mdp.parallel.parallelclassifiers:ParallelKNNClassifier._join"])
def join_knn(v):
    labelled(v, PC.ParallelKNNClassifier, ["_label_samples"])


@unit("ParallelFDANode._join [means]", [NOD + "ParallelFDANode._join"])
def join_fda(v):
    labelled(v, Fda, ["means", "tlens"], phase=0)


@unit("ParallelFDANode._join [scatter]", [NOD + "ParallelFDANode._join"])
def join_fda1(v):
    empty = v.case("the node itself has seen no data")
    a = bare(Fda, phase=1, _S_W=None if empty else v.fresh_real("sw"), _allcov=Cov(v, "a", empty))
    b = bare(Fda, phase=v.choose([0, 1]), _S_W=v.fresh_real("swb"), _allcov=Cov(v, "b"))
    want = plus(a._allcov.total(), b._allcov.total()), (0 if empty else a._S_W) + b._S_W
    kind, r = outcome(a._join, b)
    if b.phase == 0:
        v.oblige("a fork of another phase is refused", kind == "exc" and isinstance(r, mdp.NodeException))
        return
    v.oblige("joined", kind == "ok")
    v.oblige_eq("all data", (a._allcov.total(), a._S_W), want)


# ---------------------------------------------------------------- containers of nodes
f_tr = z3.Function("training", I_, z3.BoolSort())
f_xf = z3.Function("execute_fork", I_, z3.BoolSort())


class Inner(Ind):
    """node j of a flow node or layer"""
    family = "inner node"

    def is_training(self):
        return wrap(f_tr(self.idx))

    def use_execute_fork(self):
        return wrap(f_xf(self.idx))

    def fork(self):
        return Forked(self.idx)

    def join(self, other):
        W().joins.append((wrap(self.idx), other))


class Forked(Ind):
    """a fork of node j: the same phase, the same kind"""
    family = "forked node"

    def is_training(self):
        return wrap(f_tr(self.idx))

    def use_execute_fork(self):
        return wrap(f_xf(self.idx))


class Hinet(object):
    _vc_ghost = True

    def __init__(self, v):
        P().globals["flowworld"] = self
        self.v = v
        self.n = v.fresh_int("n_nodes", 1).t
        self.joins = VList()


class FlowOf(object):
    _vc_ghost = True

    def __init__(self, nodes):
        self.flow = nodes

    def vc_segs(self):
        return engine.seq_segs(self.flow)

    def __getitem__(self, i):
        return self.flow[i]

    def vc_len(self):
        return wrap(engine.segs_len(engine.seq_segs(self.flow)))


class NewFlowNode(PH.ParallelFlowNode):
    def __init__(self, flow, *a, **k):
        self.__dict__.update(_flow=flow, more=(a, k))


class NewLayer(PH.ParallelLayer):
    def __init__(self, nodes, *a, **k):
        self.__dict__.update(nodes=nodes, more=(a, k))


class NewClone(PH.ParallelCloneLayer):
    def __init__(self, node, n_nodes=1, *a, **k):
        self.__dict__.update(node=node, nodes=VTuple([span(n_nodes.t if is_sym(n_nodes) else z3.IntVal(n_nodes), lambda j: node)]), more=(a, k))


def first_training(v, n):
    """the first node in training (n if there is none)"""
    t = v.fresh_int("first_training", 0).t
    j = z3.Int("tj")
    v.assume(t <= n)
    v.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t), z3.Not(f_tr(j)))))
    v.assume(z3.Implies(t < n, f_tr(t)))

    def found(k, x):
        if not isinstance(x, (bool, SBool)):
            raise CannotMerge()
        return wrap(_z(k) > t)
    v.candidates += [("the training node was found", found)]
    return t


HIN = "mdp.parallel.parallelhinet:"


@unit("ParallelFlowNode", [HIN + "ParallelFlowNode._fork", HIN + "ParallelFlowNode._join"])
def flow_node(v):
    w = Hinet(v)
    t = first_training(v, w.n)
    a = NewFlowNode(FlowOf(VList.of([span(w.n, lambda j: Inner(j))])))
    need = lambda j: z3.Or(j == t, f_xf(j))
    forked = lambda j: [Guard(need(j), [Item(Forked(j))]), Guard(z3.Not(need(j)), [Item(Inner(j))])]
    b = a._fork()
    v.oblige("a node of the same class", type(b) is type(a) and b.more == ((), {}) and type(b._flow) is type(a._flow) and b is not a)
    v.oblige_eq("the training node and the nodes that need it are forked, the others are shared", b._flow.flow, VList.of([Rep(w.n, forked)]))
    v.oblige_eq("nothing is joined", w.joins, VList())
    # the fork as it comes back: element j is the fork of node j, or node j itself (with the same phase and kind)
    c = NewFlowNode(FlowOf(VList.of([span(w.n, lambda j: Forked(j))])))
    a._join(c)
    v.oblige_eq("exactly these are joined, each with its own fork", w.joins, VList.of([Rep(w.n, lambda j: [Guard(need(j), [Item((wrap(j), Forked(j)))])])]))


@unit("ParallelLayer", [HIN + "ParallelLayer._fork", HIN + "ParallelLayer._join"])
def layer(v):
    w = Hinet(v)
    a = NewLayer(VList.of([span(w.n, lambda j: Inner(j))]))
    need = lambda j: z3.Or(f_tr(j), f_xf(j))
    forked = lambda j: [Guard(need(j), [Item(Forked(j))]), Guard(z3.Not(need(j)), [Item(Inner(j))])]
    b = a._fork()
    v.oblige("a layer of the same class", type(b) is type(a) and b.more == ((), {}) and b is not a)
    v.oblige_eq("nodes in training and nodes that need it are forked, the others are shared", b.nodes, VList.of([Rep(w.n, forked)]))
    c = NewLayer(VList.of([span(w.n, lambda j: Forked(j))]))
    a._join(c)
    v.oblige_eq("exactly these are joined, each with its own fork", w.joins, VList.of([Rep(w.n, lambda j: [Guard(need(j), [Item((wrap(j), Forked(j)))])])]))


@unit("ParallelCloneLayer", [HIN + "ParallelCloneLayer._fork", HIN + "ParallelCloneLayer._join", HIN + "ParallelCloneLayer.use_execute_fork"])
def clone_layer(v):
    w = Hinet(v)
    a = NewClone(Inner(z3.IntVal(0)), n_nodes=wrap(w.n))
    b = a._fork()
    v.oblige("a layer of the same class", type(b) is type(a) and b is not a)
    v.oblige_eq("of a fork", b.node, Forked(z3.IntVal(0)))
    v.oblige_eq("of the same size", wrap(engine.segs_len(engine.seq_segs(b.nodes))), wrap(w.n))
    a._join(b)
    v.oblige_eq("the node is joined once", w.joins, [(0, Forked(z3.IntVal(0)))])
    v.oblige_eq("needs what its node needs", a.use_execute_fork(), wrap(f_xf(z3.IntVal(0))))


@unit("use_execute_fork of containers", [HIN + "ParallelFlowNode.use_execute_fork", HIN + "ParallelLayer.use_execute_fork", NOD + "ParallelExtensionNode.use_execute_fork"])
def exec_fork(v):
    w = Hinet(v)
    nodes = VList.of([span(w.n, lambda j: Inner(j))])
    a = NewLayer(nodes) if v.case("layer") else NewFlowNode(FlowOf(nodes))
    r = a.use_execute_fork()
    j = v.fresh_int("j", 0).t
    v.assume(j < w.n)
    if r if isinstance(r, bool) else P().branch(term(r)):
        k = z3.Int("k")
        v.oblige("some node needs it", z3.Exists([k], z3.And(k >= 0, k < w.n, f_xf(k))))
    else:
        v.oblige("no node needs it", z3.Not(f_xf(j)))
    v.oblige("not needed by default", PN.ParallelExtensionNode.use_execute_fork() is False)


class Purged(Inner):
    @property
    def _train_phase_started(self):
        return wrap(f_tr(self.idx))

    input_dim = output_dim = None


@unit("_purge_flownode", [MOD + "_purge_flownode"])
def purge(v):
    w = Hinet(v)
    dummies = []

    class Dummy(object):
        _vc_ghost = True

        def __init__(self, *a, **k):
            pass
    nodes = [Purged(z3.IntVal(k)) for k in range(3)]
    fn = NewFlowNode(FlowOf(list(nodes)))
    with Patched(PF, _DummyNode=Dummy):
        PF._purge_flownode(fn)
    got = fn._flow.flow
    v.oblige("as many nodes", len(got) == 3)
    for k in range(3):
        need = z3.Or(f_tr(z3.IntVal(k)), f_xf(z3.IntVal(k)))
        v.oblige("a node that is needed for the join stays", z3.Implies(need, z3.BoolVal(got[k] is nodes[k])))
        v.oblige("any other node is replaced by a dummy of its own", z3.Or(need, z3.BoolVal(isinstance(got[k], Dummy) and all(got[i] is not got[k] for i in range(3) if i != k))))


class Tmpl(PN.ParallelExtensionNode):
    """node dimensions as plain values"""
    input_dim = output_dim = dtype = None

    def _join(self, other):
        self.__dict__["joined"] = self.__dict__.get("joined", 0) + 1
        self.__dict__["at_join"] = (self.input_dim, self.output_dim, self.dtype, self._train_phase_started)

    def _fork(self):
        return "forked"


@unit("ParallelExtensionNode.fork, join", [NOD + "ParallelExtensionNode.fork", NOD + "ParallelExtensionNode.join", NOD + "ParallelExtensionNode._fork", NOD + "ParallelExtensionNode._join"])
def template(v):
    def mk(name):
        n = Tmpl.__new__(Tmpl)
        n.__dict__.update(input_dim=opt_int(name + "_in", 1), output_dim=opt_int(name + "_out", 1), dtype=v.choose([None, "dtype " + name]), _train_phase_started=v.case(name + "_started"))
        return n
    a, b = mk("own"), mk("fork")
    v.oblige("fork delegates", a.fork() == "forked")
    old = dict(a.__dict__)
    kind, r = outcome(a.join, b)
    if kind == "exc":
        v.oblige("refused for another input dimension", isinstance(r, PN.JoinParallelException) and not a.__dict__.get("joined"))
        v.oblige("only then", z3.BoolVal(False) if old["input_dim"] is None or b.input_dim is None else num_term(old["input_dim"]) != num_term(b.input_dim))
        return
    v.oblige("joined once", a.__dict__.get("joined") == 1)
    for n in ("input_dim", "output_dim", "dtype"):
        want = old[n] if old[n] is not None else b.__dict__[n]
        v.oblige("%s: its own, otherwise that of the fork" % n, a.__dict__[n] is want)
    if old["input_dim"] is not None and b.input_dim is not None:
        v.oblige("same input dimension", num_term(old["input_dim"]) == num_term(b.input_dim))
    v.oblige("the phase counts as started if one of them was trained", a._train_phase_started == (old["_train_phase_started"] or b._train_phase_started))
    v.oblige("known before the statistics are joined", a.at_join == (a.input_dim, a.output_dim, a.dtype, a._train_phase_started))
    base = PN.ParallelExtensionNode
    kind, r = outcome(base._fork, a)
    v.oblige("a node without implementation can not be forked", kind == "exc" and isinstance(r, PN.NotForkableParallelException))
    kind, r = outcome(base._join, a, b)
    v.oblige("or joined", kind == "exc" and isinstance(r, PN.JoinParallelException))


class Arg0(PN.ParallelExtensionNode):
    def __init__(self, first, second, third=3, fourth=4):
        self.__dict__["args"] = (first, second, third, fourth)


@unit("ParallelExtensionNode._default_fork", [NOD + "ParallelExtensionNode._default_fork"])
def default_fork(v):
    a = Arg0.__new__(Arg0)
    where = {}
    for n in ("first", "second", "third", "fourth"):
        k = v.choose(["public", "underscore", "missing"])
        where[n] = (k, v.fresh_int(n))
        if k != "missing":
            a.__dict__[("" if k == "public" else "_") + n] = where[n][1]
    kind, r = outcome(a._default_fork)
    missing = [n for n in ("first", "second") if where[n][0] == "missing"]
    if missing:
        v.oblige("not forkable without the arguments", kind == "exc" and isinstance(r, PN.NotForkableParallelException))
        return
    v.oblige("a new node of the same class", kind == "ok" and type(r) is type(a) and r is not a)
    for n, got, default in zip(("first", "second", "third", "fourth"), r.args, (None, None, 3, 4)):
        v.oblige_eq("with the arguments of this node", got, where[n][1] if where[n][0] != "missing" else default)


@unit("nodes that can not be trained in parallel", [NOD + "ParallelVartimeSFANode._fork"])
def not_forkable(v):
    a = bare(PN.ParallelVartimeSFANode)
    kind, r = outcome(a._fork)
    v.oblige("order dependent nodes are trained locally", kind == "exc" and isinstance(r, PN.NotForkableParallelException))
