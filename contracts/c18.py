"""C18: bi-flows.

The flow has n abstract nodes; f_bi(j): node j is a bi-node, f_answers(j, t): it answers to the id t.  The values a node returns
are arbitrary in every call.  Loops over chunks and jumps are proved step by step with stated invariants: an arbitrary state at the
head of the loop (the current node, data and message), one iteration, and the state after it compared with the specification.
"""
from .common import *

F = sys.modules["bimdp.biflow"]
MOD = "bimdp.biflow:"
I_ = z3.IntSort()
f_bi = z3.Function("is_binode", I_, z3.BoolSort())
f_answers = z3.Function("answers_to", I_, I_, z3.BoolSort())
f_node_of = z3.Function("answer", I_, I_, I_)
f_nonempty = z3.Function("nonempty", I_, z3.BoolSort())
f_where = z3.Function("where", I_, I_)
f_found = z3.Function("in_flow", I_, z3.BoolSort())
EXIT = F.EXIT_TARGET


def W():
    return P().globals["biworld"]


class X(Ind):
    family = "data"

    def _vc_isa(self, cls):
        return cls in (object, np.ndarray)

    def _vc_type(self):
        return X


class Msg(Ind):
    """a message"""
    family = "message"

    def __bool__(self):
        return P().branch(f_nonempty(self.idx))

    def _vc_isa(self, cls):
        return cls in (dict, object)

    def _vc_type(self):
        return dict

    def copy(self):
        c = Msg(self.idx)
        object.__setattr__(c, "copied", True)
        return c


class Tid(Ind):
    """the id of a node as target"""
    family = "target id"

    def _vc_isa(self, cls):
        return cls in (str, object)

    def _vc_type(self):
        return str

    def __eq__(self, o):
        if type(o) in (str, int, bool) or o is None or is_num(o):
            return False
        return Ind.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

    __hash__ = Ind.__hash__

    def __str__(self):
        return "<id>"

    __repr__ = __str__


def is_num(o):
    return isinstance(o, SNum)


class FNode(Ind):
    """node j of the flow"""
    family = "flow node"

    def _vc_isa(self, cls):
        if cls in (mdp.Node, object):
            return True
        if cls is F.BiNode:
            return P().branch(f_bi(self.idx))
        return False

    def __bool__(self):
        return True

    def __str__(self):
        return "node"

    def execute(self, *a, **k):
        return W().node_call("execute", self, a, k)

    def train(self, *a, **k):
        return W().node_call("train", self, a, k)

    def stop_training(self, *a, **k):
        return W().node_call("stop", self, a, k)

    def bi_reset(self):
        W().trace.append(("reset", wrap(self.idx)))

    def _request_node_id(self, t):
        rt.oblige("only bi-nodes have ids", f_bi(self.idx))
        if P().branch(f_answers(self.idx, t.idx)):
            return Answer(f_node_of(self.idx, t.idx))
        return None

    def is_trainable(self):
        return W().trainable

    def get_remaining_train_phase(self):
        return W().remaining()

    def get_current_train_phase(self):
        if W().phase is None:
            W().phase = W().v.choose([0, 1, 2])
        return W().phase


class Answer(Ind):
    """a node that answers to an id"""
    family = "answering node"

    def __bool__(self):
        return True


class World(object):
    _vc_ghost = True

    def __init__(self, v, n=None):
        P().globals["biworld"] = self
        self.v = v
        self.n = v.fresh_int("n_nodes", 1).t if n is None else n
        self.events = []
        self.trace = VList()
        self.trainable = True

    def index(self, name):
        i = self.v.fresh_int(name, 0)
        self.v.assume(wrap(num_term(i) < self.n))
        return i

    def message(self, name="m"):
        return None if self.v.case("no message") else Msg(self.v.fresh_int(name).t)

    def data(self, name="x"):
        return X(self.v.fresh_int(name).t)

    def target(self, kinds=("relative", "id", "exit")):
        k = self.v.choose(list(kinds))
        if k == "relative":
            return self.v.fresh_int("relative")
        if k == "id":
            t = Tid(self.v.fresh_int("id").t)
            P().axiom(z3.Implies(f_found(t.idx), z3.And(f_where(t.idx) >= 0, f_where(t.idx) < self.n)))
            return t
        return EXIT if k == "exit" else None

    def result(self, invalid=True):
        """any result of a bi-node"""
        form = self.v.choose(["y", "two", "three"] + (["four"] if invalid else []))
        y = self.data("y")
        if form == "y":
            return y
        m = self.message("own_message")
        if form == "two":
            return y, m
        t = self.target()
        return (y, m, t) if form == "three" else (y, m, t, t)


class Flow(F.BiFlow):
    """callees by contract"""
    def _target_to_index(self, target, current_node=0):
        w = W()
        w.events.append(("index", target, current_node))
        if type(target) is str:
            return EXIT
        if target is None:
            target = 1
        if isinstance(target, Tid):
            return wrap(f_where(target.idx)) if P().branch(f_found(target.idx)) else target
        i = wrap(num_term(target) + num_term(current_node))
        if not P().branch(z3.And(num_term(i) >= 0, num_term(i) < w.n)):
            raise F.BiFlowException("index")
        return i

    def _bi_reset(self):
        W().events.append(("reset",))


class RealIndex(Flow):
    _target_to_index = F.BiFlow._target_to_index


class RealReset(F.BiFlow):
    pass


def new(v, cls=Flow, n=None):
    w = World(v, n)
    f = cls.__new__(cls)
    track(f)
    f.__dict__.update(flow=VList.of([span(w.n, lambda j: FNode(j))]), verbose=False)
    return w, f


def same(a, b):
    """identical opaque values"""
    if a is None or b is None or type(a) is str or type(b) is str or isinstance(a, bool) or isinstance(b, bool):
        rt.oblige("the same value", a is b or (type(a) is str and type(b) is str and a == b))
    else:
        rt.oblige("the same kind of value", type(a) is type(b) or (not isinstance(a, Ind) and not isinstance(b, Ind)))
        rt.oblige_eq("the same value", a, b)


# ---------------------------------------------------------------- targets
def ids_only(v, w):
    """answers of the nodes: f_answers only for bi-nodes"""
    j, t = z3.Ints("aj at")
    v.assume(z3.ForAll([j, t], z3.Implies(f_answers(j, t), f_bi(j))))


@unit("BiFlow._target_to_index", [MOD + "BiFlow._target_to_index"])
def target_index(v):
    w, f = new(v, RealIndex)
    ids_only(v, w)
    cur = w.index("current")
    t = w.target(("relative", "id", "exit", "none"))
    k, r = outcome(f._target_to_index, t, cur) if not v.case("default node") else outcome(f._target_to_index, t)
    at = num_term(cur)
    if k == "ok" and t is not EXIT and not isinstance(t, Tid) and len(P().decisions) and False:
        pass
    if t is EXIT:
        v.oblige("the exit target", k == "ok" and r == EXIT and type(r) is str)
        return
    if isinstance(t, Tid):
        v.oblige("no exception", k == "ok")
        j = z3.Int("tj")
        if isinstance(r, Tid):
            v.oblige_eq("the id itself", r, t)
            q = v.fresh_int("any_node", 0).t
            v.oblige("no node answers", z3.Not(z3.And(q < w.n, f_bi(q), f_answers(q, t.idx))))
        else:
            i = num_term(r)
            v.oblige("a node of the flow", z3.And(i >= 0, i < w.n))
            v.oblige("that answers to the id", z3.And(f_bi(i), f_answers(i, t.idx)))
            q = v.fresh_int("any_node", 0).t
            v.oblige("the first one", z3.Implies(q < i, z3.Not(z3.And(f_bi(q), f_answers(q, t.idx)))))
        return
    step = num_term(t) if t is not None else z3.IntVal(1)
    # the node the target is relative to is the given one, or the first
    want = [at + step, step]
    if k == "exc":
        v.oblige("a bi-flow exception", type(r) is F.BiFlowException)
        v.oblige("outside of the flow", z3.Or([z3.Or(x < 0, x >= w.n) for x in want]))
    else:
        i = num_term(r)
        v.oblige("a node of the flow", z3.And(i >= 0, i < w.n))
        v.oblige("exactly that node", z3.Or(i == want[0], i == want[1]))


@unit("BiFlow._target_to_index [relative]", [MOD + "BiFlow._target_to_index"])
def target_rel(v):
    w, f = new(v, RealIndex)
    cur, t = w.index("current"), v.fresh_int("t")
    k, r = outcome(f._target_to_index, t, cur)
    i = num_term(cur) + num_term(t)
    if k == "exc":
        v.oblige("a bi-flow exception", type(r) is F.BiFlowException)
        v.oblige("outside of the flow", z3.Or(i < 0, i >= w.n))
    else:
        v.oblige("inside of the flow", z3.And(i >= 0, i < w.n))
        v.oblige_eq("relative to the current node", r, wrap(i))
    k, r = outcome(f._target_to_index, t)
    i = num_term(t)
    if k == "exc":
        v.oblige("a bi-flow exception", type(r) is F.BiFlowException)
        v.oblige("outside of the flow", z3.Or(i < 0, i >= w.n))
    else:
        v.oblige("inside of the flow", z3.And(i >= 0, i < w.n))
        v.oblige_eq("relative to the first node", r, t)


class Steps(object):
    """jumping: any current node, data and message at the head"""
    def __init__(self, loop, locals_):
        self.objects = []
        self.w = W()

    def check(self, when, k):
        pass

    def havoc(self, k):
        self.w.events = []

    def check_locals(self, when, l):
        w = self.w
        if when == "initially":
            same(l["x"], w.start[0])
            same(l["msg"], w.start[1])
            rt.oblige_eq("starts at the given node", l["i_node"], w.start[2])
            return
        ev, out = w.after()
        rt.oblige("the flow goes on", out[0] == "go")
        same(l["x"], out[1])
        same(l["msg"], out[2])
        rt.oblige_eq("at exactly the target", l["i_node"], wrap(out[3]))

    def havoc_locals(self, l):
        w = self.w
        w.head = (w.data("x"), w.message("msg"), w.index("i"))
        return dict(x=w.head[0], msg=w.head[1], i_node=w.head[2])


class SeqWorld(World):
    def node_call(self, what, node, a, k):
        r = self.result() if P().branch(f_bi(node.idx)) else self.data("y")
        self.events.append((what, node, a, k, r))
        return r

    def after(self):
        """what the specification says after the call of this iteration: (how, data, message, where)"""
        calls = [e for e in self.events if e[0] == "execute"]
        rt.oblige("exactly one node is executed", len(calls) == 1)
        what, node, a, k, r = calls[0]
        x, msg, i = self.head
        rt.oblige_eq("the current one", wrap(node.idx), i)
        rt.oblige("no other arguments", not k)
        same(a[0], x)
        if P().branch(f_bi(node.idx)):
            rt.oblige("data and message", len(a) == 2)
            same(a[1], msg)
            if isinstance(r, X):
                y, m, t = r, None, 1
            elif len(r) == 2:
                y, m, t = r + (1,)
            elif len(r) == 3:
                y, m, t = r
            else:
                return calls, ("invalid",)
        else:
            rt.oblige("only the data", len(a) == 1)
            y, m, t = r, msg, 1
        if isinstance(t, Tid):
            if P().branch(f_found(t.idx)):
                return calls, ("go", y, m, f_where(t.idx))
            return calls, ("leave", y, m, t)
        if type(t) is str:
            return calls, ("leave", y, m, t)
        j = num_term(i) + num_term(t)
        if P().branch(j == self.n):
            return calls, ("end", y, m)
        if P().branch(j == -1):
            return calls, ("leave", y, m, -1)
        if P().branch(z3.And(j >= 0, j < self.n)):
            return calls, ("go", y, m, j)
        return calls, ("outside",)


@unit("BiFlow._execute_seq", [MOD + "BiFlow._execute_seq"])
def execute_seq(v):
    w0, f = new(v)
    w = SeqWorld(v, w0.n)
    x, msg = w.data("x"), w.message("msg")
    start = v.choose(["node", "id", "exit", "default"])
    i = {"node": lambda: w.index("start"), "id": lambda: w.target(("id",)), "exit": lambda: EXIT, "default": lambda: wrap(z3.IntVal(0))}[start]()
    stop = None if v.case("to the end") else w.index("stop")
    w.start = (x, msg, i)
    rt.hoare = [Steps]
    if start == "default":
        k, r = outcome(f._execute_seq, x, msg, stop_at_node=stop)
    else:
        k, r = outcome(f._execute_seq, x, msg, i, stop)
    if start in ("id", "exit"):
        v.oblige("a target that is not in the flow is returned", k == "ok" and type(r) is tuple and len(r) == 3 and not w.events)
        same(r[0], x), same(r[1], msg), same(r[2], i)
        return
    if not any(e[0] == "execute" for e in w.events):
        v.oblige("arrived at the node to stop at", k == "ok" and type(r) is tuple and len(r) == 3 and r[2] is True and stop is not None)
        same(r[0], w.head[0]), same(r[1], w.head[1])
        v.oblige_eq("exactly there", w.head[2], stop)
        return
    if stop is not None:
        v.oblige("not at the node to stop at", num_term(w.head[2]) != num_term(stop))
    calls, out = w.after()
    if out[0] in ("invalid", "outside"):
        v.oblige("an invalid result or target raises a bi-flow exception", k == "exc" and type(r) is F.BiFlowException)
        return
    v.oblige("no exception", k == "ok")
    v.oblige("the flow was left", out[0] in ("end", "leave"))
    if out[0] == "leave":
        v.oblige("data, message and target", type(r) is tuple and len(r) == 3)
        same(r[0], out[1]), same(r[1], out[2]), same(r[2], out[3])
    elif type(r) is tuple:
        v.oblige("data and message", len(r) == 2)
        same(r[0], out[1]), same(r[1], out[2])
    else:
        same(r, out[1])
        v.oblige("there is no message", out[2] is None or not bool(out[2]))


# ---------------------------------------------------------------- chunks
f_gives = z3.Function("chunk_gives_data", I_, z3.BoolSort())
f_hasmsg = z3.Function("chunk_gives_message", I_, z3.BoolSort())


class ExecWorld(World):
    def node_call(self, what, node, a, k):
        rt.oblige("no node is called directly", False)


class ExecFlow(Flow):
    def _sanitize_iterables(self, iterable, msg_iterable, target_iterable=None):
        w = W()
        rt.oblige("these data", iterable is w.given[0] and msg_iterable is w.given[1] and target_iterable is w.given[2])
        return VList.of([span(w.chunks, lambda c: w.chunk_x(c))]), VList.of([span(w.chunks, lambda c: w.chunk_m(c))]), VList.of([span(w.chunks, lambda c: w.chunk_t(c))])

    def _execute_seq(self, x, msg=None, i_node=0, stop_at_node=None):
        w = W()
        r = w.seq()
        w.events.append(("seq", x, msg, i_node, stop_at_node, r))
        return r


class CT(Ind):
    """target of chunk c: empty, relative or an id"""
    family = "chunk target"

    def __bool__(self):
        return P().branch(f_ct(self.idx))


f_ct = z3.Function("chunk_has_target", I_, z3.BoolSort())


class Container(object):
    _vc_ghost = True

    def __init__(self):
        W().events.append(("container", self))

    def add_message(self, m):
        W().events.append(("add", m))

    def get_message(self):
        return W().final


def chunk_spec(loop, locals_):
    return ChunkLoop(loop, locals_) if not W().__dict__.get("inside") else None


class ChunkLoop(object):
    """the first k chunks are done: their data are collected (all of them gave data, or none)"""
    def __init__(self, loop, locals_):
        self.objects, self.w = [], W()

    def collected(self, k):
        w = self.w
        if P().branch(k == 0):
            return None
        if P().branch(f_gives(z3.IntVal(0))):
            return VList.of([span(k, lambda c: Y(c))])
        return False

    def check(self, when, k):
        w = self.w
        if when == "initially":
            rt.oblige("nothing is executed before", [e[0] for e in w.events if e[0] != "container"] == ["reset"])
            return
        w.chunk_done()

    def havoc(self, k):
        self.w.events = []
        self.w.k = k
        j = z3.Int("cj")
        rt.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), f_gives(j) == f_gives(0))))

    def check_locals(self, when, l):
        if "y_results" not in l or "empty_iterator" not in l:
            raise Unsupported("locals of the loop over the chunks")
        if when == "initially":
            rt.oblige("nothing is collected", l["y_results"] is None and l["empty_iterator"] is True)
            return
        k = self.w.k + 1
        rt.oblige("not empty", l["empty_iterator"] is False)
        rt.oblige("all chunks give data, or none", z3.Implies(k > 1, f_gives(k - 1) == f_gives(0)))
        want = self.collected(k)
        if want is False or want is None:
            rt.oblige("no data", l["y_results"] is want)
        else:
            rt.oblige_eq("the data of all chunks in order", l["y_results"], want)

    def havoc_locals(self, l):
        k = self.w.k
        return dict(y_results=self.collected(k), empty_iterator=bool(P().branch(k == 0)))


class Y(Ind):
    """the data that come out of chunk c"""
    family = "chunk result"

    def _vc_isa(self, cls):
        return cls in (object, np.ndarray)

    def _vc_type(self):
        return Y


f_xi = z3.Function("chunk_data", I_, I_)
f_mi = z3.Function("chunk_message", I_, I_)


class M2(Msg):
    family = "result message"


@unit("BiFlow.execute", [MOD + "BiFlow.execute"])
def execute(v):
    w0, f = new(v, ExecFlow)
    w = ExecWorld(v, w0.n)
    w.chunks = v.fresh_int("chunks", 0).t
    w.given = (X(v.fresh_int("xs").t), None if v.case("no messages") else "msgs", None if v.case("no targets") else "targets")
    w.chunk_x = lambda c: X(f_xi(c))
    w.chunk_m = (lambda c: Msg(f_mi(c))) if w.given[1] else (lambda c: None)
    w.chunk_t = (lambda c: CT(c)) if w.given[2] else (lambda c: None)
    w.final = object()
    cats = []

    def seq():
        """any result of _execute_seq for chunk k"""
        k = w.k
        y = Y(k) if P().branch(f_gives(k)) else None
        form = v.choose(["y", "two", "back", "front", "exit", "lost"])
        m = None if form == "y" else w.message("out")
        w.out = (form, y, m)
        if form == "y":
            return y
        if form == "two":
            return y, m
        return y, m, {"back": 1, "front": -1, "exit": EXIT, "lost": "nowhere"}[form]
    w.seq = seq

    def index(self, target, current_node=0):
        rt.oblige_eq("the target of this chunk", target, CT(w.k))
        w.events.append(("index", target))
        if v.case("outside"):
            raise F.BiFlowException("index")
        return w.where
    w.where = w.index("where")

    def chunk_done():
        ev = [e[0] for e in w.events]
        rt.oblige("one execution, then the reset, then the message", ev in (["seq", "reset"], ["seq", "reset", "add"], ["index", "seq", "reset"], ["index", "seq", "reset", "add"], ["seq", "add", "reset"], ["index", "seq", "add", "reset"]))
        s = [e for e in w.events if e[0] == "seq"][0]
        same(s[1], w.chunk_x(w.k))
        m0 = w.chunk_m(w.k)
        same(s[2], m0)
        if m0 is not None:
            rt.oblige("the message of the user is not handed to the nodes", z3.Or(z3.BoolVal(bool(getattr(s[2], "__dict__", {}).get("copied"))), z3.Not(f_nonempty(m0.idx))))
        if w.given[2] and P().branch(f_ct(w.k)):
            rt.oblige("starts at the target", ev[0] == "index")
            rt.oblige_eq("exactly there", s[3], w.where)
        else:
            rt.oblige("starts at the first node", ev[0] == "seq" and s[3] == 0)
        rt.oblige("to the end", s[4] is None)
        form, y, m = w.out
        rt.oblige("the target was found", form != "lost")
        added = [e[1] for e in w.events if e[0] == "add"]
        if m is not None and P().branch(f_nonempty(m.idx)):
            rt.oblige("the message is collected once", len(added) == 1 and added[0] is m)
        else:
            rt.oblige("no message", not added or added[0] is m)
    w.chunk_done = chunk_done
    rt.hoare = [chunk_spec]

    def concatenate(l, *a):
        cats.append(l)
        return "all data"
    ExecFlow._target_to_index, keep = index, ExecFlow.__dict__.get("_target_to_index", engine.MISSING)
    try:
        with Patched(F, MessageResultContainer=Container, n=Num(concatenate)):
            args = [w.given[0]] + ([w.given[1]] if w.given[1] or w.given[2] else []) + ([w.given[2]] if w.given[2] else [])
            k, r = outcome(f.execute, *args)
    finally:
        del ExecFlow._target_to_index
    if k == "exc":
        v.oblige("a bi-flow exception", type(r) is F.BiFlowException)
        ev = [e[0] for e in w.events]
        if not ev or ev[0] == "reset" or ev == ["container"]:
            v.oblige("no data at all", w.chunks == 0)
        elif ev == ["index"]:
            pass      # the target of the chunk is outside of the flow
        elif w.out[0] == "lost":
            v.oblige("a target that is not there", True)
        else:
            v.oblige("some, but not all chunks gave data", z3.And(w.k > 0, f_gives(w.k) != f_gives(0)))
        return
    v.oblige("at least one chunk", w.chunks > 0)
    v.oblige("data and message", type(r) is tuple and len(r) == 2 and r[1] is w.final)
    if r[0] is None:
        v.oblige("no chunk gave data", z3.Not(f_gives(z3.IntVal(0))))
        v.oblige("nothing is concatenated", not cats)
    else:
        v.oblige("concatenated once", r[0] == "all data" and len(cats) == 1)
        v.oblige_eq("the data of all chunks in order", cats[0], VList.of([span(w.chunks, lambda c: Y(c))]))


class Num(object):
    def __init__(self, concatenate):
        self.concatenate = concatenate

    def __getattr__(self, n):
        return getattr(np, n)


# ---------------------------------------------------------------- joining messages
class NameK(Ind):
    family = "entry name"


f_isarr = z3.Function("entry_is_array", I_, I_, z3.BoolSort())
f_add = z3.Function("sum", I_, I_, I_)
f_addable = z3.Function("addable", I_, I_, z3.BoolSort())


def upd(f, i, x):
    return lambda j: z3.If(j == i, x, f(j))


class MV(Ind):
    """a value of a message"""
    family = "entry"

    def _vc_type(self):
        return np.ndarray if P().branch(f_isarray(self.idx)) else MV

    def _vc_isa(self, cls):
        return cls is object

    def add(self, o):
        if not isinstance(o, MV):
            raise Unsupported("sum")
        if not P().branch(f_addable(self.idx, o.idx)):
            raise TypeError("sum")
        return MV(f_add(self.idx, o.idx))

    __add__ = add

    def __iadd__(self, o):
        rt.oblige("the values in a message are not modified", False)
        return self.add(o)


f_isarray = z3.Function("is_array", I_, z3.BoolSort())
SeqS = z3.SeqSort(I_)


class Arrays(object):
    """name -> list of arrays"""
    _vc_ghost = True

    def __init__(self, v, name="arrays"):
        fh, fs = z3.Function(P().fresh_name(name + "_has"), I_, z3.BoolSort()), z3.Function(P().fresh_name(name + "_seq"), I_, SeqS)
        self.has, self.seq = (lambda q: fh(q)), (lambda q: fs(q))

    def vc_contains(self, k):
        return wrap(self.has(k.idx))

    def __contains__(self, k):
        return P().branch(self.has(k.idx))

    def __getitem__(self, k):
        if not P().branch(self.has(k.idx)):
            raise KeyError(k)
        return ArrList(self, k.idx)

    def setdefault(self, k, l):
        if not P().branch(self.has(k.idx)):
            self[k] = l
        return ArrList(self, k.idx)

    def __setitem__(self, k, l):
        items = engine.seq_segs(l)
        if not all(isinstance(s, Item) for s in items):
            raise Unsupported("list of arrays")
        t = z3.Empty(SeqS)
        for s in items:
            t = z3.Concat(t, z3.Unit(s.v.idx))
        self.has, self.seq = upd(self.has, k.idx, z3.BoolVal(True)), upd(self.seq, k.idx, t)


class ArrList(object):
    _vc_ghost = True

    def __init__(self, d, q):
        self.d, self.q = d, q

    def append(self, x):
        self.d.seq = upd(self.d.seq, self.q, z3.Concat(self.d.seq(self.q), z3.Unit(x.idx)))


class Values(object):
    """name -> value"""
    _vc_ghost = True

    def __init__(self, v, name="values"):
        fh, fv = z3.Function(P().fresh_name(name + "_has"), I_, z3.BoolSort()), z3.Function(P().fresh_name(name + "_val"), I_, I_)
        self.has, self.val = (lambda q: fh(q)), (lambda q: fv(q))

    def vc_contains(self, k):
        return wrap(self.has(k.idx))

    def __contains__(self, k):
        return P().branch(self.has(k.idx))

    def __getitem__(self, k):
        if not P().branch(self.has(k.idx)):
            raise KeyError(k)
        return MV(self.val(k.idx))

    def get(self, k, d=None):
        return MV(self.val(k.idx)) if P().branch(self.has(k.idx)) else d

    def __setitem__(self, k, x):
        if isinstance(x, Cat):
            self.cat = (k, x)
            x = MV(f_cat(k.idx))
        if not isinstance(x, MV):
            raise Unsupported("value %r" % (x,))
        self.has, self.val = upd(self.has, k.idx, z3.BoolVal(True)), upd(self.val, k.idx, x.idx)


f_cat = z3.Function("concatenated", I_, I_)


class Cat(object):
    def __init__(self, l):
        self.l = l


class ChunkMsg(object):
    """the message of a chunk: m entries"""
    _vc_ghost = True

    def __init__(self, v):
        self.m = v.fresh_int("entries", 0).t
        self.key, self.pos = z3.Function(P().fresh_name("entry_name"), I_, I_), z3.Function(P().fresh_name("entry_pos"), I_, I_)
        self.val = z3.Function(P().fresh_name("entry_value"), I_, I_)

    def has(self, q, k=None):
        p = self.pos(q)
        return z3.And(p >= 0, p < (self.m if k is None else k), self.key(p) == q)

    def __bool__(self):
        return P().branch(self.m > 0)

    def element(self, j):
        P().axiom(z3.Implies(z3.And(j >= 0, j < self.m), self.pos(self.key(j)) == j))
        return NameK(self.key(j))

    def vc_segs(self):
        return [span(self.m, self.element)]

    def items(self):
        return VIter([span(self.m, lambda j: (self.element(j), MV(self.val(self.key(j)))))])

    keys = lambda self: VIter(self.vc_segs())

    def __iter__(self):
        return iter(VIter(self.vc_segs()))

    def __getitem__(self, k):
        if not P().branch(self.has(k.idx)):
            raise KeyError(k)
        return MV(self.val(k.idx))


class Entries(object):
    """the first k entries of the message are added"""
    def __init__(self, loop, locals_):
        self.objects = []
        self.arr, self.vals, self.msg = P().globals["joining"]
        self.a0, self.v0 = (self.arr.has, self.arr.seq), (self.vals.has, self.vals.val)

    def want(self, k):
        (ah, as_), (vh, vv), m = self.a0, self.v0, self.msg
        arr = lambda q: z3.And(m.has(q, k), f_isarray(m.val(q)))
        oth = lambda q: z3.And(m.has(q, k), z3.Not(f_isarray(m.val(q))))
        return (lambda q: z3.Or(ah(q), arr(q)), lambda q: z3.If(arr(q), z3.Concat(z3.If(ah(q), as_(q), z3.Empty(SeqS)), z3.Unit(m.val(q))), as_(q)),
                lambda q: z3.Or(vh(q), oth(q)), lambda q: z3.If(oth(q), z3.If(vh(q), f_add(vv(q), m.val(q)), m.val(q)), vv(q)))

    def check(self, when, k):
        q = rt.fresh_int("some_name").t
        ah, as_, vh, vv = self.want(k)
        rt.oblige("%s: arrays are collected" % when, z3.And(self.arr.has(q) == ah(q), z3.Implies(ah(q), self.arr.seq(q) == as_(q))))
        rt.oblige("%s: others are added up" % when, z3.And(self.vals.has(q) == vh(q), z3.Implies(vh(q), self.vals.val(q) == vv(q))))
        if when == "preserved":
            e = self.msg.key(k - 1)
            rt.oblige("they could be added", z3.Or(f_isarray(self.msg.val(e)), z3.Not(self.v0[0](e)), f_addable(self.v0[1](e), self.msg.val(e))))

    def havoc(self, k):
        self.k = k
        P().globals["k"] = k
        self.arr.has, self.arr.seq, self.vals.has, self.vals.val = self.want(k)


@unit("MessageResultContainer.add_message", [MOD + "MessageResultContainer.add_message", MOD + "MessageResultContainer.__init__"])
def add_message(v):
    c = F.MessageResultContainer()
    v.oblige("empty at first", len(c._msg_results) == 0 and len(c._msg_array_results) == 0)
    k, r = outcome(c.add_message, None)
    v.oblige("no message", k == "ok" and len(c._msg_results) == 0 and len(c._msg_array_results) == 0)
    arr, vals, m = Arrays(v), Values(v), ChunkMsg(v)
    c._msg_results, c._msg_array_results = vals, arr
    P().globals["joining"] = arr, vals, m
    rt.hoare = [Entries]
    spec = Entries(None, None)
    k, r = outcome(c.add_message, m)
    v.oblige("the same collections", c._msg_results is vals and c._msg_array_results is arr)
    if k == "exc":
        v.oblige("a bi-flow exception", type(r) is F.BiFlowException)
        e = m.key(P().globals["k"])
        v.oblige("two values can not be added", z3.And(spec.v0[0](e), z3.Not(f_isarray(m.val(e))), z3.Not(f_addable(spec.v0[1](e), m.val(e)))))
        return
    ah, as_, vh, vv = spec.want(m.m)
    q = v.fresh_int("some_name").t
    v.oblige("arrays are collected", z3.And(arr.has(q) == ah(q), z3.Implies(ah(q), arr.seq(q) == as_(q))))
    v.oblige("others are added up", z3.And(vals.has(q) == vh(q), z3.Implies(vh(q), vals.val(q) == vv(q))))


class ArrayNames(object):
    """the collected arrays: m names"""
    _vc_ghost = True

    def __init__(self, v):
        self.m = v.fresh_int("n_arrays", 0).t
        self.key, self.pos = z3.Function(P().fresh_name("array_name"), I_, I_), z3.Function(P().fresh_name("array_pos"), I_, I_)

    has = ChunkMsg.has
    element = ChunkMsg.element
    vc_segs = ChunkMsg.vc_segs
    __iter__ = ChunkMsg.__iter__
    keys = ChunkMsg.keys

    def items(self):
        return VIter([span(self.m, lambda j: (self.element(j), ListOf(self.key(j))))])

    def __getitem__(self, k):
        return ListOf(k.idx)


class ListOf(Ind):
    family = "list of arrays"


class Moved(object):
    """the first k arrays are concatenated"""
    def __init__(self, loop, locals_):
        self.objects = []
        self.arr, self.vals = P().globals["moving"]
        self.v0 = (self.vals.has, self.vals.val)

    def want(self, k):
        vh, vv = self.v0
        return lambda q: z3.Or(vh(q), self.arr.has(q, k)), lambda q: z3.If(self.arr.has(q, k), f_cat(q), vv(q))

    def check(self, when, k):
        q = rt.fresh_int("some_name").t
        vh, vv = self.want(k)
        rt.oblige("%s: concatenated" % when, z3.And(self.vals.has(q) == vh(q), z3.Implies(vh(q), self.vals.val(q) == vv(q))))
        if when == "preserved":
            rt.oblige("the name is not used otherwise", z3.Not(self.v0[0](self.arr.key(k - 1))))

    def havoc(self, k):
        P().globals["k"] = k
        self.vals.has, self.vals.val = self.want(k)


@unit("MessageResultContainer.get_message", [MOD + "MessageResultContainer.get_message"])
def get_message(v):
    c = F.MessageResultContainer()
    arr, vals = ArrayNames(v), Values(v)
    c._msg_results, c._msg_array_results = vals, arr
    P().globals["moving"] = arr, vals
    rt.hoare = [Moved]
    spec = Moved(None, None)

    def concatenate(l, *a):
        if not isinstance(l, ListOf):
            raise Unsupported("concatenate")
        return MV(f_cat(l.idx))
    with Patched(F, n=Num(concatenate)):
        k, r = outcome(c.get_message)
    if k == "exc":
        v.oblige("a bi-flow exception", type(r) is F.BiFlowException)
        v.oblige("a name with arrays and other values", spec.v0[0](arr.key(P().globals["k"])))
        return
    q = v.fresh_int("some_name").t
    vh, vv = spec.want(arr.m)
    v.oblige("all values", r is vals)
    v.oblige("arrays are concatenated, others as they are", z3.And(vals.has(q) == vh(q), z3.Implies(vh(q), vals.val(q) == vv(q))))


# ---------------------------------------------------------------- lookup by id
class IdFlow(F.BiFlow):
    pass


def lookup_world(v):
    w, f = new(v, IdFlow)
    ids_only(v, w)
    return w, f, Tid(v.fresh_int("id").t)


def first_answer(v, w, t, name, idx):
    """idx is the answer of the first node that answers"""
    q = v.fresh_int("first", 0).t
    j = z3.Int("fj")
    return q, j


@unit("BiFlow._request_node_id", [MOD + "BiFlow._request_node_id"])
def request(v):
    w, f, t = lookup_world(v)
    q = v.fresh_int("first", 0).t
    v.assume(q <= w.n)
    j = z3.Int("fj")
    v.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), z3.Not(f_answers(j, t.idx)))))
    v.assume(z3.Implies(q < w.n, z3.And(f_bi(q), f_answers(q, t.idx))))
    r = f._request_node_id(t)
    if r is None:
        v.oblige("no node answers", q == w.n)
    else:
        v.oblige("a node answers", q < w.n)
        v.oblige_eq("the first answer", r, Answer(f_node_of(q, t.idx)))


class Lookup(F.BiFlow):
    def _request_node_id(self, key):
        self.asked.append(key)
        return self.answer


@unit("BiFlow container access", [MOD + "BiFlow.__getitem__", MOD + "BiFlow.__contains__", MOD + "BiFlow.__setitem__", MOD + "BiFlow.__delitem__"])
def container(v):
    w, f = new(v, Lookup)
    f.__dict__["asked"] = []
    f.__dict__["answer"] = Answer(v.fresh_int("answer").t) if v.case("found") else None
    sup = []
    o = object()

    def rec(name, r):
        return lambda self, *a: (sup.append((name,) + a), r)[1]
    key = v.choose(["some id", ""])
    k, r = outcome(lambda: f[key])
    if f.answer is None:
        v.oblige("unknown ids raise a KeyError", k == "exc" and type(r) is KeyError)
    else:
        v.oblige("the node that answers", k == "ok" and r is f.answer)
    v.oblige("contains exactly the known ids", (key in f) is (f.answer is not None))
    v.oblige("asked for this id", all(a == key for a in f.asked) and f.asked)
    k, r = outcome(f.__setitem__, key, FNode(z3.IntVal(0)))
    v.oblige("can not be set by id", k == "exc" and type(r) is F.BiFlowException)
    k, r = outcome(f.__delitem__, key)
    v.oblige("can not be deleted by id", k == "exc" and type(r) is F.BiFlowException)
    f.__dict__["asked"] = []
    with Patched(mdp.Flow, __getitem__=rec("get", o), __setitem__=rec("set", None), __delitem__=rec("del", None), __contains__=rec("in", True)):
        i = v.choose([0, 1])
        v.oblige("by position as in any flow", f[i] is o and f[0:2] is o)
        node = FNode(z3.IntVal(0))
        v.oblige("contains nodes as any flow", f.__contains__(node) is True)
        f[i] = node
        del f[i]
    v.oblige("exactly these", sup[0] == ("get", i) and sup[1] == ("get", slice(0, 2)) and sup[2][0] == "in" and sup[2][1] is node and sup[3][:2] == ("set", i) and sup[3][2] is node and sup[4] == ("del", i))
    v.oblige("no id is looked up", not f.asked)


@unit("BiFlow._bi_reset", [MOD + "BiFlow._bi_reset"])
def bi_reset(v):
    w, f = new(v, RealReset)
    f._bi_reset()
    v.oblige_eq("exactly the bi-nodes are reset, each once", w.trace, VList.of([Rep(w.n, lambda j: [Guard(f_bi(j), [Item(("reset", wrap(j)))])])]))


# ---------------------------------------------------------------- iterables
class Chk(F.BiFlow):
    def _train_check_iterables(self, it):
        self.checked.append(it)
        return ("checked", it)


@unit("BiFlow._sanitize_iterables", [MOD + "BiFlow._sanitize_iterables"])
def sanitize(v):
    w, f = new(v, Chk)
    kind = v.choose(["array", "none", "other"])
    it = {"array": X(z3.IntVal(0)), "none": None, "other": "iterable"}[kind]
    mk = v.choose(["none", "dict", "other"])
    m = {"none": None, "dict": Msg(z3.IntVal(1)), "other": "messages"}[mk]
    t = None if v.case("no target") else "target"
    k, r = outcome(f._sanitize_iterables, it, m, t) if t else outcome(f._sanitize_iterables, it, m)
    if kind == "none" and m is None:
        v.oblige("neither data nor messages", k == "exc" and type(r) is F.BiFlowException)
        return
    v.oblige("three iterables", k == "ok" and len(r) == 3)
    none = lambda q: type(q) is F.NoneIterable
    one = lambda q, val: type(q) in (list, VList) and len(q) == 1 and q[0] is val
    if kind == "array":
        v.oblige("a single chunk", one(r[0], it) and one(r[1], m) and one(r[2], t))
    elif kind == "none" and mk == "dict":
        v.oblige("a single message", none(r[0]) and one(r[1], m) and one(r[2], t))
    elif kind == "none":
        v.oblige("messages only", none(r[0]) and r[1] is m and (r[2] is t if t else none(r[2])))
    else:
        v.oblige("iterables", r[0] is it and (none(r[1]) if m is None else r[1] is m) and (none(r[2]) if t is None else r[2] is t))


@unit("BiFlow._sanitize_training_iterables", [MOD + "BiFlow._sanitize_training_iterables"])
def sanitize_training(v):
    w, f = new(v, Chk)
    f.__dict__["checked"] = []
    kind = v.choose(["array", "none", "other"])
    it = {"array": X(z3.IntVal(0)), "none": None, "other": "iterables"}[kind]
    m = None if v.case("no messages") else "messages"
    k, r = outcome(f._sanitize_training_iterables, it, m)
    if kind == "none" and m is None:
        v.oblige("neither data nor messages", k == "exc" and type(r) is F.BiFlowException)
        return
    v.oblige("data and messages", k == "ok" and len(r) == 2)
    if kind == "array":
        v.oblige_eq("the array for each node", r[0], VList.of([span(w.n, lambda j: VList([it]))]))
        v.oblige_eq("the message for each node", r[1], VList.of([span(w.n, lambda j: VList([m]))]))
    elif kind == "none":
        v.oblige_eq("no data for each node", r[0], VList.of([span(w.n, lambda j: None)]))
        v.oblige("the messages", r[1] is m)
    else:
        v.oblige("checked data", r[0] == ("checked", it))
        if m is None:
            v.oblige_eq("no messages for each node", r[1], VList.of([span(w.n, lambda j: None)]))
        else:
            v.oblige("checked messages", r[1] == ("checked", m))


@unit("NoneIterable", [MOD + "NoneIterable.__iter__"])
def none_iterable(v):
    it = iter(F.NoneIterable())
    v.oblige("Nones", all(next(it) is None for _ in range(3)))


# ---------------------------------------------------------------- training
class TrainFlow(Flow):
    def _sanitize_training_iterables(self, data_iterables=None, msg_iterables=None):
        w = W()
        rt.oblige("these data", data_iterables is w.given[0] and msg_iterables is w.given[1])
        return VList.of([span(w.n, lambda j: XI(j))]), VList.of([span(w.n, lambda j: MI(j))])

    def _train_node(self, iterable, nodenr, msg_iterable=None, stop_msg=None):
        W().trace.append(("train", iterable, nodenr, msg_iterable, stop_msg))

    def _train_check_checkpoints(self, c):
        w = W()
        rt.oblige("these checkpoints", c is w.checkpoints)
        return VList.of([span(w.n, lambda j: w.cp(j))])


class XI(Ind):
    family = "data iterable"


class MI(Ind):
    family = "message iterable"


class SM(Ind):
    family = "stop message"


class CP(Ind):
    family = "checkpoint"

    def __call__(self, node):
        W().trace.append(("checkpoint", wrap(self.idx), node))
        return None


class CheckFlow(TrainFlow, F.BiCheckpointFlow):
    train = F.BiCheckpointFlow.train


@unit("BiFlow.train", [MOD + "BiFlow.train"])
def train(v):
    w, f = new(v, TrainFlow)
    w.given = (XI(z3.IntVal(-1)), None if v.case("no messages") else MI(z3.IntVal(-1)))
    stop = v.case("stop messages")
    args = dict(stop_messages=VList.of([span(w.n, lambda j: SM(j))])) if stop else {}
    f.train(w.given[0], w.given[1], **args)
    v.oblige("reset before", w.events == [("reset",)])
    v.oblige_eq("every node in order, with its data and messages", w.trace,
                VList.of([Rep(w.n, lambda j: [Item(("train", XI(j), wrap(j), MI(j), SM(j) if stop else None))])]))


@unit("BiCheckpointFlow.train", [MOD + "BiCheckpointFlow.train"])
def checkpoint_train(v):
    w, f = new(v, CheckFlow)
    w.given = (XI(z3.IntVal(-1)), None if v.case("no messages") else MI(z3.IntVal(-1)))
    w.checkpoints = object()
    some = v.case("checkpoints")
    w.cp = (lambda j: CP(j)) if some else (lambda j: None)
    stop = v.case("stop messages")
    args = dict(stop_messages=VList.of([span(w.n, lambda j: SM(j))])) if stop else {}
    f.train(w.given[0], w.checkpoints, w.given[1], **args)
    v.oblige("reset before", w.events == [("reset",)])
    v.oblige_eq("every node in order, each followed by its checkpoint", w.trace,
                VList.of([Rep(w.n, lambda j: [Item(("train", XI(j), wrap(j), MI(j), SM(j) if stop else None))] + ([Item(("checkpoint", wrap(j), FNode(j)))] if some else []))]))


class NodeFlow(Flow):
    def _sanitize_iterables(self, iterable, msg_iterable, target_iterable=None):
        w = W()
        rt.oblige("these data", iterable is w.given[0] and msg_iterable is w.given[1])
        return "xs", "msgs", "targets"

    def _train_node_single_phase(self, iterable, nodenr, msg_iterable, stop_msg=None):
        w = W()
        w.events.append(("phase", iterable, nodenr, msg_iterable, stop_msg))
        w.left.v = w.left.v - 1


class Phases(object):
    def __init__(self, loop, locals_):
        self.objects, self.w = [W().left], W()

    def check(self, when, k):
        w = self.w
        if when == "preserved":
            rt.oblige("one phase, then the reset", [e[0] for e in w.events] == ["phase", "reset"])
            e = w.events[0]
            rt.oblige("of this node with its data", e[1] == "xs" and e[2] is w.nr and e[3] == "msgs" and e[4] is w.stop)
            rt.oblige_eq("the next phase", w.left.v, wrap(w.now - 1))
            rt.oblige("phases were left", w.now > 0)
        rt.oblige("never negative", num_term(w.left.v) >= 0)

    def havoc(self, k):
        self.w.events = []
        self.w.left.v = self.w.v.fresh_int("phases_left", 0)
        self.w.now = num_term(self.w.left.v)


@unit("BiFlow._train_node", [MOD + "BiFlow._train_node"])
def train_node(v):
    w, f = new(v, NodeFlow)
    w.left = track(Cell(v.fresh_int("phases", 0)))
    w.remaining = lambda: w.left.v
    w.trainable = v.case("trainable")
    w.nr = w.index("nodenr")
    w.given = (XI(z3.IntVal(-1)), None if v.case("no messages") else MI(z3.IntVal(-1)))
    w.stop = None if v.case("no stop message") else SM(z3.IntVal(0))
    rt.hoare = [Phases]
    f._train_node(w.given[0], w.nr, *([w.given[1], w.stop] if w.given[1] is not None or w.stop is not None else []))
    if not w.trainable:
        v.oblige("nothing to train", not w.events)
        return
    v.oblige_eq("all phases are done", w.left.v, 0)
    v.oblige("nothing more", not w.events)


class PhaseFlow(Flow):
    def _execute_seq(self, x, msg=None, i_node=0, stop_at_node=None):
        w = W()
        if stop_at_node is None:
            # the execution after stop_training
            form = w.v.choose(["y", "two", "back", "front", "exit", "lost"])
            w.form = form
            y, m = w.data("y"), w.message("m")
            w.events.append(("final", x, msg, i_node))
            return y if form == "y" else (y, m) if form == "two" else (y, m, {"back": 1, "front": -1, "exit": EXIT, "lost": Tid(z3.IntVal(5))}[form])
        form = w.v.choose(["y", "two", "there", "lost"])
        y, m = w.data("y"), w.message("m")
        t = {"there": True, "lost": Tid(z3.IntVal(5))}.get(form)
        r = y if form == "y" else (y, m) if form == "two" else (y, m, t)
        w.events.append(("seq", x, msg, i_node, stop_at_node, form, y, m))
        return r

    def _stop_training_hook(self):
        W().events.append(("hook",))

    def _get_required_train_args(self, node):
        return VList(["arg"]) if W().needs else VList()


class PhaseWorld(World):
    def node_call(self, what, node, a, k):
        rt.oblige_eq("the node to be trained", wrap(node.idx), self.nr)
        if what == "train":
            if self.v.case("TypeError"):
                self.events.append(("train", a, k, "error"))
                raise TypeError("train")
            if not P().branch(f_bi(node.idx)):
                self.events.append(("train", a, k, "plain"))
                return None
            r = None if self.v.case("training is over") else self.result()
            self.events.append(("train", a, k, r))
            return r
        if what == "stop":
            r = None if self.v.case("no result") else self.result()
            self.events.append(("stop", a, k, r))
            return r
        raise Unsupported(what)

    def parts(self, r):
        return (r, None, None) if isinstance(r, X) else r + (None,) if len(r) == 2 else r if len(r) == 3 else None

    def where(self, t):
        """('at', index) | ('not there', target) | ('outside',)"""
        if type(t) is str:
            return "not there", t
        if isinstance(t, Tid):
            return ("at", f_where(t.idx)) if P().branch(f_found(t.idx)) else ("not there", t)
        i = num_term(self.nr) + (num_term(t) if t is not None else 1)
        return ("at", i) if P().branch(z3.And(i >= 0, i < self.n)) else ("outside",)


class PhaseChunks(object):
    """outer loop: each chunk ends with the training of the node and a reset"""
    def __init__(self, loop, locals_):
        self.objects, self.w = [], W()

    def check(self, when, k):
        w = self.w
        if when == "initially":
            rt.oblige("nothing happens before", not w.events)
            return
        ev = [e[0] for e in w.events]
        rt.oblige("the flow up to the node, its training, the reset", ev == ["seq", "train", "reset"])
        w.train_args()
        r = w.events[1][3]
        rt.oblige("the training of this chunk is over", r is None or type(r) is str and r == "plain")

    def havoc(self, k):
        self.w.events = []
        self.w.k = k
        self.w.inner = False

    def check_locals(self, when, l):
        if "empty_iterator" not in l:
            raise Unsupported("locals of the loop over the chunks")
        rt.oblige("chunks were seen", l["empty_iterator"] is (when == "initially"))

    def havoc_locals(self, l):
        return dict(empty_iterator=bool(P().branch(self.w.k == 0)))


class PhaseSteps(object):
    """inner loop: any start node, data and message; the flow up to the node, then its training"""
    def __init__(self, loop, locals_):
        self.objects, self.w = [], W()
        self.w.inner = True

    def check(self, when, k):
        pass

    def havoc(self, k):
        self.w.events = []

    def check_locals(self, when, l):
        w = self.w
        if when == "initially":
            same(l["x"], X(f_xi(w.k)))
            if w.hasmsgs:
                same(l["msg"], Msg(f_mi(w.k)))
                rt.oblige("the message of the user is not handed to the nodes", z3.Or(z3.BoolVal(bool(getattr(l["msg"], "__dict__", {}).get("copied"))), z3.Not(f_nonempty(f_mi(w.k)))))
            else:
                rt.oblige("no message", l["msg"] is None)
            rt.oblige("from the first node", not is_sym(l["i_node"]) and l["i_node"] == 0)
            return
        ev = [e[0] for e in w.events]
        rt.oblige("the flow up to the node, then its training", ev == ["seq", "train", "index"])
        w.train_args()
        r = w.events[1][3]
        rt.oblige("the training goes on", r is not None and r != "plain")
        p = w.parts(r)
        rt.oblige("a valid result", p is not None)
        same(l["x"], p[0])
        same(l["msg"], p[1])
        wh = w.where(p[2])
        rt.oblige("not outside of the flow", wh[0] != "outside")
        same(l["i_node"], wrap(wh[1]) if wh[0] == "at" else wh[1])

    def havoc_locals(self, l):
        w = self.w
        i = w.v.choose(["node", "elsewhere"])
        w.head = (w.data("x"), w.message("msg"), w.index("i") if i == "node" else w.v.choose([EXIT, Tid(w.v.fresh_int("t").t)]))
        return dict(x=w.head[0], msg=w.head[1], i_node=w.head[2])


def phase_specs(loop, locals_):
    w = W()
    return PhaseSteps(loop, locals_) if isinstance(loop, engine.WhileLoop) else PhaseChunks(loop, locals_)


@unit("BiFlow._train_node_single_phase", [MOD + "BiFlow._train_node_single_phase"], max_paths=20000, max_time=400)
def single_phase(v):
    w0, f = new(v, PhaseFlow)
    w = PhaseWorld(v, w0.n)
    w.k = None
    w.needs = v.case("node needs arguments")
    w.nr = w.index("nodenr")
    w.chunks = v.fresh_int("chunks", 0).t
    w.phase = None
    w.hasmsgs = v.case("messages")
    stop = None if v.case("no stop message") else Msg(v.fresh_int("stop_message").t)
    xs = VList.of([span(w.chunks, lambda c: X(f_xi(c)))])
    ms = VList.of([span(w.chunks, (lambda c: Msg(f_mi(c))) if w.hasmsgs else (lambda c: None))])
    bi = lambda: P().branch(f_bi(num_term(w.nr)))

    def train_args():
        s, t = w.events[0], w.events[1]
        same(s[1], w.head[0]), same(s[2], w.head[1]), same(s[3], w.head[2])
        rt.oblige_eq("up to the node", s[4], w.nr)
        rt.oblige("the node was reached", s[5] == "there")
        rt.oblige("no named arguments", not t[2])
        same(t[1][0], s[6])
        if bi():
            rt.oblige("trained with data and message", len(t[1]) == 2)
            same(t[1][1], s[7])
        else:
            rt.oblige("trained with the data", len(t[1]) == 1)
    w.train_args = train_args
    rt.hoare = [phase_specs]
    k, r = outcome(f._train_node_single_phase, xs, w.nr, ms, *([stop] if stop is not None else []))
    ev = [e[0] for e in w.events]
    if k == "exc":
        if type(r) is TypeError:
            v.oblige("raised by the training of the node", "train" in ev and w.events[ev.index("train")][3] == "error")
            v.oblige("not because of missing arguments", True if bi() else not w.needs)
            return
        v.oblige("a bi-flow exception", type(r) is F.BiFlowException)
        if ev == []:
            v.oblige("no data at all", w.chunks == 0)
        elif ev == ["seq"]:
            v.oblige("the node was not reached", w.events[0][5] != "there")
        elif ev == ["seq", "train"]:
            t = w.events[1][3]
            v.oblige("missing arguments or an invalid result", (type(t) is str and t == "error" and w.needs) or (type(t) is tuple and len(t) == 4))
        elif ev == ["seq", "train", "index"]:
            v.oblige("a target outside of the flow", w.where(w.parts(w.events[1][3])[2])[0] == "outside")
        elif ev == ["hook", "stop"]:
            t = w.events[1][3]
            v.oblige("an invalid result", type(t) is tuple and len(t) == 4)
        elif ev == ["hook", "stop", "index"]:
            v.oblige("a target outside of the flow", w.where(w.parts(w.events[1][3])[2])[0] == "outside")
        else:
            v.oblige("a target that was not found", ev == ["hook", "stop", "index", "final"] and w.form == "lost")
        return
    v.oblige("there were data", w.chunks > 0)
    v.oblige("the training phase is stopped once", ev[:2] == ["hook", "stop"] and ev.count("stop") == 1)
    s = w.events[1]
    v.oblige("stopped with the message", not s[2] and (s[1] == () if stop is None else len(s[1]) == 1))
    if stop is not None:
        same(s[1][0], stop)
        v.oblige("the message of the user is not handed to the node", s[1][0] is not stop)
    if s[3] is None:
        v.oblige("nothing is executed", len(ev) == 2)
        return
    p = w.parts(s[3])
    v.oblige("a valid result", p is not None)
    if p[2] is EXIT or (type(p[2]) is str and p[2] == EXIT):
        v.oblige("nothing is executed", len(ev) == 2)
        return
    wh = w.where(p[2])
    v.oblige("executed once", ev == ["hook", "stop", "index", "final"])
    e = w.events[-1]
    same(e[1], p[0]), same(e[2], p[1])
    v.oblige("not outside of the flow", wh[0] != "outside")
    same(e[3], wrap(wh[1]) if wh[0] == "at" else wh[1])
    v.oblige("the target was found", w.form != "lost")
