"""C15: schedulers.

Concurrency by a lock invariant: acquiring the lock replaces everything it protects by arbitrary values satisfying the invariant,
releasing it must establish the invariant again; what one thread adds to the counts between the two is accumulated (delta), so the
number of open tasks is the number added minus the number finished because add_task adds one and finishing a task removes one.
"""
import pickle
import subprocess
import threading
import time
import traceback
from .common import *
from pyvc.engine import _z
import mdp.parallel.process_schedule
SCH = sys.modules["mdp.parallel.scheduling"]
TS = sys.modules["mdp.parallel.thread_schedule"]
PS = sys.modules["mdp.parallel.process_schedule"]

SM, TM, PM = "mdp.parallel.scheduling:", "mdp.parallel.thread_schedule:", "mdp.parallel.process_schedule:"
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
f_result = z3.Function("result_of", I_, I_, I_)             # callable, data
f_used = z3.Function("callable_used_with_index", R_, I_)    # the callable a task with this callable index was added with

models.trusted("threading.Lock: mutual exclusion; a started thread runs its target once; list.append and list.pop are atomic")
models.trusted("a deep copy made by pickle behaves like the original callable; pickle.load returns what was dumped at the other end of a pipe")
models.trusted("a slave process that failed closes its pipe, so that reading its result raises (EOFError)")


def W():
    return P().globals.get("schedulers")


class Boom(Exception):
    pass


class Datum(Ind):
    family = "data"


class Value(Ind):
    family = "result"


class Failure(Ind):
    """a stored exception"""
    family = "exception"

    def _vc_isa(self, cls):
        return cls in (Exception, BaseException, object)


class Function(Ind):
    """a plain callable without fork"""
    family = "function"

    def __call__(self, data):
        w = W()
        w.calls.append(("call", self, data))
        w.may_fail("the call")
        return Value(f_result(self.idx, data.idx))

    def _vc_hasattr(self, n):
        return n == "__call__"


class Fork(Ind):
    family = "fork"

    def __call__(self, data):
        w = W()
        w.calls.append(("call", self, data))
        w.may_fail("the call")
        return Value(f_result(self.idx, data.idx))


class Callable(Ind):
    family = "callable"

    def fork(self):
        w = W()
        w.calls.append(("fork", self))
        w.may_fail("fork")
        return Fork(self.idx)

    def setup_environment(self):
        w = W()
        w.calls.append(("setup", self))
        w.may_fail("setup_environment")

    def __call__(self, data):
        rt.oblige("only a fork of the callable is called", False)

    def _vc_hasattr(self, n):
        return n in ("fork", "setup_environment", "__call__")


class Lock(object):
    _vc_ghost = True

    def __init__(self, held=False):
        self.held = held

    def acquire(self, blocking=True, timeout=-1):
        rt.oblige("a thread does not wait for the lock it holds", not self.held)
        self.held = True
        W().refresh()
        return True

    def release(self):
        rt.oblige("the lock is released only by its holder", self.held)
        W().close()
        self.held = False

    def locked(self):
        return self.held

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Container(object):
    """an arbitrary result container"""
    _vc_ghost = True

    def add_result(self, result, task_index):
        w = W()
        rt.oblige("results are stored while the lock is held", w.lock.held)
        w.calls.append(("store", result, task_index))
        w.may_fail("storing", interrupts=False)

    def get_results(self):
        w = W()
        rt.oblige("results are collected while the lock is held", w.lock.held)
        rt.oblige("results are collected only without open tasks", w.s.__dict__["_n_open_tasks"] == 0)
        w.calls.append(("collect",))
        w.may_fail("collecting", interrupts=False)
        return w.collected


class World(object):
    """the state of a scheduler as seen by one thread"""
    _vc_ghost = True
    COUNTS = ("_n_open_tasks", "_task_counter", "_n_active_threads")

    def __init__(self, v, cls, held=False, own=0, extra=()):
        P().globals["schedulers"] = self
        self.v = v
        self.lock = Lock(held)
        self.calls = []
        self.failed = []
        self.started = []
        self.failures_possible = True
        self.kept = []                  # exceptions this thread stored
        self.collected = Datum(P().fresh("collected", I_))
        self.own = own                  # tasks this thread will finish
        self.active_own = 0
        self.delta = {c: z3.IntVal(0) for c in self.COUNTS}
        self.pre = {}
        self.last_counter = z3.IntVal(0)
        self.extra = extra
        self.given = None
        s = self.s = cls.__new__(cls)
        s.__dict__.update(_lock=self.lock, result_container=Container(), verbose=v.case("verbose"), _task_exceptions=VList(),
                          _n_open_tasks=0, _task_counter=0, _last_callable=None, _last_callable_index=-1.0)
        self.refresh()

    def may_fail(self, what, interrupts=True):
        if self.failures_possible and self.v.case(what + " fails"):
            e = Boom(what) if not interrupts or self.v.case(what + " raises an Exception") else KeyboardInterrupt(what)
            self.failed.append(e)
            raise e

    # -- lock invariant
    def refresh(self):
        d = self.s.__dict__
        v = self.v
        n = v.fresh_int("n_open", 0)
        v.assume(n.t >= z3.IntVal(self.own) + self.delta["_n_open_tasks"])
        d["_n_open_tasks"] = n
        c = v.fresh_int("counter", 0)
        v.assume(c.t >= self.last_counter)
        d["_task_counter"] = c
        if "exceptions" in self.extra:
            f = z3.Function(P().fresh_name("failure"), I_, I_)
            m = v.fresh_int("n_exceptions", 0).t
            self.stored = [Rep(m, lambda j: [Item(Failure(f(j)))])]
            d["_task_exceptions"] = VList.of(self.stored)
        if "callable" in self.extra:
            d["_last_callable"] = None if v.case("no callable known") else Callable(P().fresh("last_callable", I_))
            if isinstance(self.given, Callable) and v.case("the callable was given before"):
                # it can have been changed in the meantime
                d["_last_callable"] = self.given
            d["_last_callable_index"] = v.fresh_real("last_callable_index")
            # indices used by tasks so far, all at most the counter
            self.used = z3.Function(P().fresh_name("used"), R_, B_)
            self.state = (d["_last_callable"], d["_last_callable_index"].t, c.t)
            i = z3.Real("ui")
            v.assume(z3.ForAll([i], z3.Implies(self.used(i), z3.And(i > 0, i <= z3.ToReal(c.t)))))
            v.assume(self.callable_invariant(*self.state, self.used))
        if "active" in self.extra:
            a = v.fresh_int("n_active", 0)
            v.assume(z3.And(a.t <= d["_n_threads"].t, a.t >= self.active_own + self.delta["_n_active_threads"]))
            d["_n_active_threads"] = a
        if "pool" in self.extra:
            self.pool_n = v.fresh_int("n_free", 0)
            d["_last_callable_index"] = v.fresh_real("last_callable_index")
        self.pre = {c: term(d[c]) for c in self.COUNTS if c in d}

    def callable_invariant(self, last, index, counter, used):
        c = z3.And(index <= z3.ToReal(counter) + z3.RealVal("1/2"))
        if last is not None:
            c = z3.And(c, z3.Implies(used(index), f_used(index) == last.idx))
        else:
            c = z3.And(c, z3.Not(used(index)))
        return c

    def close(self):
        d = self.s.__dict__
        for c in self.pre:
            self.delta[c] = z3.simplify(self.delta[c] + term(d[c]) - self.pre[c])
        self.last_counter = term(d["_task_counter"])
        rt.oblige("the number of open tasks includes those of this thread",
                  term(d["_n_open_tasks"]) >= z3.IntVal(self.own) + self.delta["_n_open_tasks"])
        if "active" in self.extra:
            rt.oblige("not more threads than allowed", z3.And(0 <= term(d["_n_active_threads"]), term(d["_n_active_threads"]) <= d["_n_threads"].t))
        self.at_release = dict(d)
        if "exceptions" in self.extra:
            segs = list(engine.seq_segs(d["_task_exceptions"]))
            if segs[:1] == self.stored[:1] or not segs and not self.stored:
                self.kept += segs[len(self.stored):]
            else:
                self.kept.append(Item("the list was replaced"))
        for c in self.pre:
            d[c] = SInt(P().fresh("unprotected", I_))

    # -- conclusions
    def counts(self, opened=0, added=0, active=0):
        v = self.v
        v.oblige("the lock is free", not self.lock.held)
        v.oblige("open tasks: %+d" % opened, self.delta["_n_open_tasks"] == opened)
        v.oblige("tasks added: %+d" % added, self.delta["_task_counter"] == added)
        if "active" in self.extra:
            v.oblige("active threads: %+d" % active, self.delta["_n_active_threads"] == active)

    def trace(self, name, *expected):
        ok = len(self.calls) == len(expected)
        self.v.oblige(name + ": number of calls", ok)
        if ok:
            for c, e in zip(self.calls, expected):
                self.v.oblige_eq(name, c, e)


class Head(object):
    """loops that only wait or try again: every iteration begins as the first one, but for what other threads changed"""
    def __init__(self, loop, locals_):
        w = self.w = W()
        self.objects = [w.s]
        self.entry = self.snapshot()

    def snapshot(self):
        w = self.w
        return w.lock.held, len(w.calls), len(w.started), len(w.failed), dict(w.delta)

    def resume(self):
        return self.snapshot()[:3] != self.entry[:3]

    def check(self, when, k):
        now = self.snapshot()
        w = self.w
        if w.lock.held:
            w.close()
        rt.oblige("%s: waiting changes no count" % when, z3.And([w.delta[c] == self.entry[4][c] for c in w.delta]))

    def havoc(self, k):
        if self.w.lock.held:
            self.w.refresh()

    def check_locals(self, when, l):
        if when == "initially":
            self.locals = l
        else:
            for n in self.locals:
                if n in l:
                    rt.oblige_eq("waiting changes no variable", l[n], self.locals[n])

    def havoc_locals(self, l):
        return l


# ---------------------------------------------------------------- library
class Thread(object):
    _vc_ghost = True

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, tuple(args), dict(kwargs or {})

    def start(self):
        w = W()
        if w.v.case("thread can not be started"):
            raise RuntimeError("can't start new thread")
        w.started.append(self)

    def setDaemon(self, d):
        pass


@rt.handler(threading.Thread)
def _thread(*a, **k):
    return NotImplemented if W() is None else Thread(*a, **k)


@rt.handler(threading.Lock)
def _lock():
    return NotImplemented if W() is None else Lock()


@rt.handler(time.sleep)
def _sleep(t):
    if W() is None:
        return NotImplemented
    rt.oblige("no waiting while the lock is held", not W().lock.held)


@rt.handler(traceback.print_exc)
def _print_exc(*a, **k):
    return NotImplemented if W() is None else None


class Pickled(object):
    _vc_ghost = True

    def __init__(self, obj):
        self.obj = obj


@rt.handler(pickle.dumps)
def _dumps(obj, *a, **k):
    w = W()
    if w is None:
        return NotImplemented
    w.may_fail("pickling", interrupts=False)
    return Pickled(obj)


@rt.handler(pickle.loads)
def _loads(obj, *a, **k):
    if W() is None:
        return NotImplemented
    return obj.obj


PROTECTED = ("_n_open_tasks", "_task_counter", "_task_exceptions", "_last_callable", "_last_callable_index", "_n_active_threads")


def guarded(self, name, value):
    w = W()
    if w is not None and name in PROTECTED:
        rt.oblige("%s changes only while the lock is held" % name, w.lock.held)
    self.__dict__[name] = value


class Base(SCH.Scheduler):
    __setattr__ = guarded


class Hooked(Base):
    """an arbitrary scheduler: _process_task releases the lock and may raise (contract of the hook)"""
    def _process_task(self, data, task_callable, task_index):
        w = W()
        rt.oblige("_process_task is entered with the lock", w.lock.held)
        w.calls.append(("process", data, task_callable, task_index))
        d = self.__dict__
        w.at_process = dict(d)
        rt.oblige("the task is open", term(d["_n_open_tasks"]) == w.pre["_n_open_tasks"] + 1)
        self._lock.release()
        w.may_fail("processing")


class Threads(TS.ThreadScheduler):
    __setattr__ = guarded


class Processes(PS.ProcessScheduler):
    __setattr__ = guarded


def run(f, *a, **k):
    """-> (kind, value), also of exceptions that are not Exceptions"""
    try:
        return "ok", f(*a, **k)
    except z3.Z3Exception as e:
        raise Unsupported("verifier: %s" % (e,))
    except rt.ANY as e:
        return "exc", e


# ---------------------------------------------------------------- adding tasks
@unit("add_task", [SM + "Scheduler.add_task", SM + "Scheduler.task_counter"])
def add_task(v):
    w = World(v, Hooked, extra=("callable",))
    data = Datum(P().fresh("data", I_))
    given = v.choose([None, Callable(P().fresh("callable", I_)), Function(P().fresh("function", I_))])
    w.given = given
    args = (data,) if given is None and v.case("callable not given") else (data, given)
    kind, r = run(w.s.add_task, *args)
    last0, index0, counter0 = w.state
    v.oblige("the lock is free", not w.lock.held)
    if given is None and last0 is None:
        v.oblige("a task without callable raises", kind == "exc" and isinstance(r, Exception))
        w.counts()
        w.trace("nothing is processed")
        return
    v.oblige("only processing may fail", kind == "ok" or (len(w.failed) == 1 and r is w.failed[0]))
    w.counts(opened=1, added=1)
    v.oblige("one task is processed", len(w.calls) == 1)
    _, d, c, i = w.calls[0]
    after = w.at_process
    v.oblige_eq("with its data", d, data)
    v.oblige_eq("the index is the position of the task", i, SInt(counter0 + 1))
    if given is None:
        v.oblige_eq("with the current callable", c, last0)
    elif isinstance(given, Callable):
        v.oblige_eq("with the given callable", c, given)
    else:
        v.oblige("a function is wrapped", isinstance(c, SCH.TaskCallable))
        v.oblige_eq("with the given function", c._callable, given)
        w.failures_possible = False
        w.calls = []
        v.oblige_eq("a fork of the wrapper calls the function", c.fork()(data), Value(f_result(given.idx, data.idx)))
        w.trace("the function is called once", ("call", given, data))
    v.oblige_eq("it is the current callable now", after["_last_callable"], c)
    # the callable index identifies the callable (ProcessScheduler)
    j = term(after["_last_callable_index"])
    if j.sort() == I_:
        j = z3.ToReal(j)
    cid = c.idx if isinstance(c, Ind) else P().fresh("wrapper", I_)
    v.oblige("the callable index is not used for another callable", z3.Implies(w.used(j), z3.BoolVal(False) if given is not None else f_used(j) == cid))
    v.oblige("used callable indices are at most the task counter", z3.And(z3.Implies(w.used(j), j > 0), j <= z3.ToReal(term(after["_task_counter"]))))


@unit("set_task_callable", [SM + "Scheduler.set_task_callable"])
def set_callable(v):
    w = World(v, Hooked, extra=("callable",))
    given = v.choose([None, Callable(P().fresh("callable", I_)), Function(P().fresh("function", I_))])
    w.given = given
    kind, r = run(w.s.set_task_callable, given)
    v.oblige("no exception", kind == "ok")
    w.counts()
    after = w.at_release
    c = after["_last_callable"]
    if isinstance(given, Function):
        v.oblige("a function is wrapped", isinstance(c, SCH.TaskCallable))
        v.oblige_eq("the given function", c._callable, given)
    else:
        v.oblige_eq("the callable is stored", c, given)
    j = term(after["_last_callable_index"])
    v.oblige("the callable index was not used", z3.Not(w.used(j)))
    v.oblige("the callable index is less than that of the next task", z3.And(j > z3.ToReal(w.state[2]), j < z3.ToReal(w.state[2] + 1)))


# ---------------------------------------------------------------- base scheduler
def executed(v, w, c, data, i, kind, r, raised=True):
    """the outcome of one task in the thread that executes it"""
    calls = [("fork", c), ("call", Fork(c.idx), data), ("store", Value(f_result(c.idx, data.idx)), i)]
    if not w.failed:
        v.oblige("no exception", kind == "ok")
        w.trace("forked, called and stored once, in this order", *calls)
    else:
        w.trace("at most once", *calls[:len(w.calls)])
        v.oblige("one failure", len(w.failed) == 1)
        if raised and len(w.calls) < 3:
            v.oblige("the exception of the task is raised", kind == "exc" and r is w.failed[0])
        else:
            v.oblige("no exception", kind == "ok")
            v.oblige_eq("the exception is kept for get_results", VList.of(w.kept), [w.failed[0]])
    if not w.failed:
        v.oblige_eq("no exception is kept", VList.of(w.kept), [])


@unit("base scheduler: _process_task", [SM + "Scheduler._process_task", SM + "Scheduler._store_result"])
def process(v):
    w = World(v, Base, held=True, own=1, extra=("exceptions",))
    c, data, i = Callable(P().fresh("callable", I_)), Datum(P().fresh("data", I_)), v.fresh_int("task_index", 1)
    kind, r = run(w.s._process_task, data, c, i)
    w.counts(opened=-1)
    executed(v, w, c, data, i, kind, r)


@unit("_store_exception", [SM + "Scheduler._store_exception"])
def store_exception(v):
    w = World(v, Base, own=1, extra=("exceptions",))
    e = Boom("task")
    kind, r = run(w.s._store_exception, e)
    v.oblige("no exception", kind == "ok")
    w.counts(opened=-1)
    v.oblige_eq("the exception is kept for get_results", VList.of(w.kept), [e])


@unit("get_results", [SM + "Scheduler.get_results"])
def get_results(v):
    w = World(v, Base, extra=("exceptions",))
    rt.hoare = [Head]
    raised = []
    kind, r = run(w.s.get_results)
    w.counts()
    w.trace("collected once", ("collect",))
    if w.failed:
        v.oblige("the exception of the container is raised", kind == "exc" and r is w.failed[0])
        return
    n = engine.segs_len(w.stored)
    if kind == "exc":
        # `raise` of a stored exception
        v.oblige("no other exception", getattr(r, "failure", None) is not None)
        v.oblige_eq("the first stored exception is raised", r.failure, engine.seq_at(w.stored, z3.IntVal(0)))
        v.oblige("an exception was stored", n > 0)
        v.oblige_eq("stored exceptions are raised once", w.at_release["_task_exceptions"], VList())
    else:
        v.oblige("no task failed", n == 0)
        v.oblige_eq("the collected results", r, w.collected)


# ---------------------------------------------------------------- result containers
def results(v):
    n = v.fresh_int("n_results", 0).t
    fr, fi = z3.Function(P().fresh_name("res"), I_, I_), z3.Function(P().fresh_name("task"), I_, I_)
    i, j = z3.Ints("ri rj")
    v.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), fi(i) != fi(j))))
    return n, fr, fi


@unit("ListResultContainer", [SM + "ListResultContainer.__init__", SM + "ListResultContainer.add_result", SM + "ListResultContainer.get_results"])
def list_container(v):
    c = SCH.ListResultContainer()
    v.oblige_eq("empty at first", c.get_results(), [])
    n, fr, fi = results(v)
    c._results = VList.of([Rep(n, lambda j: [Item(Value(fr(j)))])])
    new = Value(P().fresh("new", I_))
    c.add_result(new, v.fresh_int("index"))
    r = c.get_results()
    v.oblige_eq("all results in the order they came in", r, VList.of([Rep(n, lambda j: [Item(Value(fr(j)))]), Item(new)]))
    v.oblige_eq("the container is empty", c.get_results(), [])
    c.add_result(new, v.fresh_int("index"))
    v.oblige_eq("usable again, the collected list is not", c.get_results(), [new])
    v.oblige_eq("collected lists stay as they are", r, VList.of([Rep(n, lambda j: [Item(Value(fr(j)))]), Item(new)]))


@unit("OrderedResultContainer", [SM + "OrderedResultContainer.add_result", SM + "OrderedResultContainer.get_results"])
def ordered_container(v):
    """the elements are stored in the container's own representation: learned from two added results"""
    n, fr, fi = results(v)
    c = SCH.OrderedResultContainer()
    v.oblige_eq("empty at first", c.get_results(), [])
    # representation invariant: one entry per result, entry(result, index)
    probe = SCH.OrderedResultContainer()
    h, t = z3.Int(P().fresh_name("h")), z3.Int(P().fresh_name("t"))
    probe.add_result(Value(h), SInt(t))
    entry = probe._results[0]
    v.oblige("one entry for each result", len(probe._results) == 1)
    rep = lambda j: [Item(engine.v_subst(entry, [(h, fr(j)), (t, fi(j))]))]
    m = v.fresh_int("m", 0).t
    v.assume(m < n)
    c._results = VList.of([Rep(m, rep)])
    c.add_result(Value(fr(m)), SInt(fi(m)))
    v.oblige_eq("adding a result keeps the others", c._results, VList.of([Rep(m, rep), Item(rep(m)[0].v)]))
    c._results = VList.of([Rep(n, rep)])
    r = c.get_results()
    segs = list(engine.seq_segs(r))
    v.oblige("as many results as tasks", engine.segs_len(segs) == n)
    # every result appears, in the order of the tasks: the result at place j is that of task T(j), T increasing
    i, j = P().fresh("i", I_), P().fresh("j", I_)
    v.assume(z3.And(0 <= i, i < j, j < n))
    perm, inv = rt.last_sort
    at = lambda q: engine.seq_at(segs, q)
    v.oblige_eq("the result at a place is that of one task", at(j), Value(fr(perm(j))))
    v.oblige("the tasks are in the order they were added", fi(perm(i)) < fi(perm(j)))
    q = P().fresh("q", I_)
    v.assume(z3.And(0 <= q, q < n))
    v.oblige_eq("every result is returned", at(inv(q)), Value(fr(q)))
    v.oblige("at a place in the list", z3.And(0 <= inv(q), inv(q) < n))
    v.oblige_eq("the container is empty", c.get_results(), [])


@unit("lemma: increasing task indices of all tasks")
def all_tasks(v):
    """n different indices out of a+1 .. a+n in increasing order: place j belongs to task a+1+j (induction)"""
    n, a, T = v.fresh_int("n", 0).t, v.fresh_int("a", 0).t, z3.Function("T", I_, I_)
    i, j = z3.Ints("ti tj")
    v.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(a < T(j), T(j) <= a + n))))
    v.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), T(i) < T(j))))
    k = P().fresh("k", I_)
    v.oblige("lower bound, first", z3.Implies(0 < n, T(z3.IntVal(0)) >= a + 1))
    v.oblige("lower bound, step", z3.Implies(z3.And(0 <= k, k + 1 < n, T(k) >= a + 1 + k), T(k + 1) >= a + 2 + k))
    v.oblige("upper bound, last", z3.Implies(0 < n, T(n - 1) <= a + n))
    v.oblige("upper bound, step", z3.Implies(z3.And(0 <= k, k + 1 < n, T(k + 1) <= a + 2 + k), T(k) <= a + 1 + k))


# ---------------------------------------------------------------- threads
@unit("ThreadScheduler", [TM + "ThreadScheduler._process_task", TM + "ThreadScheduler._task_thread"])
def threads(v):
    cls = Threads
    s = cls.__new__(cls)
    w = World(v, cls, held=True, own=1, extra=("exceptions",))
    w.s.__dict__.update(_n_threads=v.fresh_int("n_threads", 1), copy_callable=v.case("copy_callable"))
    w.extra = ("exceptions", "active")
    w.refresh()
    rt.hoare = [Head]
    c, data, i = Callable(P().fresh("callable", I_)), Datum(P().fresh("data", I_)), v.fresh_int("task_index", 1)
    kind, r = run(w.s._process_task, data, c, i)
    if kind == "exc":
        v.oblige("only the callable raises", len(w.failed) == 1 and r is w.failed[0])
        v.oblige("no thread was started", not w.started)
        w.counts(opened=-1)
        return
    w.counts(active=1)
    v.oblige("nothing failed", not w.failed)
    v.oblige("one thread was started", len(w.started) == 1)
    w.active_own = 0
    t = w.started[0]
    kind, r = run(t.target, *t.args, **t.kwargs)
    w.counts(opened=-1)
    executed(v, w, c, data, i, kind, r, raised=False)


# ---------------------------------------------------------------- processes
class Stream(object):
    _vc_ghost = True

    def __init__(self, process):
        self.process = process

    def flush(self):
        p = self.process
        p.io("flush")
        p.unread += p.written
        p.written = []

    def write(self, *a):
        raise Unsupported("raw output to a slave process")


class Process(object):
    """a slave process; the invariant for free processes: the callable index -1, or that of the callable in its cache"""
    _vc_ghost = True

    def __init__(self, new=False):
        w = W()
        self.stdin, self.stdout = Stream(self), Stream(self)
        self.written, self.unread = [], []
        self.dead = self.broken = False
        self.executed = []
        if new:
            self.cached = None
            return
        self._callable_index = w.v.fresh_real("callable_index")
        self.cached = None if w.v.case("nothing cached") else Callable(P().fresh("cached", I_))
        w.v.assume(self.invariant())

    def invariant(self):
        i = term(self._callable_index)
        if i.sort() == I_:
            i = z3.ToReal(i)
        return z3.Or(i == -1, z3.BoolVal(False) if self.cached is None else f_used(i) == self.cached.idx)

    def io(self, what):
        w = W()
        if self.broken:
            raise BrokenPipeError()
        if w.v.case(what + " fails"):
            self.broken = True
            e = Boom(what)
            w.failed.append(e)
            raise e

    def kill(self):
        self.dead = True

    terminate = kill

    def wait(self, *a):
        pass

    def reply(self):
        w = W()
        rt.oblige("a result is awaited only after one task was sent", len(self.unread) == 1)
        msg = self.unread.pop()
        rt.oblige("a task is data, callable and index", isinstance(msg, tuple) and len(msg) == 3)
        data, c, i = msg
        if c is None:
            rt.oblige("no callable is sent only if the process has one", self.cached is not None)
            c = self.cached
        elif w.s._cache_callable:
            self.cached = c
        self.executed.append((c, data))
        w.calls.append(("executed", c, data))
        return Value(f_result(c.idx, data.idx))


class Pool(object):
    _vc_ghost = True

    def vc_len(self):
        return W().pool_n

    def __bool__(self):
        return P().branch(W().pool_n.t > 0)

    def pop(self, i=-1):
        w = W()
        rt.oblige("a process is taken while the lock is held", w.lock.held)
        if not self:
            raise IndexError("pop from empty list")
        w.taken += 1
        p = Process()
        w.popped.append(p)
        w.pool_n = SInt(w.pool_n.t - 1)
        return p

    def append(self, p):
        w = W()
        w.taken -= 1
        rt.oblige("only a working process is free", not p.dead and not p.broken and not p.written and not p.unread)
        rt.oblige("a free process has the callable of its index", p.invariant())
        w.pool_n = SInt(w.pool_n.t + 1)


@rt.handler(pickle.dump)
def _dump(obj, file, *a, **k):
    w = W()
    if w is None:
        return NotImplemented
    return file.dump(obj) if hasattr(file, "dump") else _dump_process(obj, file)


def _dump_process(obj, file):
    p = file.process
    p.io("sending")
    rt.oblige("sent to the input of the process", file is p.stdin)
    p.written.append(obj)


@rt.handler(pickle.load)
def _load(file, *a, **k):
    w = W()
    if w is None:
        return NotImplemented
    if hasattr(file, "load"):
        return file.load()
    p = file.process
    rt.oblige("read from the output of the process", file is p.stdout)
    p.io("executing")
    return p.reply()


@rt.handler(subprocess.Popen)
def _popen(*a, **k):
    w = W()
    if w is None:
        return NotImplemented
    w.popen.append((a, k))
    return Process(new=True)


@unit("ProcessScheduler", [PM + "ProcessScheduler._process_task", PM + "ProcessScheduler._task_thread", PM + "ProcessScheduler._start_process"])
def processes(v):
    w = World(v, Processes, held=True, own=1, extra=("exceptions",))
    w.taken, w.popped, w.popen = 0, [], []
    ARGS = object()
    w.s.__dict__.update(_free_processes=Pool(), _n_processes=v.fresh_int("n_processes", 1), _cache_callable=v.case("cache_callable"),
                        _process_args=ARGS)
    w.extra = ("exceptions", "pool")
    w.refresh()
    c, data, i = Callable(P().fresh("callable", I_)), Datum(P().fresh("data", I_)), v.fresh_int("task_index", 1)
    # add_task: the callable index of this task belongs to its callable
    ci = w.s.__dict__["_last_callable_index"].t
    v.assume(z3.And(ci > 0, f_used(ci) == c.idx))
    rt.hoare = [Head]
    kind, r = run(w.s._process_task, data, c, i)
    v.oblige("adding the task does not raise", kind == "ok")
    w.counts()
    v.oblige("one thread was started", len(w.started) == 1)
    t = w.started[0]
    kind, r = run(t.target, *t.args, **t.kwargs)
    v.oblige("no exception in the thread", kind == "ok")
    w.counts(opened=-1)
    v.oblige("the number of processes is the same", w.taken == 0)
    result = Value(f_result(c.idx, data.idx))
    calls = [("executed", c, data), ("store", result, i)]
    if not w.failed:
        w.trace("executed with its own callable and stored, once", *calls)
        v.oblige_eq("no exception is kept", VList.of(w.kept), [])
        v.oblige("no process is replaced", not w.popen)
    else:
        w.trace("at most once", *calls[:len(w.calls)])
        if len(w.calls) == 2:
            v.oblige_eq("the exception is kept for get_results", VList.of(w.kept), [w.failed[0]])
        else:
            v.oblige("the process is replaced", len(w.popped) == 1 and w.popped[0].dead and len(w.popen) == 1)
            v.oblige("one exception is kept for get_results", len(w.kept) == 1 and isinstance(w.kept[0], Item))
            v.oblige("which is an exception", isinstance(w.kept[0].v, Exception))


class PipeIn(object):
    """standard input of the slave process: tasks as sent by the scheduler"""
    _vc_ghost = True

    def load(self):
        w = W()
        v = w.v
        w.begin()
        kind = v.choose(["task", "EXIT", "broken"])
        if kind == "EXIT":
            w.exit = True
            return "EXIT"
        if kind == "broken":
            w.failed.append(Boom("unpickling"))
            raise w.failed[-1]
        w.data = Datum(P().fresh("data", I_))
        if w.cached is not None and v.case("callable in the cache"):
            c = None
            w.current = w.cached
        else:
            c = w.current = Callable(P().fresh("callable", I_))
            if w.caching:
                w.cached = c
        w.sent = c
        return (w.data, c, v.fresh_int("task_index", 1))


class PipeOut(object):
    _vc_ghost = True

    def dump(self, obj):
        w = W()
        w.may_fail("writing", interrupts=False)
        w.calls.append(("reply", obj))

    def flush(self):
        W().calls.append(("flush",))


class StdStream(object):
    _vc_ghost = True

    def __init__(self, buffer):
        self.buffer = buffer

    def flush(self):
        pass


class Sys(object):
    _vc_ghost = True

    def __init__(self):
        self.stdin, self.stdout, self.stderr = StdStream(PipeIn()), StdStream(PipeOut()), StdStream(None)

    def exit(self, *a):
        raise SystemExit(*a)


class Slave(object):
    """invariant of the slave's loop: its cache is the callable sent last"""
    def __init__(self, loop, locals_):
        self.objects = []

    def check(self, when, k):
        w = W()
        if when == "initially":
            return
        expected = ([("setup", w.current)] if w.sent is not None else []) + [
            ("fork", w.current), ("call", Fork(w.current.idx), w.data), ("reply", Value(f_result(w.current.idx, w.data.idx))), ("flush",)]
        w.trace("a task is executed once by a fork of its callable, its result is sent once", *expected)
        rt.oblige("no failure is ignored", not w.failed)

    def havoc(self, k):
        w = W()
        w.cached = None
        if w.caching and w.v.case("something was cached"):
            w.cached = Callable(P().fresh("cached", I_))

    def resume(self):
        return W().exit

    def check_locals(self, when, l):
        if when == "initially":
            self.first = l
            rt.oblige("nothing is cached at first", all(x is None or x is False for x in l.values()))
        else:
            for n in self.first:
                x = l.get(n)
                if self.first[n] is None:
                    rt.oblige_eq("the cache is the callable sent last", x, W().cached)
                else:
                    rt.oblige_eq("the loop goes on", x, self.first[n])

    def havoc_locals(self, l):
        return {n: W().cached if self.first[n] is None else l[n] for n in self.first}


class SlaveWorld(World):
    def __init__(self, v):
        P().globals["schedulers"] = self
        self.v = v
        self.caching = v.case("cache_callable")
        self.cached = None
        self.failures_possible = True
        self.lock = Lock()
        self.begin()

    def begin(self):
        self.calls, self.failed = [], []
        self.exit = False
        self.sent = self.current = self.data = None


@unit("slave process", [PM + "_process_run"])
def slave(v):
    w = SlaveWorld(v)
    rt.hoare = [Slave]
    with Patched(PS, sys=Sys()):
        kind, r = run(PS._process_run, cache_callable=w.caching)
    if w.exit:
        v.oblige("ends when told to", kind == "ok")
        w.trace("without reply")
    else:
        v.oblige("otherwise only after a failure", len(w.failed) >= 1)
        v.oblige("the process ends", kind == "exc" and isinstance(r, SystemExit) or isinstance(r, KeyboardInterrupt))
        v.oblige("without a reply", not [c for c in w.calls if c[0] == "reply"])


# ---------------------------------------------------------------- construction and shutdown
class InitWorld(World):
    def __init__(self, v):
        P().globals["schedulers"] = self
        self.v = v
        self.calls, self.failed, self.extra = [], [], ()
        self.lock = Lock(held=True)     # nobody else knows the scheduler yet


class NewProcess(Ind):
    """the processes started by the constructor, in this order"""
    family = "new process"

    def __setattr__(self, name, value):
        w = W()
        rt.oblige("a new process has no callable index", z3.And(z3.BoolVal(name == "_callable_index"), term(value) == -1))
        rt.oblige_eq("set for each process", wrap(self.idx), wrap(term(w.tagged.v)))
        w.tagged.v = w.tagged.v + 1


def fresh_scheduler(v, w, s, container):
    d = s.__dict__
    v.oblige("no open tasks", d["_n_open_tasks"] == 0)
    v.oblige("no tasks", d["_task_counter"] == 0 and s.task_counter == 0 and s.n_open_tasks == 0)
    v.oblige("the lock is free", isinstance(d["_lock"], Lock) and not d["_lock"].held and d["_lock"] is not w.lock)
    v.oblige("no callable, with an index no task uses", d["_last_callable"] is None and d["_last_callable_index"] <= 0)
    v.oblige("no exception is kept", len(d["_task_exceptions"]) == 0)
    if container is None:
        v.oblige("results are ordered by default", type(d["result_container"]) is SCH.OrderedResultContainer)
        v.oblige("a new container", len(d["result_container"].get_results()) == 0)
    else:
        v.oblige("the given container", d["result_container"] is container)


@unit("Scheduler: construction", [SM + "Scheduler.__init__", SM + "Scheduler.task_counter", SM + "Scheduler.n_open_tasks",
                                  SM + "OrderedResultContainer.__init__"])
def init_base(v):
    w = InitWorld(v)
    container = v.choose([None, Container()])
    fresh_scheduler(v, w, Base(container, v.case("verbose")), container)


@unit("ThreadScheduler: construction", [TM + "ThreadScheduler.__init__"])
def init_threads(v):
    w = InitWorld(v)
    container = v.choose([None, Container()])
    n = v.choose([None, v.fresh_int("n_threads", 1)])
    copy = v.case("copy_callable")
    s = Threads(container, v.case("verbose"), n, copy)
    fresh_scheduler(v, w, s, container)
    v.oblige("at least one thread", term(s.__dict__["_n_threads"]) >= 1)
    if n is not None:
        v.oblige_eq("the given number of threads", s._n_threads, n)
    v.oblige("no active thread", s.__dict__["_n_active_threads"] == 0)
    v.oblige("copies as requested", s.copy_callable == copy)


class PopenWorld(InitWorld):
    def __init__(self, v):
        InitWorld.__init__(self, v)
        self.popen = self
        self.created, self.tagged = Cell(0), Cell(0)
        self.args = []

    def append(self, call):
        self.args.append(call)


@unit("ProcessScheduler: construction", [PM + "ProcessScheduler.__init__", PM + "ProcessScheduler._start_process"])
def init_processes(v):
    w = PopenWorld(v)
    old = rt.handlers[subprocess.Popen]

    def popen(args, stdout=None, stdin=None):
        rt.oblige("pipes to the process", stdout == subprocess.PIPE and stdin == subprocess.PIPE)
        rt.oblige("the process runs this module with the caching flag",
                  args[0] == EXE and args[1] == "-u" and args[2].endswith("process_schedule.py") and args[3] == str(cache))
        rt.oblige("source paths", list(args[4:]) == PATHS)
        p = NewProcess(term(w.created.v))
        w.created.v = w.created.v + 1
        return p
    EXE = v.choose([None, "/some/python"])
    given = EXE
    EXE = EXE or sys.executable
    paths = v.choose([None, "/a/path", ["/a/path", "/b"]])
    PATHS = list(sys.path) if paths is None else [paths] if isinstance(paths, str) else paths
    cache = v.case("cache_callable")
    container = v.choose([None, Container()])
    n = v.choose([None, v.fresh_int("n_processes", 1)])
    rt.handlers[subprocess.Popen] = popen
    try:
        s = Processes(container, v.case("verbose"), n, paths, given, cache)
    finally:
        rt.handlers[subprocess.Popen] = old
    fresh_scheduler(v, w, s, container)
    d = s.__dict__
    v.oblige("at least one process", term(d["_n_processes"]) >= 1)
    if n is not None:
        v.oblige_eq("the given number of processes", d["_n_processes"], n)
    v.oblige("caching as requested", d["_cache_callable"] == cache)
    v.oblige_eq("all processes are free", d["_free_processes"], VList.of([Rep(term(d["_n_processes"]), lambda j: [Item(NewProcess(j))])]))
    v.oblige("all were started with an empty cache", term(w.tagged.v) == term(d["_n_processes"]))


class FreeProcess(Ind):
    family = "free process"

    @property
    def stdin(self):
        return InPipe(self.idx)


class InPipe(Ind):
    family = "pipe"

    def dump(self, obj):
        W().told.append((wrap(self.idx), obj))

    def flush(self):
        W().told.append((wrap(self.idx), "flush"))


@unit("ProcessScheduler: shutdown", [PM + "ProcessScheduler._shutdown", SM + "Scheduler.shutdown", SM + "Scheduler.__exit__", SM + "Scheduler.__enter__"])
def shut_down(v):
    w = World(v, Processes, extra=("exceptions",))
    n, m = v.fresh_int("n_processes", 1), v.fresh_int("n_free", 0)
    f = z3.Function(P().fresh_name("free"), I_, I_)
    v.assume(m.t <= n.t)
    pool = VList.of([Rep(m.t, lambda j: [Item(FreeProcess(f(j)))])])
    w.s.__dict__.update(_free_processes=pool, _n_processes=n)
    w.told = VList()
    if v.case("as a context manager"):
        def f_():
            with w.s as s:
                v.oblige("the scheduler itself", s is w.s)
        kind, r = run(f_)
    else:
        kind, r = run(w.s.shutdown)
    w.counts()
    v.oblige("a running task is refused", z3.BoolVal(kind == "exc") == (m.t < n.t))
    if kind == "ok":
        v.oblige_eq("every process is told to exit", w.told, VList.of([Rep(m.t, lambda j: [
            Item((wrap(f(j)), "EXIT")), Item((wrap(f(j)), "flush"))])]))
    else:
        v.oblige("an exception", isinstance(r, Exception))
        v.oblige_eq("no process is told to exit", w.told, [])
