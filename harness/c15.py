"""C15 on the real schedulers."""
import os
import shutil
import tempfile
import threading
import time
import mdp
from mdp import parallel as MP
from .base import *
from .c15_tasks import Work, TaskError, double
from mdp.parallel import scheduling as SCH, thread_schedule as TS, process_schedule as PS


class FastTime(object):
    def __getattr__(self, n):
        return getattr(time, n)

    def sleep(self, t):
        time.sleep(min(t, 0.005))


for m in (SCH, TS, PS):
    if hasattr(m, "time"):
        m.time = FastTime()


def limited(f, seconds=40, what="the call"):
    """f() in a thread, which must end in time"""
    out = []

    def body():
        try:
            out.append(("ok", f()))
        except BaseException as e:
            out.append(("exc", e))
    t = threading.Thread(target=body)
    t.daemon = True
    t.start()
    t.join(seconds)
    check(not t.is_alive(), "%s did not return: the scheduler is blocked", what)
    return out[0]


def lock_free(s):
    ok = s._lock.acquire(timeout=20)
    check(ok, "the scheduler is left locked")
    s._lock.release()


class Log(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="c15_")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def lines(self):
        try:
            with open(os.path.join(self.dir, "log")) as f:
                return sorted(f.read().split("\n")[:-1])
        except IOError:
            return []


def session(rng, s, log, note, steps, ordered=True, fails=("exception",), direct=False, functions=True):
    """random tasks, callables and collections, compared with the specification"""
    current, n, expected, done, failed, last = None, 0, [], [], 0, None
    trace = []
    note(steps=trace)
    for _ in range(steps):
        op = rng.choice(["add", "add", "add", "add", "set", "collect", "none"] + ["again"] * 2 * (last is not None))
        if op == "set":
            f = rng.choice([2, 3, 5])
            current = rng.choice([None] + [("work", f)] * 3 + ([("function", 2)] if functions else []))
            trace.append(("set_task_callable", current))
            s.set_task_callable(make(current, log))
            last = None
        elif op in ("collect", "again"):
            trace.append(("get_results",))
            collect(s, expected, failed and not direct, ordered)
            check(log.lines() == sorted(done), "executed tasks: %s, instead of %s", log.lines(), sorted(done))
            expected, failed = [], 0
            if op == "again":
                # a callable that was changed since it was given for the last time
                last.factor, n = last.factor + rng.choice([0, 1, 10]), n + 1
                current, data = ("work", last.factor), (n, rng.randrange(100), 0, None)
                trace.append(("add_task", data, "the last callable, changed to", last.factor))
                k, e = limited(lambda: s.add_task(data, last), what="add_task")
                check(k == "ok", "add_task raised %r", e)
                done.append("%s %s" % (n, last.factor))
                expected.append(last.factor * data[1])
        else:
            given = None if op == "none" else ("function", 2) if functions and rng.random() < 0.2 else ("work", rng.choice([2, 3, 5, 7]))
            which = given or current
            if which is None:
                trace.append(("add_task without callable",))
                k, e = limited(lambda: s.add_task((n, 1, 0, None)), what="add_task")
                check(k == "exc" and isinstance(e, Exception), "add_task without callable returned")
            else:
                n += 1
                fail = rng.choice(fails) if which[0] == "work" and rng.random() < 0.15 else None
                data = (n, rng.randrange(100), rng.choice([0, 0, 0.01]), fail)
                trace.append(("add_task", data, given))
                before = s.task_counter
                obj = make(given, log)
                last = obj if given and given[0] == "work" else last if not given else None
                k, e = limited((lambda: s.add_task(data, obj)) if given else (lambda: s.add_task(data)), what="add_task")
                current = which
                if which[0] == "work":
                    done.append("%s %s" % (n, which[1]))
                if fail and direct:
                    check(k == "exc" and isinstance(e, (TaskError, SystemExit)), "the exception of a task was not raised: %r", e)
                else:
                    check(k == "ok", "add_task raised %r", e)
                check(s.task_counter == before + 1, "task counter %s after %s", s.task_counter, before)
                if fail:
                    failed += 1
                else:
                    expected.append(which[1] * data[1])
                if direct:
                    check(s.n_open_tasks == 0, "%s open tasks", s.n_open_tasks)
        lock_free(s)
    trace.append(("get_results",))
    collect(s, expected, failed and not direct, ordered)
    check(log.lines() == sorted(done), "executed tasks: %s, instead of %s", log.lines(), sorted(done))
    collect(s, [], 0, ordered)
    lock_free(s)


def make(which, log):
    if which is None:
        return None
    return double if which[0] == "function" else Work(which[1], log.dir)


def collect(s, expected, failed, ordered):
    k, r = limited(s.get_results, what="get_results")
    if failed:
        check(k == "exc", "%s failed tasks, but get_results returned %r", failed, r)
        # what is still stored is dropped or kept, but complete: nothing is left open
        check(limited(s.get_results, what="get_results")[0] == "ok", "the exception is raised twice")
    else:
        check(k == "ok", "get_results raised %r", r)
        if ordered:
            check(list(r) == expected, "results %s, instead of %s", r, expected)
        else:
            check(sorted(r) == sorted(expected), "results %s, instead of %s", r, expected)
    check(s.n_open_tasks == 0, "%s open tasks after get_results", s.n_open_tasks)
    lock_free(s)


@scenario("base_scheduler", n=60, thorough=10)
def base_scheduler(rng, note):
    ordered = rng.random() < 0.7
    with Log() as log:
        session(rng, MP.Scheduler(None if ordered else MP.ListResultContainer()), log, note, rng.randrange(1, 25), ordered, direct=True,
                fails=("exception", "exit"))


@scenario("thread_scheduler", n=12, thorough=15)
def thread_scheduler(rng, note):
    ordered = rng.random() < 0.7
    with Log() as log:
        n, copy = rng.choice([1, 2, 3, 6]), rng.random() < 0.5
        note(n_threads=n, copy_callable=copy)
        s = MP.ThreadScheduler(None if ordered else MP.ListResultContainer(), n_threads=n, copy_callable=copy)
        session(rng, s, log, note, rng.randrange(1, 20), ordered, fails=("exception", "exit"))
        s.shutdown()


@scenario("process_scheduler", n=3, thorough=12)
def process_scheduler(rng, note):
    ordered = rng.random() < 0.7
    with Log() as log:
        n, cache = rng.choice([1, 2, 3]), rng.random() < 0.6
        note(n_processes=n, cache_callable=cache)
        s = MP.ProcessScheduler(None if ordered else MP.ListResultContainer(), n_processes=n, cache_callable=cache)
        session(rng, s, log, note, rng.randrange(8, 25), ordered, fails=("exception", "exit", "unpicklable"))
        k, e = limited(s.shutdown, what="shutdown")
        check(k == "ok", "shutdown raised %r", e)


@scenario("containers", n=60, thorough=10)
def containers(rng, note):
    n = rng.choice([0, 1, 2, 5, 30])
    order = list(range(1, n + 1))
    rng.shuffle(order)
    note(order=order)
    c = MP.OrderedResultContainer()
    l = MP.ListResultContainer()
    for _ in range(2):
        for i in order:
            # results that can not be compared
            c.add_result({"task": i}, i)
            l.add_result({"task": i}, i)
        check([r["task"] for r in c.get_results()] == sorted(order), "wrong order")
        check([r["task"] for r in l.get_results()] == order, "not the order of arrival")
        check(list(c.get_results()) == [] and list(l.get_results()) == [], "the container is not empty")
        kept = l.get_results()
        l.add_result(1, 1)
        check(list(kept) == [], "a collected list changes")
        l.get_results()


class Gated(MP.TaskCallable):
    def __call__(self, data):
        started, gate, value, fails = data
        started.set()
        if not gate.wait(30):
            return "timeout"
        if fails:
            raise TaskError(value)
        return value


@scenario("completion_order", n=15, thorough=12)
def completion_order(rng, note):
    """tasks finish in a chosen order; counts and blocking in between"""
    n = rng.randrange(1, 6)
    order = list(range(n))
    rng.shuffle(order)
    fails = set(i for i in range(n) if rng.random() < 0.15)
    note(n=n, order=order, fails=fails)
    s = MP.ThreadScheduler(n_threads=n)
    gates = [(threading.Event(), threading.Event()) for _ in range(n)]
    for i, (a, b) in enumerate(gates):
        limited(lambda: s.add_task((a, b, i, i in fails), Gated() if i == 0 or rng.random() < 0.5 else None), what="add_task")
    for a, b in gates:
        check(a.wait(30), "a task was not started")
    check(s.n_open_tasks == n and s.task_counter == n, "%s open of %s tasks", s.n_open_tasks, s.task_counter)
    out = []
    t = threading.Thread(target=lambda: out.append(attempt(s.get_results)))
    t.daemon = True
    t.start()
    for k, i in enumerate(order):
        check(t.is_alive() and not out, "get_results returned although tasks are open")
        gates[i][1].set()
        left = n - k - 1
        end = time.time() + 20
        while s.n_open_tasks != left and time.time() < end:
            time.sleep(0.0005)
        check(s.n_open_tasks == left, "%s open tasks instead of %s", s.n_open_tasks, left)
    t.join(30)
    check(not t.is_alive(), "get_results did not return")
    if fails:
        check(out[0][0] == "exc" and isinstance(out[0][1], TaskError), "the failure of a task is not reported: %r", out[0])
    else:
        check(out[0] == ("ok", list(range(n))), "results %r", out[0])


def attempt(f):
    try:
        return "ok", f()
    except BaseException as e:
        return "exc", e


class BadContainer(MP.ListResultContainer):
    def __init__(self, bad_add, bad_get):
        MP.ListResultContainer.__init__(self)
        self.bad_add, self.bad_get = bad_add, bad_get

    def add_result(self, result, task_index):
        if task_index == self.bad_add:
            raise TaskError("container")
        MP.ListResultContainer.add_result(self, result, task_index)

    def get_results(self):
        if self.bad_get:
            self.bad_get -= 1
            raise TaskError("collecting")
        return MP.ListResultContainer.get_results(self)


@scenario("failing_container", n=12, thorough=10)
def failing_container(rng, note):
    kind = rng.choice(["base", "threads"])
    n, bad, get = rng.randrange(1, 5), rng.randrange(0, 5), rng.choice([0, 1])
    note(kind=kind, n=n, bad=bad, get=get)
    c = BadContainer(bad, get)
    s = MP.Scheduler(c) if kind == "base" else MP.ThreadScheduler(c, n_threads=2)
    raised = 0
    for i in range(n):
        k, e = limited(lambda: s.add_task(i, lambda x: x) if kind == "base" else s.add_task(i, MP.TaskCallable()), what="add_task")
        raised += k == "exc"
    r = [limited(s.get_results, what="get_results") for _ in range(3)]
    check(r[2] == ("ok", []), "the container can not be used any more: %r", r)
    if 1 <= bad <= n:
        check(raised or any(k == "exc" for k, _ in r[:1 + get]), "a result was lost silently: %r", r)
    check(s.n_open_tasks == 0, "%s open tasks", s.n_open_tasks)
    lock_free(s)


class Tag(MP.TaskCallable):
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, data):
        time.sleep(data)
        return self.tag


@scenario("callable_replaced_while_waiting", n=2, thorough=8)
def replaced(rng, note):
    """a task keeps its callable although the current callable changes while it waits for a process"""
    from .c15_tasks import Work
    kind = rng.choice(["process", "process", "threads"])
    note(kind=kind)
    with Log() as log:
        s = MP.ProcessScheduler(n_processes=1) if kind == "process" else MP.ThreadScheduler(n_threads=1)
        try:
            limited(lambda: s.add_task((1, 1, 0.3, None), Work(2, log.dir)))
            t = threading.Thread(target=lambda: s.add_task((2, 1, 0, None), Work(3, log.dir)))
            t.start()
            time.sleep(0.1)
            limited(lambda: s.set_task_callable(Work(5, log.dir)), what="set_task_callable")
            t.join(30)
            check(not t.is_alive(), "add_task did not return")
            limited(lambda: s.add_task((3, 1, 0, None)), what="add_task")
            limited(lambda: s.add_task((4, 1, 0, None)), what="add_task")
            k, r = limited(s.get_results, what="get_results")
            check((k, r) == ("ok", [2, 3, 5, 5]), "results %r %r", k, r)
        finally:
            limited(s.shutdown, what="shutdown")


@scenario("shutdown", n=4, thorough=6)
def shutdown(rng, note):
    with Log() as log:
        with MP.ProcessScheduler(n_processes=2) as s:
            limited(lambda: s.add_task((1, 1, 0.5, None), Work(2, log.dir)))
            k, e = limited(s.shutdown, what="shutdown")
            check(k == "exc", "shutdown with a running task returned")
            lock_free(s)
            check(limited(s.get_results) == ("ok", [2]), "the task was lost")
            free = s._free_processes if hasattr(s, "_free_processes") else []
            free = list(free)
        for p in free:
            check(p.wait(20) == 0, "a slave process did not end")


@scenario("threads_in_parallel", n=3, thorough=10)
def stress(rng, note):
    """several threads add tasks; every task is executed once and the counts are right"""
    with Log() as log:
        s = MP.ThreadScheduler(MP.ListResultContainer(), n_threads=4, copy_callable=False)
        m, per = 4, 12
        guard, running, most = threading.Lock(), [0], [0]

        class Count(MP.TaskCallable):
            def __call__(self, data):
                with guard:
                    running[0] += 1
                    most[0] = max(most[0], running[0])
                time.sleep(0.002)
                with guard:
                    running[0] -= 1
                return data
        note(adders=m, tasks=per)

        def add(a):
            for i in range(per):
                s.add_task(a * per + i, Count())
        ts = [threading.Thread(target=add, args=(a,)) for a in range(m)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
            check(not t.is_alive(), "add_task did not return")
        k, r = limited(s.get_results, what="get_results")
        check(k == "ok" and sorted(r) == list(range(m * per)), "results %r", r)
        check(most[0] <= 4, "%s threads at the same time instead of 4", most[0])
        check(s.task_counter == m * per and s.n_open_tasks == 0, "counts %s %s", s.task_counter, s.n_open_tasks)
        end = time.time() + 20
        while s._n_active_threads and time.time() < end:
            time.sleep(0.001)
        check(s._n_active_threads == 0, "%s active threads", s._n_active_threads)
