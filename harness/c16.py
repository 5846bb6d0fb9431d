"""C16 on the real parallel flows and nodes."""
import copy
import numpy as np
import mdp
from mdp import parallel as MP
from .base import *


class FastTime(object):
    def __init__(self, m):
        self.m = m

    def __getattr__(self, n):
        return getattr(self.m, n)

    def sleep(self, t):
        self.m.sleep(min(t, 0.003))


from mdp.parallel import scheduling as SCH, thread_schedule as TS
for m in (SCH, TS):
    if hasattr(m, "time"):
        m.time = FastTime(m.time)


# ---- nodes whose statistics are the rows they have seen

class Rows(mdp.Node):
    """collects, per phase, the rows it is trained with; the output depends on all of them"""
    def __init__(self, name=0, phases=1, trainable=True, input_dim=None, output_dim=None, dtype=None):
        self.name, self.phases, self.trainable = name, phases, trainable
        self.seen = {}
        self.chunks = 0
        self.stopped = 0
        self.bias = None
        super(Rows, self).__init__(input_dim, output_dim, dtype)

    def is_trainable(self):
        return self.trainable

    def _get_train_seq(self):
        return [(lambda x, *a, p=p: self._t(p, x, *a), lambda *a, p=p: self._s(p)) for p in range(self.phases)]

    def __getstate__(self):
        d = dict(self.__dict__)
        d.pop("_train_seq", None)
        return d

    def _t(self, p, x, *a):
        self.chunks += 1
        self.seen.setdefault(p, []).extend([(tuple(r), tuple(float(np.asarray(v).ravel()[i]) for v in a)) for i, r in enumerate(np.array(x).tolist())])

    def _s(self, p):
        self.stopped += 1
        self.bias = digest(self.seen)

    def _execute(self, x):
        return x * 0.5 + (self.bias or 0.) + self.name


def digest(seen):
    return round(sum(sum(r) + sum(a) for p in seen for r, a in seen[p]) % 7., 6)


class ParRows(Rows):
    pass


class ParallelRows(MP.ParallelExtensionNode, ParRows):
    def _fork(self):
        n = self.copy()
        n.seen = {}
        n.chunks = 0
        return n

    def _join(self, forked):
        for p in forked.seen:
            self.seen.setdefault(p, []).extend(forked.seen[p])
        self.chunks += forked.chunks


class HalfRows(Rows):
    """only even phases can be forked"""


class ParallelHalfRows(MP.ParallelExtensionNode, HalfRows):
    def _fork(self):
        if self.get_current_train_phase() % 2:
            raise MP.NotForkableParallelException("odd phase")
        return ParallelRows.__dict__["_fork"](self)

    def _join(self, forked):
        for p in forked.seen:
            self.seen.setdefault(p, []).extend(forked.seen[p])
        self.chunks += forked.chunks


class Count(mdp.Node):
    """not trainable, counts what it executes"""
    def __init__(self, input_dim=None, output_dim=None, dtype=None):
        self.rows = 0.
        self.n = 0
        super(Count, self).__init__(input_dim, output_dim, dtype)

    def is_trainable(self):
        return False

    def _execute(self, x):
        self.n += len(x)
        self.rows += float(np.sum(x))
        return x + 1


class ParallelCount(MP.ParallelExtensionNode, Count):
    @staticmethod
    def use_execute_fork():
        return True

    def _fork(self):
        return self._default_fork()

    def _join(self, forked):
        self.n += forked.n
        self.rows += forked.rows


class Shuffled(MP.Scheduler):
    """collects the tasks, runs them in any order when the results are asked for, and hands out the
    results in any order"""
    def __init__(self, rng, verbose=False):
        super(Shuffled, self).__init__(verbose=verbose)
        self.rng, self.todo, self.down = rng, [], 0

    def _process_task(self, data, task_callable, task_index):
        self._lock.release()
        self.todo.append((data, task_callable, task_index))

    def get_results(self):
        todo, self.todo = self.todo, []
        self.rng.shuffle(todo)
        out = []
        fail = None
        for data, c, i in todo:
            try:
                out.append((c.fork()(data), i))
            except Exception as e:
                fail = e
                self._n_open_tasks -= 1
        self.rng.shuffle(out)
        for r, i in out:
            self._store_result(r, i)
        if fail is not None:
            self.result_container.get_results()
            raise fail
        return super(Shuffled, self).get_results()

    def _shutdown(self):
        self.down += 1


class CountDown(MP.Scheduler):
    down = 0

    def _shutdown(self):
        self.down += 1


def scheduler(rng):
    k = rng.randrange(3)
    return MP.Scheduler() if k == 0 else MP.ThreadScheduler(n_threads=rng.randint(1, 3)) if k == 1 else Shuffled(rng)


def chunks(rng, dim, n=None):
    n = n or rng.randint(1, 5)
    return [np.array([[rng.randint(-9, 9) for _ in range(dim)] for _ in range(rng.randint(1, 4))], "d") for _ in range(n)]


def row_node(rng, i):
    k = rng.randrange(6)
    if k == 0:
        return Count()
    cls = rng.choice([Rows, ParRows, ParRows, HalfRows])
    n = cls(i, rng.choice([1, 1, 2, 3]))
    if rng.random() < .2:
        return mdp.hinet.FlowNode(mdp.Flow([n, rng.choice([ParRows, Rows])(i + 10, rng.choice([1, 2]))]))
    return n


def settle(a, b, dim):
    """close the last open phase (mdp.Flow leaves it open) and set all dimensions"""
    for f in (a, b):
        mdp.Flow(list(f)).execute(np.zeros((1, dim)))


def seen(n):
    """what the node was trained with"""
    if isinstance(n, mdp.hinet.FlowNode):
        return tuple(seen(m) for m in n.flow)
    return (n.name, {p: sorted(r) for p, r in n.seen.items()}) if isinstance(n, Rows) else None


def state(n):
    if isinstance(n, Rows):
        return ("rows", n.name, {p: sorted(r) for p, r in n.seen.items()}, n.bias, n.stopped, n.is_training(), n.get_current_train_phase(), n.input_dim, n.output_dim, str(n.dtype))
    if isinstance(n, Count):
        return ("count", n.input_dim, n.output_dim)
    if isinstance(n, mdp.hinet.FlowNode):
        return tuple(state(m) for m in n.flow) + (n.is_training(), n.input_dim, n.output_dim)
    return tuple(state(m) for m in n.nodes) + (n.is_training(), n.input_dim, n.output_dim)


def pretrain(rng, nodes, x):
    """some leading nodes may be trained, one may be in the middle of its training"""
    k = rng.randrange(len(nodes) + 1) if rng.random() < .4 else 0
    for n in nodes[:k]:
        if n.is_training():
            while n.is_training():
                n.train(x)
                n.stop_training()
        x = n.execute(x)
    if k < len(nodes) and rng.random() < .3 and nodes[k].is_training():
        nodes[k].train(x)
        if rng.random() < .5:
            nodes[k].stop_training()
            if nodes[k].is_training() and rng.random() < .5:
                nodes[k].train(x)
    return k


@scenario("training_equals_sequential", n=120, thorough=12)
def _(rng, note):
    dim = rng.randint(1, 3)
    nodes = [row_node(rng, i) for i in range(rng.randint(1, 4))]
    k = pretrain(rng, nodes, chunks(rng, dim, 1)[0])
    a, b = copy.deepcopy(nodes), copy.deepcopy(nodes)
    labels = rng.random() < .3
    data = []
    for n in nodes:
        c = chunks(rng, dim)
        if labels and not isinstance(n, mdp.hinet.FlowNode):
            lab = [np.array([float(rng.randint(0, 2)) for _ in x]) for x in c]
            c = [rng.choice([tuple, list])([x, l]) for x, l in zip(c, lab)]
        elif rng.random() < .1:
            class Sub(np.ndarray):
                pass
            c = [x.view(Sub) for x in c]
        data.append(c)
    one = rng.random() < .15 and not labels
    if one:
        data = chunks(rng, dim, 1)[0]
    s = scheduler(rng)
    note(nodes=[type(n).__name__ for n in nodes], trained=k, scheduler=type(s).__name__, labels=labels, chunks=1 if one else [len(c) for c in data])
    mdp.Flow(a).train(data)
    f = MP.ParallelFlow(b)
    f.train(data, scheduler=s)
    check(not f.is_parallel_training and not f.task_available, "the flow is still training")
    settle(a, b, dim)
    for i, (p, q) in enumerate(zip(a, b)):
        check(state(p) == state(q), "node %d was trained with other data: sequential %r, parallel %r", i, state(p), state(q))
        if isinstance(p, Rows):
            check(p.chunks == q.chunks, "node %d: %d chunks of data, not %d", i, q.chunks, p.chunks)
    s.shutdown()


@scenario("execution_equals_sequential", n=150, thorough=12)
def _(rng, note):
    dim = rng.randint(1, 3)
    nodes = [row_node(rng, i) for i in range(rng.randint(1, 4))]
    state_ = rng.choice(["trained", "trained", "open", "untrained"])
    x = chunks(rng, dim, 1)[0]
    if state_ != "untrained":
        mdp.Flow(nodes).train([[x] * (2 if isinstance(n, mdp.hinet.FlowNode) else 1) for n in nodes])
    if state_ == "open":
        last = rng.choice([ParRows, Rows, HalfRows])(7, 1)
        last.train(x)
        nodes = nodes + [last] + ([rng.choice([Rows, ParRows])(8)] if rng.random() < .3 else [])
    nodenr = rng.choice([None, None] + list(range(len(nodes))))
    if state_ == "untrained":
        nodes = [n if not isinstance(n, mdp.hinet.FlowNode) else Rows(1) for n in nodes]
        if rng.random() < .3 and nodenr is not None:
            nodes = nodes + [Rows(9)]
    a, b = copy.deepcopy(nodes), copy.deepcopy(nodes)
    for n in b:
        if isinstance(n, Count):
            n.n, n.rows = rng.randint(0, 5), 0.
    data = chunks(rng, dim)
    how = rng.choice(["list", "iter", "array"])
    mk = {"list": lambda: data, "iter": lambda: iter(data), "array": lambda: np.concatenate(data)}[how]
    s = scheduler(rng)
    times = rng.choice([1, 2])
    manual = rng.random() < .3
    note(nodes=[type(n).__name__ for n in nodes], state=state_, nodenr=nodenr, scheduler=type(s).__name__, how=how, chunks=[len(c) for c in data], times=times, manual=manual)
    f = MP.ParallelFlow(b)
    g = mdp.Flow(a)
    for _ in range(times):
        before = [n.n if isinstance(n, Count) else None for n in b]
        want = g.execute(mk(), nodenr=nodenr) if nodenr is not None else g.execute(mk())
        if manual:
            with mdp.extension("parallel"):
                f.setup_parallel_execution(mk(), nodenr=nodenr)
                s.result_container = MP.ExecuteResultContainer()
                while f.task_available:
                    s.add_task(*f.get_task())
                got = f.use_results(s.get_results())
        else:
            got = f.execute(mk(), nodenr=nodenr, scheduler=s)
        check(got.shape == want.shape and np.array_equal(got, want), "the parallel execution gives %r, the sequential one %r", got.tolist(), want.tolist())
        check(not f.is_parallel_executing and not f.task_available, "the flow is still executing")
        for i, n in enumerate(b):
            check(seen(n) == seen(a[i]), "node %d was trained with %r, not %r", i, seen(n), seen(a[i]))
            if isinstance(n, Count) and state_ == "trained" and (nodenr is None or i <= nodenr):
                check(n.n - before[i] == len(want), "node %d (joined after the execution) counted %d rows, not %d", i, n.n - before[i], len(want))
    s.shutdown()


# ---- statistics of the parallel nodes

def stats(n, o=None):
    """the accumulated statistics of a real node, as {name: value}"""
    from mdp.utils import CovarianceMatrix
    out = {}

    def put(k, v):
        if isinstance(v, CovarianceMatrix):
            for q in ("_cov_mtx", "_avg", "_tlen"):
                put(k + "." + q, getattr(v, q))
        elif isinstance(v, dict):
            for q in sorted(v, key=repr):
                put("%s[%r]" % (k, q), v[q])
        elif isinstance(v, list):
            out[k] = np.array(sorted(np.concatenate([np.atleast_2d(e) for e in v]).tolist())) if v else np.array([])
        elif v is None:
            out[k] = None
        elif k in ("data_hist",):
            out[k] = np.array(sorted(v.tolist()))
        else:
            out[k] = np.asarray(v)
    for k in ("_cov_mtx", "_dcov_mtx", "_S_W", "_allcov", "means", "tlens", "data", "tlen", "data_hist", "_cov_objs", "label_means", "n_label_samples", "_label_samples"):
        if hasattr(n, k):
            put(k, getattr(n, k))
    return out


def same_stats(a, b, what):
    a, b = stats(a), stats(b)
    check(set(a) == set(b), "%s: statistics for %s, not for %s", what, sorted(b), sorted(a))
    for k in a:
        if a[k] is None or b[k] is None:
            check(a[k] is None and b[k] is None, "%s: %s is %r, not %r", what, k, b[k], a[k])
            continue
        check(a[k].shape == b[k].shape and np.allclose(a[k], b[k], rtol=1e-4, atol=1e-4), "%s: %s is %r, not %r", what, k, b[k], a[k])


def real_nodes():
    n = mdp.nodes
    return [("PCANode", lambda **k: n.PCANode(**k), 0), ("PCANode(svd)", lambda **k: n.PCANode(svd=True, reduce=True, **k), 0), ("WhiteningNode", lambda **k: n.WhiteningNode(**k), 0),
            ("SFANode", lambda **k: n.SFANode(**k), 0), ("SFANode(no last)", lambda **k: n.SFANode(include_last_sample=False, **k), 0), ("SFA2Node", lambda **k: n.SFA2Node(**k), 0),
            ("NIPALSNode", lambda **k: n.NIPALSNode(**k), 0), ("HistogramNode", lambda **k: n.HistogramNode(**k), 0), ("AdaptiveCutoffNode", lambda **k: n.AdaptiveCutoffNode(**k), 0),
            ("FDANode", lambda **k: n.FDANode(**k), 1), ("GaussianClassifier", lambda **k: n.GaussianClassifier(**k), 1), ("NearestMeanClassifier", lambda **k: n.NearestMeanClassifier(**k), 1),
            ("KNNClassifier", lambda **k: n.KNNClassifier(**k), 1)]


def train(node, chunk):
    node.train(*chunk) if isinstance(chunk, tuple) else node.train(chunk)


@scenario("fork_join_statistics", n=170, thorough=10)
def _(rng, note):
    name, mk, labels = rng.choice(real_nodes())
    dt = rng.choice([None, "d", "f"])
    dim = rng.randint(2, 4)
    data = [x + .25 for x in chunks(rng, dim, rng.randint(1, 6))]
    data = [np.concatenate([x, x[:1] * 2, x[:1] + 1]) for x in data]
    if rng.random() < .3:
        data = [x.astype("f") for x in data]
    if labels:
        strs = rng.random() < .4
        data = [(x, np.array([rng.choice("abc") if strs else rng.randint(0, 2) for _ in x])) for x in data]
    a, b = mk(dtype=dt), mk(dtype=dt)
    own = rng.randint(0, min(2, len(data)))            # chunks the original sees itself
    wrap = rng.choice(["", "", "", "layer", "clone", "flownode"])
    if wrap and (labels or name.startswith(("NIPALS", "Hist"))):
        wrap = ""
    note(node=name, dtype=dt, chunks=[len(x[0]) if labels else len(x) for x in data], own=own, wrap=wrap)
    if wrap:
        def w():
            m = lambda: mk(dtype=dt, input_dim=dim)
            if wrap == "layer":
                ms = [m(), m()]
                return mdp.hinet.Layer(ms), ms
            if wrap == "clone":
                m1 = m()
                return mdp.hinet.CloneLayer(m1, n_nodes=2), [m1]
            ms = [mdp.nodes.IdentityNode(input_dim=dim), m()]
            return mdp.hinet.FlowNode(mdp.Flow(ms)), ms[1:]
        (a, ai), (b, bi) = w(), w()
        if wrap != "flownode":
            data = [np.hstack([x, x[:, ::-1] * 2]) for x in data]
    else:
        ai, bi = [a], [b]
    with mdp.extension("parallel"):
        phase = 0
        while a.is_training():
            for c in data:
                train(a, c)
            for c in data[:own]:
                train(b, c)
            # the rest is trained by forks, joined in groups and in any order
            forks = []
            for c in data[own:]:
                f = b.fork()
                train(f, c)
                forks.append(f)
            idle = b.fork() if rng.random() < .3 and own else None
            rng.shuffle(forks)
            while len(forks) > 1 and rng.random() < .5:
                f = forks.pop()
                forks[-1].join(f)
            for f in forks:
                b.join(f)
            for p, q in zip(ai, bi):
                same_stats(p, q, "%s in phase %d" % (name, phase))
                check(p.dtype == q.dtype and p.input_dim == q.input_dim, "the joined node has dtype %s and dimension %s, not %s and %s", q.dtype, q.input_dim, p.dtype, p.input_dim)
            phase += 1
            if name == "NIPALSNode" or phase > 3:
                break
            a_, b_ = a, b
            try:
                a.stop_training()
            except Exception as e:
                try:
                    b.stop_training()
                except type(e):
                    return
                raise Violation("stop_training of the trained node raises %r, of the joined one it does not" % (e,))
            try:
                b.stop_training()
            except mdp.NodeException as e:
                if "eigenvalue" in str(e):
                    raise Skip()                   # singular up to rounding
                raise


@scenario("real_flows", n=60, thorough=8)
def _(rng, note):
    dim = rng.randint(2, 4)
    r = np.random.RandomState(rng.randrange(10 ** 6))
    name, mk, labels = rng.choice(real_nodes() + [("VartimeSFANode", lambda **k: mdp.nodes.VartimeSFANode(**k), 0), ("GrowingNeuralGasNode", lambda **k: mdp.nodes.PolynomialExpansionNode(2), 0)])
    data = [r.randn(r.randint(30, 60), dim).cumsum(0) for _ in range(rng.randint(1, 4))]
    x = np.concatenate(data)
    lab = [(c, np.arange(len(c)) % 3) for c in data]
    nodes = lambda: [mdp.nodes.PCANode(output_dim=dim - 1), mk()]
    s = scheduler(rng)
    note(node=name, scheduler=type(s).__name__, chunks=[len(c) for c in data])
    a, b = mdp.Flow(nodes()), MP.ParallelFlow(nodes())
    it = [data, lab if labels else data]
    try:
        a.train(it)
    except Exception as e:
        raise Skip()
    b.train(it, scheduler=s)
    if name in ("FDANode", "HistogramNode", "NIPALSNode", "KNNClassifier"):
        return
    ya, yb = a.execute(data), b.execute(data, scheduler=s)
    check(ya.dtype == yb.dtype and ya.shape == yb.shape, "parallel: %s %s, sequential %s %s", yb.dtype, yb.shape, ya.dtype, ya.shape)
    if ya.dtype.kind == "f":
        check(np.allclose(np.abs(ya), np.abs(yb), rtol=1e-3, atol=1e-3), "the parallel flow gives %r..., the sequential one %r...", yb[:2].tolist(), ya[:2].tolist())
    s.shutdown()


# ---- layers and execution forks

@scenario("nested_execute_forks", n=60, thorough=10)
def _(rng, note):
    dim = 2

    def build(depth):
        k = rng.randrange(4) if depth else 0
        if k == 0:
            c = Count(input_dim=dim, output_dim=dim)
            return c, [c]
        if k == 1:
            a, la = build(depth - 1)
            b, lb = build(depth - 1)
            return mdp.hinet.FlowNode(mdp.Flow([a, b])), la + lb
        if k == 2:
            c1, c2 = Count(input_dim=1, output_dim=1), Count(input_dim=1, output_dim=1)
            return mdp.hinet.Layer([c1, c2]), [c1, c2]
        c = Count(input_dim=1, output_dim=1)
        c.clones = 2
        return mdp.hinet.CloneLayer(c, n_nodes=2), [c]
    parts = [build(2) for _ in range(rng.randint(1, 3))]
    f = MP.ParallelFlow([p for p, _ in parts])
    counts = [c for _, l in parts for c in l]
    data = chunks(rng, dim)
    s = scheduler(rng)
    note(flow=[type(p).__name__ for p, _ in parts], scheduler=type(s).__name__, chunks=[len(c) for c in data])
    for t in range(1, 3):
        y = f.execute(data, scheduler=s)
        want = mdp.Flow(copy.deepcopy(f.flow)).execute(data)
        check(np.array_equal(y, want), "wrong result")
        for i, c in enumerate(counts):
            w = t * len(np.concatenate(data)) * getattr(c, "clones", 1)
            check(c.n == w, "inner node %d counted %d rows after execution %d, not %d", i, c.n, t, w)
    s.shutdown()


# ---- state machine

@scenario("states", n=150, thorough=12)
def _(rng, note):
    dim = 2
    nodes = [rng.choice([ParRows, Rows, HalfRows])(i, rng.choice([1, 2])) for i in range(rng.randint(1, 3))]
    f = MP.ParallelFlow(nodes)
    ref = mdp.Flow(copy.deepcopy(nodes))
    log = []
    note(nodes=[(type(n).__name__, n.phases) for n in nodes], log=log)
    mode, todo, results, trained, expect = None, 0, [], False, None
    PE = MP.ParallelFlowException

    def forkable(n):
        return isinstance(n, ParRows) or isinstance(n, HalfRows) and n.get_current_train_phase() % 2 == 0

    def next_phase(i):
        """position after all phases that are trained locally"""
        return next((n for n in nodes if n.is_training()), None)
    with mdp.extension("parallel"):
        data = None
        for _ in range(rng.randint(4, 14)):
            op = rng.choice(["train", "exec", "get", "get", "get", "use", "use", "run"])
            log.append(op)
            if op == "train":
                d = [chunks(rng, dim) for _ in nodes]
                if mode is not None:
                    raises(PE, f.setup_parallel_training, d)
                    raises(PE, f.train, d, scheduler=MP.Scheduler())
                else:
                    f.setup_parallel_training(d)
                    if not trained:
                        data = d
                    cur = next_phase(0)
                    mode = "train" if cur is not None else None
                    todo = len(data[nodes.index(cur)]) if cur is not None else 0
                    results = []
                    if cur is None and not trained:
                        trained = True
                        ref.train(data)
                    if mode is None:
                        check(not f.is_parallel_training and not f.task_available, "nothing to train, but the flow is training")
            elif op == "exec":
                d = chunks(rng, dim)
                if mode is not None:
                    raises(PE, f.setup_parallel_execution, d)
                    raises(PE, f.execute, d, scheduler=MP.Scheduler())
                    if mode == "exec":
                        raises(PE, f.execute, d)
                elif trained:
                    f.setup_parallel_execution(d)
                    mode, todo, results, expect = "exec", len(d), [], ref.execute(d)
            elif op == "get":
                if todo == 0:
                    e = raises(MP.NoTaskException, f.get_task)
                else:
                    d, c = f.get_task()
                    if c is not None:
                        last = c
                    results.append(last.fork()(d))
                    todo -= 1
            elif op == "run":
                while todo:
                    d, c = f.get_task()
                    if c is not None:
                        last = c
                    results.append(last.fork()(d))
                    todo -= 1
            else:
                if mode is None or todo:
                    raises(PE, f.use_results, results)
                elif mode == "exec":
                    y = f.use_results(results)
                    check(np.array_equal(y, expect), "the flow returns %r, not %r", y, expect)
                    mode = None
                else:
                    f.use_results(results)
                    results = []
                    cur = next_phase(0)
                    if cur is None:
                        mode, trained = None, True
                        ref.train(data)
                        for p, q in zip(ref, nodes):
                            check(state(p) == state(q), "trained with other data: %r, not %r", state(q), state(p))
                    else:
                        todo = len(data[nodes.index(cur)])
            check(f.is_parallel_training == (mode == "train"), "is_parallel_training is %s in state %s", f.is_parallel_training, mode)
            check(f.is_parallel_executing == (mode == "exec"), "is_parallel_executing is %s in state %s", f.is_parallel_executing, mode)
            check(f.task_available == bool(todo), "task_available is %s with %d tasks left", f.task_available, todo)


class Broken(Exception):
    pass


@scenario("failures", n=60, thorough=8)
def _(rng, note):
    dim = 2
    nodes = [rng.choice([ParRows, ParRows, Rows])(i, rng.choice([1, 2])) for i in range(rng.randint(1, 3))]
    where = rng.randrange(len(nodes))
    kind = rng.choice(["data", "task", "stop", "empty"])
    good = [chunks(rng, dim, rng.randint(2, 4)) for _ in nodes]

    class It(object):
        def __init__(self, c):
            self.c = c

        def __iter__(self):
            for x in self.c[:-1]:
                yield x
            raise Broken("data")
    bad = list(good)
    if kind == "data":
        bad[where] = It(good[where])
    elif kind == "task":
        bad[where] = good[where][:-1] + [np.zeros((2, dim + 3))]
    elif kind == "empty":
        bad[where] = []
    else:
        nodes[where]._s_orig = nodes[where]._s
        nodes[where].fail = True
    s = scheduler(rng)
    f = MP.ParallelFlow(nodes)
    note(nodes=[type(n).__name__ for n in nodes], where=where, kind=kind, scheduler=type(s).__name__)
    if kind == "stop":
        cls = type(nodes[where])
        hook = f._stop_training_hook
        f._stop_training_hook = lambda: (_ for _ in ()).throw(Broken("stop"))
    raises(Exception, f.train, bad, scheduler=s)
    check(not f.is_parallel_training and not f.task_available and not f.is_parallel_executing, "after a failed training the flow is still training")
    if kind == "stop":
        del f._stop_training_hook
    # a new flow with the same scheduler
    fresh = [type(n)(n.name, n.phases) for n in nodes]
    a = copy.deepcopy(fresh)
    g = MP.ParallelFlow(fresh)
    g.train(good, scheduler=s)
    mdp.Flow(a).train(good)
    settle(a, fresh, dim)
    for i, (p, q) in enumerate(zip(a, fresh)):
        check(state(p) == state(q), "after a failed training with the same scheduler node %d gets other data: %r, not %r", i, state(q), state(p))
    # failed execution
    x = chunks(rng, dim, 3)

    class Ex(object):
        def __iter__(self):
            yield x[0]
            yield x[1]
            raise Broken("x")
    raises(Broken, g.execute, Ex(), scheduler=s)
    check(not g.is_parallel_executing and not g.task_available, "after a failed execution the flow is still executing")
    y = g.execute(x, scheduler=s)
    check(np.array_equal(y, mdp.Flow(a).execute(x)), "after a failed execution with the same scheduler the result is %r", y)
    s.shutdown()


@scenario("scheduler_per_node", n=60, thorough=8)
def _(rng, note):
    dim = 2
    nodes = [rng.choice([ParRows, Rows, HalfRows])(i, rng.choice([1, 2])) for i in range(rng.randint(1, 4))]
    k = rng.choice([0, 0, rng.randrange(len(nodes) + 1)])
    x = chunks(rng, dim, 1)[0]
    for n in nodes[:k]:
        while n.is_training():
            n.train(x)
            n.stop_training()
        x = n.execute(x)
    a, b = copy.deepcopy(nodes), nodes
    data = [chunks(rng, dim) for _ in nodes]
    ss = [CountDown() if n.is_training() and not type(n) is Rows or rng.random() < .5 else None for n in nodes]
    note(nodes=[(type(n).__name__, n.phases) for n in nodes], trained=k, schedulers=[s is not None for s in ss])
    f = MP.ParallelFlow(b)
    f.train(data, scheduler=rng.choice([list, iter])(ss))
    mdp.Flow(a).train(data)
    settle(a, b, dim)
    for i, (p, q) in enumerate(zip(a, b)):
        check(state(p) == state(q), "node %d was trained with other data", i)
    for i, s in enumerate(ss):
        tasks = 0 if s is None else s.task_counter
        # chunks of the phases that can be forked, plus nothing else
        n = b[i]
        phases = 0 if i < k or type(n) is Rows else n.phases if isinstance(n, ParRows) else (n.phases + 1) // 2
        check(tasks == phases * len(data[i]) or s is None and not phases, "scheduler %d got %d tasks, not %d", i, tasks, phases * len(data[i]))
    started = [i for i, s in enumerate(ss) if s is not None and s.task_counter]
    for i in started:
        check(ss[i].down == 1, "scheduler %d was shut down %d times", i, ss[i].down)


@scenario("checkpoint_flow", n=40, thorough=8)
def _(rng, note):
    dim = 2
    nodes = [rng.choice([ParRows, Rows])(i, rng.choice([1, 2])) for i in range(rng.randint(1, 3))]
    data = [chunks(rng, dim) for _ in nodes]
    s = rng.choice([None, MP.Scheduler()])
    log = []

    def cp(i):
        def c(node):
            log.append((i, seen(node)))
            return {"mark%d" % i: i}
        return c
    cps = [cp(i) if rng.random() < .7 else None for i in range(len(nodes))]
    note(nodes=[type(n).__name__ for n in nodes], scheduler=s is not None, checkpoints=[c is not None for c in cps])
    a = copy.deepcopy(nodes)
    f = MP.ParallelCheckpointFlow(nodes)
    f.train(data, cps, scheduler=s)
    got, log[:] = list(log), []
    g = mdp.CheckpointFlow(a)
    g.train(data, cps)
    check(s is None or got == log, "checkpoints: %r, sequential %r", got, log)
    settle(a, nodes, dim)
    for i in range(len(nodes)):
        check(state(a[i]) == state(nodes[i]), "node %d was trained with other data", i)
        check(getattr(f, "mark%d" % i, None) == getattr(g, "mark%d" % i, None), "the result of checkpoint %d is lost", i)
