"""C22 on concrete online nodes and flows, against a replay written without mdp."""
import numpy as np
import mdp
from mdp import (OnlineNode, OnlineFlow, CircularOnlineFlow, TrainingException, TrainingFinishedException, MDPException,
                 IsNotTrainableException)
from .base import *
from .nodes import Rec, Boom, learn, ex, arr, Gen, OneShot


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def check_log(got, want, what):
    check(len(got) == len(want), "%s: %d calls, expected %d: %s / %s", what, len(got), len(want), [g[:3] for g in got][:12], [w[:3] for w in want][:12])
    for i, (g, w) in enumerate(zip(got, want)):
        check(g[:3] == w[:3], "%s: call %d is %s, expected %s", what, i, g[:3], w[:3])
        check((g[3] is None) == (w[3] is None) and (g[3] is None or same(g[3], w[3])), "%s: call %d (%s) got other data: %s, expected %s", what, i, g[:3], g[3], w[3])
        check(g[4] == w[4], "%s: call %d got arguments %s, expected %s", what, i, g[4], w[4])


class ORec(OnlineNode):
    """online node with several phases; every learner and finisher call is logged"""
    def __init__(self, log, name, phases=1, legacy=(), types=("incremental", "batch"), trainable=True, fail=None, **kw):
        self.log, self.nm, self.ph, self.legacy, self.types, self.tr = log, name, phases, legacy, list(types), trainable
        self.s = [0.] * phases
        self.fail, self.calls = fail, 0
        super(ORec, self).__init__(**kw)

    def is_trainable(self):
        return self.tr

    def is_invertible(self):
        return True

    def _get_supported_training_types(self):
        return self.types

    def _get_train_seq(self):
        seq = []
        for p in range(self.ph):
            e = ((lambda x, *a, p=p: self.t(p, x, *a)), (lambda *a, p=p: self.log.append(("stop", self.nm, p, None, a))))
            if p not in self.legacy:
                e += ((lambda x, *a, p=p: self.out(p, x, *a)),)
            seq.append(e)
        return seq

    def t(self, p, x, *a):
        self.calls += 1
        if self.fail == self.calls:
            raise Boom("training")
        self.log.append(("train", self.nm, p, np.array(x), a))
        self.s[p] = learn(self.s[p], p, x)

    def out(self, p, x, *a):
        self.log.append(("phase", self.nm, p, np.array(x), a))
        return x * (1. + self.s[p]) + p

    def _execute(self, x):
        return ex(sum(self.s), self.nm, x)

    def _inverse(self, y):
        return (y - self.nm) / (1. + sum(self.s))


class ORec1(ORec):
    def _train(self, x, a):
        pass


class ORec2(ORec):
    def _train(self, x, a, b):
        pass


class Model(object):
    """what an ORec or Rec must do, without mdp"""
    def __init__(self, name, phases=1, legacy=(), how="incremental", trains=True, s=None):
        self.nm, self.ph, self.legacy, self.how, self.trains = name, phases, legacy, how, trains
        self.s = list(s) if s is not None else [0.] * phases
        self.seen = 0

    def train(self, x, log, a=()):
        for block in ([x[i:i + 1] for i in range(len(x))] if self.how == "incremental" else [x]):
            for p in range(self.ph):
                log.append(("train", self.nm, p, block, a))
                self.s[p] = learn(self.s[p], p, block)
                if p not in self.legacy:
                    log.append(("phase", self.nm, p, block, a))
                    block = block * (1. + self.s[p]) + p
        self.seen += len(x)

    def execute(self, x):
        return ex(sum(self.s), self.nm, x)

    def inverse(self, y):
        return (y - self.nm) / (1. + sum(self.s))


@scenario("online node", n=4000, thorough=30)
def node_stream(rng, note):
    log, want = [], []
    ph = rng.randint(1, 3)
    legacy = tuple(p for p in range(ph) if rng.random() < .25)
    types = rng.choice([("incremental", "batch"), ("batch", "incremental"), ("batch",), ("incremental",)])
    how = rng.choice([None] + list(types))
    cols = rng.randint(1, 3)
    nd = ORec(log, 1, ph, legacy, types, input_dim=rng.choice([None, cols]))
    if how is not None:
        nd.set_training_type(how)
    m = Model(1, ph, legacy, how or types[0])
    started = False
    ops = []
    note(phases=ph, legacy=legacy, types=types, how=how, ops=ops)
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["train", "train", "train", "execute", "inverse", "stop early", "bad", "type"])
        a = (rng.randint(0, 9),) if rng.random() < .3 else ()
        x = arr(rng, cols)
        ops.append((op, x.tolist()))
        if op == "train":
            nd.train(x, *a)
            m.train(x, want, a)
            started = True
        elif op == "execute":
            y = nd.execute(x)
            if not started:
                m.train(x, want)
                started = True
            check(same(y, m.execute(x)), "execution does not use the current state")
        elif op == "inverse":
            if started:
                check(same(nd.inverse(x), m.inverse(x)), "inversion does not use the current state")
        elif op == "stop early":
            if not started:
                raises(TrainingException, nd.stop_training)
        elif op == "bad":
            raises(MDPException, nd.train, rng.choice([np.zeros((0, cols)), np.zeros(cols), np.zeros((2, cols + 1))] if nd.input_dim is not None else [np.zeros((0, cols)), np.zeros(cols)]))
        else:
            raises(mdp.OnlineNodeException, nd.set_training_type, "online")
        check(nd.is_training(), "training ended by %s", op)
        check(nd.get_current_train_iteration() == m.seen, "%d iterations counted, %d samples seen", nd.get_current_train_iteration(), m.seen)
        check(nd.get_current_train_phase() == 0, "phase %s", nd.get_current_train_phase())
    check_log(log, want, "learners")
    if started:
        check(nd.training_type == m.how, "training type %s, expected %s", nd.training_type, m.how)
        a = (rng.randint(0, 9),) if rng.random() < .3 else ()
        nd.stop_training(*a)
        want += [("stop", 1, p, None, a) for p in range(ph)]
        check_log(log, want, "closing")
        check(not nd.is_training() and nd.get_remaining_train_phase() == 0, "still training after stop_training")
        raises(TrainingFinishedException, nd.train, arr(rng, cols))
        raises(TrainingFinishedException, nd.stop_training)
        x = arr(rng, cols)
        check(same(nd.execute(x), m.execute(x)), "execution after training")
        check(same(nd.inverse(x), m.inverse(x)), "inversion after training")
        check_log(log, want, "after training")
        check(nd.get_current_train_iteration() == m.seen, "iterations counted after training")


def build(rng, log, cols, n, terminal=True, args=False, circular=False):
    nodes, models, need = [], [], []
    for j in range(n):
        k = 0
        kind = rng.choice(["online", "online", "trained", "non", "online trained"])
        if terminal and j == n - 1 and rng.random() < .5:
            kind = "offline"
        if kind == "offline":
            nd, m = Rec(log, j), Model(j, 1, (0,), "batch")
        elif kind in ("trained", "non"):
            nd = Rec(log, j, trainable=kind == "trained")
            if kind == "trained":
                nd.train(arr(rng, cols))
                nd.stop_training()
            m = Model(j, 1, (0,), "batch", False, [nd.s])
        else:
            ph = rng.randint(1, 2)
            legacy = tuple(p for p in range(ph) if rng.random() < .25)
            k = rng.choice([0, 0, 1, 2]) if args else 0
            nd = {0: ORec, 1: ORec1, 2: ORec2}[k](log, j, ph, legacy)
            how = rng.choice(["incremental", "batch"])
            nd.set_training_type(how)
            m = Model(j, ph, legacy, how)
            if kind == "online trained":
                x = arr(rng, cols)
                nd.train(x, *([0] * k))
                m.train(x, [], (0,) * k)
                nd.stop_training()
                m.trains = False
        nodes.append(nd)
        models.append(m)
        need.append(k)
    del log[:]
    return nodes, models, need


def learners(log):
    return [e for e in log if e[0] not in ("execute", "inverse")]


@scenario("online flow", n=4500, thorough=30)
def flow_stream(rng, note):
    log, want = [], []
    cols, n = rng.randint(1, 3), rng.randint(1, 4)
    nodes, models, need = build(rng, log, cols, n, args=rng.random() < .5)
    how = rng.choice(["new", "new", "del", "pop", "insert", "set", "slice"])
    i, other = rng.randrange(n), rng.choice([ORec, ORec1, ORec2])([], 99, 1, ())
    # the flow may be the result of container operations
    if how in ("del", "pop"):
        f = OnlineFlow(nodes[:i] + [other] + nodes[i:])
        f.pop(i) if how == "pop" else f.__delitem__(i)
    elif how == "insert" and n > 1 and (i < n - 1 or isinstance(nodes[-1], ORec) or not models[-1].trains):
        f = OnlineFlow(nodes[:i] + nodes[i + 1:]) if i < n - 1 else OnlineFlow(nodes[:-1])
        f.insert(i, nodes[i]) if i < n - 1 else f.append(nodes[i])
    elif how in ("set", "slice") and (i < n - 1 or isinstance(nodes[-1], ORec) or not models[-1].trains):
        f = OnlineFlow(nodes[:i] + [other] + nodes[i + 1:])
        f[i if how == "set" else slice(i, i + 1)] = nodes[i] if how == "set" else [nodes[i]]
    else:
        f = OnlineFlow(nodes)
    check(len(f) == n and all(a is b for a, b in zip(f, nodes)), "nodes after %s", how)
    offline = isinstance(nodes[-1], Rec) and models[-1].trains
    note(nodes=[(type(k).__name__, m.trains, m.how, m.ph, m.legacy) for k, m in zip(nodes, models)], need=need, made_by=how, at=i)
    for _ in range(1 if offline else rng.randint(1, 2)):
        k = rng.randint(1, 4)
        blocks = [arr(rng, cols) for _ in range(k)]
        form = rng.choice(["2d", "3d", "list", "gen", "oneshot"])
        give = any(need) or rng.random() < .4
        args = [[tuple(rng.randint(0, 9) for _ in range(c)) if c else rng.choice([None, (), (1, 2)]) for c in need] for _ in blocks]
        if give:
            data = [rng.choice([list, tuple])([x] + a) for x, a in zip(blocks, args)]
            data = {"gen": Gen, "oneshot": OneShot}.get(form, list)(data)
        elif form == "2d":
            data = np.concatenate(blocks)
            blocks = [data[i:i + 1] for i in range(len(data))]
        elif form == "3d":
            blocks = [b[:1] for b in blocks]
            data = np.array(blocks)
        else:
            data = {"gen": Gen, "oneshot": OneShot, "list": list}[form](blocks)
        note(form=form, blocks=[b.tolist() for b in blocks], give=give)
        f.train(data)
        for i, x in enumerate(blocks):
            for j, m in enumerate(models):
                if m.trains:
                    m.train(x, want, tuple(args[i][j]) if need[j] else ())
                x = m.execute(x)
        if offline:
            want.append(("stop", n - 1, 0, None, ()))
        check_log(learners(log), want, "learners")
        for nd, m in zip(nodes, models):
            if isinstance(nd, ORec):
                check(nd.is_training() == m.trains, "training state of an online node changed")
                check(not m.trains or nd.get_current_train_iteration() == m.seen, "iterations counted: %s of %s", nd.get_current_train_iteration(), m.seen)
            else:
                check(not nd.is_training(), "the terminal node was not closed")
        x = arr(rng, cols)
        y = f(x)
        for m in models:
            x = m.execute(x)
        check(same(x, y), "execution after training")
        check_log(learners(log), want, "executing the flow")


@scenario("refused streams", n=1500, thorough=10)
def refused(rng, note):
    log = []
    cols, n = 2, rng.randint(1, 3)
    nodes, models, need = build(rng, log, cols, n, terminal=False, args=True)
    f = OnlineFlow(nodes)
    blocks = [arr(rng, cols) for _ in range(3)]
    what = rng.choice(["empty", "number", "count", "type", "node fails"])
    note(what=what, need=need, n=n)
    good = [[x] + [(0,) * c if c else None for c in need] for x in blocks]
    if what == "empty":
        raises(mdp.FlowException, f.train, rng.choice([[], OneShot([]), np.zeros((0, cols))]))
    elif what == "type":
        raises(mdp.FlowException, f.train, 3)
    elif what == "number":
        good[1] = good[1][:-1] if rng.random() < .5 else good[1] + [None]
        raises(MDPException, f.train, good)
        ref = []
        x = blocks[0]
        for j, m in enumerate(models):
            if m.trains:
                m.train(x, ref, (0,) * need[j])
            x = m.execute(x)
        check_log(learners(log), ref, "learners before the refused sample")
    elif what == "count":
        js = [j for j in range(n) if need[j]]
        if not js:
            raise Skip()
        j = rng.choice(js)
        good[0][j + 1] = (0,) * (need[j] + rng.choice([-1, 1]))
        raises(MDPException, f.train, good)
        check(not any(e[1] >= j for e in learners(log)), "a node was trained with a wrong number of arguments")
    else:
        js = [j for j in range(n) if models[j].trains]
        if not js:
            raise Skip()
        j = rng.choice(js)
        nodes[j].fail = nodes[j].calls + rng.randint(1, 3)
        e = raises(mdp.FlowException, f.train, good)
        check("#%d" % j in str(e), "the failing node is not named: %s", str(e)[:200])


@scenario("circular flow", n=4500, thorough=30)
def circular(rng, note):
    log, want = [], []
    cols, n = rng.randint(1, 3), rng.randint(1, 4)
    nodes, models, need = build(rng, log, cols, n, terminal=False)
    f = CircularOnlineFlow(nodes)
    T, ignore = rng.randint(1, 3), False
    out = n - 1
    order = list(range(n))
    stored = None
    ops = []
    note(nodes=[(type(k).__name__, m.trains, m.how, m.ph, m.legacy) for k, m in zip(nodes, models)], ops=ops)
    f.set_flow_iterations(T)
    for _ in range(rng.randint(1, 7)):
        op = rng.choice(["train", "train", "input", "output", "reset", "iterations", "ignore", "store", "execute", "inverse", "bad"])
        ops.append([op])
        if op == "train":
            blocks = [arr(rng, cols) for _ in range(rng.randint(1, 3))]
            form = rng.choice(["list", "2d", "gen"])
            data = blocks
            if form == "2d":
                data = np.concatenate(blocks)
                blocks = [data[i:i + 1] for i in range(len(data))]
            elif form == "gen":
                data = OneShot(blocks)
            ops[-1] += [form, [b.tolist() for b in blocks]]
            if ignore and stored is None:
                continue
            f.train(data)
            for x in blocks:
                if ignore:
                    x = stored
                for _ in range(T):
                    for j in order:
                        if models[j].trains:
                            models[j].train(x, want)
                        x = models[j].execute(x)
                stored = x
            check_log(learners(log), want, "learners")
        elif op == "input":
            k = rng.randrange(n)
            ops[-1].append(k)
            f.set_input_node(k)
            order = order[k:] + order[:k]
            out = (out - k) % n
        elif op == "output":
            out = rng.randrange(n)
            f.set_output_node(out)
            ops[-1].append(out)
        elif op == "reset":
            f.reset_output_node()
            out = n - 1
        elif op == "iterations":
            T = rng.randint(1, 3)
            f.set_flow_iterations(T)
            ops[-1].append(T)
        elif op == "ignore":
            ignore = rng.random() < .5
            f.ignore_input(ignore)
            ops[-1].append(ignore)
        elif op == "store":
            x = arr(rng, cols)
            f.set_stored_input(x)
            stored = x
        elif op in ("execute", "inverse"):
            if any(m.trains and not m.seen for m in models):
                continue        # executing an online node that saw nothing trains it
            if any(k.input_dim is None for k in nodes):
                continue
            x = arr(rng, cols)
            y = x
            if op == "execute":
                got = f(x)
                for j in order[:out + 1]:
                    y = models[j].execute(y)
            else:
                got = f.inverse(x)
                for j in reversed(order[:out + 1]):
                    y = models[j].inverse(y)
            check(same(got, y), "%s to the output node", op)
        else:
            k = rng.choice([-1, n, n + 1])
            raises(mdp.MDPException, rng.choice([f.set_input_node, f.set_output_node]), k)
        check(f.output_node_idx == out, "output node %s, expected %s", f.output_node_idx, out)
        check([k.nm for k in f.flow] == order, "order of the nodes: %s, expected %s", [k.nm for k in f.flow], order)
        got = f.get_stored_input()
        check((got is None) == (stored is None) and (got is None or same(got, stored)), "stored input after %s", op)
    check_log(learners(log), want, "learners")


@scenario("online flow node", n=3000, thorough=25)
def flow_node(rng, note):
    log, want = [], []
    cols, n = rng.randint(1, 3), rng.randint(1, 4)
    nodes, models, need = build(rng, log, cols, n, terminal=False)
    if not any(m.trains for m in models):
        raise Skip()
    for nd in nodes:
        if nd.input_dim is None:
            nd.input_dim = cols
        if nd.output_dim is None:
            nd.output_dim = cols
    circ = rng.random() < .5
    T, ignore = 1, False
    stored = None
    if circ:
        f = CircularOnlineFlow(nodes)
        T, ignore = rng.randint(1, 3), rng.random() < .4
        f.set_flow_iterations(T)
        f.ignore_input(ignore)
        if ignore or rng.random() < .5:
            stored = arr(rng, cols, 1)
            f.set_stored_input(stored)
        fn = mdp.hinet.CircularOnlineFlowNode(f)
    else:
        fn = mdp.hinet.OnlineFlowNode(OnlineFlow(nodes))
    how = "batch" if any(isinstance(k, ORec) and m.how == "batch" for k, m in zip(nodes, models)) else "incremental"
    note(nodes=[(type(k).__name__, m.trains, m.how, m.ph, m.legacy) for k, m in zip(nodes, models)], circular=circ, T=T, ignore=ignore)
    last = max(j for j in range(n) if models[j].trains)
    total = 0
    for _ in range(rng.randint(1, 3)):
        x = arr(rng, cols)
        note(x=x.tolist())
        fn.train(x)
        total += len(x)
        for b in ([x[i:i + 1] for i in range(len(x))] if how == "incremental" else [x]):
            if ignore:
                b = stored
            for _ in range(T):
                for j in range(n):
                    if models[j].trains:
                        models[j].train(b, want)
                    b = models[j].execute(b)
            if circ:
                stored = b
        check_log(learners(log), want, "learners")
        check(fn.get_current_train_iteration() == total, "iterations")
        check(fn.is_training(), "training ended")
        if rng.random() < .5:
            y = arr(rng, cols)
            got = fn.execute(y)
            for m in models[:f.output_node_idx + 1] if circ else models:
                y = m.execute(y)
            check(same(got, y), "execution between updates")
        check_log(learners(log), want, "learners after execution")
    fn.stop_training()
    want += [("stop", j, p, None, ()) for j, m in enumerate(models) if m.trains for p in range(m.ph)]
    check_log(learners(log), want, "closing")
    check(not fn.is_training() and not any(k.is_training() for k in nodes), "still training")
    if circ:
        check(same(fn.get_stored_input(), stored) if stored is not None else fn.get_stored_input() is None, "stored input")


@scenario("online layers", n=2500, thorough=15)
def layers(rng, note):
    log, want = [], []
    kind = rng.choice(["layer", "same", "clone"])
    n = rng.randint(1, 3)
    dims = [rng.randint(1, 3) for _ in range(n)]
    if kind == "same":
        dims = [dims[0]] * n
    how = rng.choice([None, "incremental", "batch"])
    nodes, models = [], []
    for j in range(1 if kind == "clone" else n):
        d = dims[j]
        if kind != "clone" and n > 1 and rng.random() < .3 and j:
            nd = Rec(log, j, trainable=False, input_dim=d, output_dim=d)
            m = Model(j, 1, (0,), "batch", False, [0.])
        else:
            nd = ORec(log, j, input_dim=d, output_dim=d)
            m = Model(j, 1, (), how or "incremental")
            if how:
                nd.set_training_type(how)
        nodes.append(nd)
        models.append(m)
    if kind == "clone":
        dims = [dims[0]] * n
        L = mdp.hinet.CloneOnlineLayer(nodes[0], n)
        nodes, models = nodes * n, models * n
    else:
        L = (mdp.hinet.OnlineLayer if kind == "layer" else mdp.hinet.SameInputOnlineLayer)(nodes)
    lt = "batch" if how == "batch" else "incremental"
    note(kind=kind, dims=dims, how=how, trains=[m.trains for m in models])
    total = 0

    def cut(x, j):
        if kind == "same":
            return x
        a = sum(dims[:j])
        return x[:, a:a + dims[j]]
    for _ in range(rng.randint(1, 3)):
        x = arr(rng, dims[0] if kind == "same" else sum(dims))
        note(x=x.tolist())
        L.train(x)
        total += len(x)
        for b in ([x[i:i + 1] for i in range(len(x))] if lt == "incremental" else [x]):
            for j, m in enumerate(models):
                if m.trains:
                    m.train(cut(b, j), want)
        check_log(learners(log), want, "learners")
        check(L.get_current_train_iteration() == total, "iterations")
        y = L.execute(x)
        check(same(y, np.concatenate([m.execute(cut(x, j)) for j, m in enumerate(models)], axis=1)), "execution between updates")
        check(L.is_training(), "training ended by execution")
    L.stop_training()
    ids = [0] if kind == "clone" else [j for j, m in enumerate(models) if m.trains]
    want += [("stop", j, 0, None, ()) for j in ids]
    check_log(learners(log), want, "closing")


@scenario("chunks do not matter", n=400, thorough=15)
def chunks(rng, note):
    """incremental nodes of the package: one call with all samples, or any chunking, is the same"""
    d = rng.randint(2, 4)
    x = arr(rng, d, rng.randint(2, 12))
    mk = rng.choice([lambda r: mdp.nodes.OnlineCenteringNode(avg_n=rng_n, numx_rng=r),
                     lambda r: mdp.nodes.OnlineTimeDiffNode(numx_rng=r),
                     lambda r: mdp.nodes.CCIPCANode(output_dim=2, numx_rng=r),
                     lambda r: mdp.nodes.MCANode(output_dim=2, numx_rng=r)])
    rng_n = rng.choice([None, 3])
    seed = rng.randint(0, 10 ** 6)
    nds = [mk(mdp.numx_rand.RandomState(seed)) for _ in range(2)]
    note(node=type(nds[0]).__name__, x=x.tolist(), avg_n=rng_n)
    nds[0].train(x)
    cuts = sorted(set([0, len(x)] + [rng.randint(0, len(x)) for _ in range(3)]))
    for a, b in zip(cuts, cuts[1:]):
        nds[1].train(x[a:b])
    check(nds[0].get_current_train_iteration() == nds[1].get_current_train_iteration() == len(x), "iterations")
    y = arr(rng, d, 4)
    check(np.allclose(nds[0].execute(y), nds[1].execute(y), rtol=1e-7, atol=1e-9), "the chunking matters")
    if isinstance(nds[0], mdp.nodes.OnlineCenteringNode) and rng_n is None:
        check(np.allclose(nds[0].get_average(), x.mean(axis=0)) if hasattr(nds[0], "get_average") else True, "average")
