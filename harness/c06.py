"""C06 on concrete flows: crashes and checkpoints."""
import os
import pickle
import re
import shutil
import tempfile
import numpy as np
import mdp
from mdp import Flow, CheckpointFlow, FlowException, FlowExceptionCR
from .base import *
from .nodes import *

SCRATCH = tempfile.mkdtemp(prefix="verif_c06_")
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)
tempfile.tempdir = SCRATCH


class Odd(Exception):
    """an exception with an unusual constructor"""
    def __init__(self, a, b):
        Exception.__init__(self, a, b)


ERRS = [lambda: Boom("x"), lambda: ValueError("bad value"), lambda: KeyError("k"), lambda: Odd(1, 2), lambda: mdp.NodeException("n"),
        lambda: RuntimeError(), lambda: MemoryError("m"), lambda: mdp.TrainingException("t"), lambda: ZeroDivisionError("%d %s"),
        lambda: StopIteration("s"), lambda: AttributeError("a"), lambda: TypeError("t"), lambda: IndexError("i")]


class F(Rec):
    """Rec whose failure is a chosen exception"""
    err = None

    def hit(self, kind):
        self.calls[kind] = self.calls.get(kind, 0) + 1
        if self.fail is not None and self.fail[0] == kind and self.calls[kind] == self.fail[1]:
            self.log.append(("FAIL", self.nm, None, None, ()))
            raise self.err


class Shy(F):
    """picklable"""
    def __getstate__(self):
        d = dict(self.__dict__)
        for k in list(d):
            if "train_seq" in k:
                del d[k]
        d["log"] = []
        d["err"] = None
        return d


def names(e, pos):
    return re.search(r"node\D{0,8}\b%d\b" % pos, str(e), re.I) is not None


def files():
    return sorted(os.listdir(SCRATCH))


def checked(e, pos, flow, err, note):
    check(names(e, pos), "the message does not name node %d: %s", pos, str(e)[-300:])


@scenario("crash", n=1500, thorough=12)
def crash(rng, note):
    log = []
    n = rng.randint(1, 5)
    cols = rng.randint(1, 3)
    for f in files():
        os.unlink(os.path.join(SCRATCH, f))
    nodes = [Shy(log, i, phases=rng.randint(1, 2), trainable=rng.random() < .6) for i in range(n)]
    where = rng.choice(["execute", "inverse", "train", "stop"])
    bad = nodes[rng.randrange(n)]
    nth = rng.randint(1, 3)
    what = rng.choice(["execute", "inverse", "train"])
    rec = rng.choice([False, False, True, os.path.join(SCRATCH, "dump")])
    cls = rng.choice([Flow, CheckpointFlow])
    fl = cls(nodes, crash_recovery=rec) if rng.random() < .5 else cls(nodes)
    fl.set_crash_recovery(rec)
    chunks = [arr(rng, cols) for _ in range(rng.randint(1, 3))]
    if what != "train":
        Flow.train(fl, [chunks] * n) if any(nd.tr for nd in nodes) else None
        fl.execute(chunks[0])
    for nd in nodes:
        nd.calls = {}
    del log[:]
    bad.fail = (where, nth)
    bad.err = err = rng.choice(ERRS)()
    note(n=n, where=where, bad=bad.nm, nth=nth, what=what, rec=rec, err=err, phases=[(nd.ph, nd.tr) for nd in nodes])
    if what == "train":
        run = (lambda: fl.train([chunks] * n)) if cls is Flow else (lambda: fl.train([chunks] * n, None))
    else:
        run = lambda: getattr(fl, what)(rng.choice([chunks, chunks[0]]))
    try:
        run()
    except Exception as e:
        check(any(l[0] == "FAIL" for l in log), "failure without a failing node: %r", e)
        check(log[-1][0] == "FAIL", "a node was called after the failure: %r", [l[:2] for l in log])
        if isinstance(err, mdp.TrainingFinishedException):
            raise Skip()
        check(isinstance(e, FlowException), "%s instead of a flow exception", type(e).__name__)
        check(names(e, bad.nm), "the message does not name node %d: %s", bad.nm, str(e)[-300:])
        if what != "train" or where in ("train",) or (where == "stop" and bad is nodes[-1] and False):
            check(isinstance(e, FlowExceptionCR), "not a crash-recovery exception")
        if isinstance(e, FlowExceptionCR):
            check(e.parent_exception is err, "the original exception is %r", e.parent_exception)
            check(e.crashing_obj is fl, "the flow is not attached")
        if rec is False:
            check(files() == [], "files were written without crash recovery: %r", files())
        else:
            check(len(files()) == 1, "crash dumps: %r", files())
            name = os.path.join(SCRATCH, files()[0])
            if rec is not True:
                check(name == rec, "dumped to %s instead of %s", name, rec)
            if isinstance(e, FlowExceptionCR):
                check(e.filename == name, "filename attribute")
            with open(name, "rb") as fh:
                back = pickle.load(fh)
            check(type(back) is cls and [x.nm for x in back] == [x.nm for x in nodes], "the dump is not the flow")
            check([x.s for x in back] == [x.s for x in nodes], "the dump does not hold the nodes' state")
    else:
        check(not any(l[0] == "FAIL" for l in log), "a node's exception was lost")
        check(files() == [], "files written")


def mkcheck(rng, i, log, rets):
    k = rng.choice(["none", "fn", "fn", "fn"])
    if k == "none":
        return None
    ret = rng.choice([None, None, {}, {"attr": ("v", i)}, {"attr_%d" % i: i, "both": i}])
    rets[i] = ret

    class F(mdp.CheckpointFunction):
        def __call__(self, node):
            log.append(("checkpoint", i, node, None, ()))
            return ret

        def __len__(self):
            return 0
    if rng.random() < .3:
        return F()

    def f(node):
        log.append(("checkpoint", i, node, None, ()))
        return ret
    return f


def events(log):
    return [e[:3] if e[0] != "checkpoint" else (e[0], e[1], e[2].nm) for e in log if e[0] in ("train", "stop", "checkpoint")]


def checkpoint_case(rng, note, make, train, closes):
    log = []
    n = rng.randint(1, 5)
    cols = rng.randint(1, 3)
    nodes = [Rec(log, i, phases=rng.randint(1, 3), trainable=rng.random() < .7) for i in range(n)]
    rets = {}
    fl = make(nodes)
    form = rng.choice(["list", "list", "single", "none", "wrong"])
    if form == "list":
        cps = [mkcheck(rng, i, log, rets) for i in range(n)]
    elif form == "single":
        def cps(node):
            log.append(("checkpoint", node.nm, node, None, ()))
    elif form == "none":
        cps = None
    else:
        cps = [None] * rng.choice([k for k in range(0, 7) if k != n])
        cps = [(lambda nd: log.append(("checkpoint", -1, nd, None, ()))) if rng.random() < .5 else c for c in cps]
    chunks = [arr(rng, cols) for _ in range(rng.randint(1, 2))]
    note(n=n, form=form, nodes=[(x.ph, x.tr) for x in nodes], rets=rets, cls=type(fl).__name__)
    before = dict(fl.__dict__)
    if form == "wrong":
        raises(mdp.FlowException, train, fl, [chunks] * n, cps)
        check(not log, "something happened before the checkpoints were refused: %r", events(log))
        return
    train(fl, [chunks] * n, cps)
    got = [e for e in log if e[0] == "checkpoint"]
    want = [i for i in range(n) if form == "single" or (form == "list" and cps[i] is not None)]
    check([e[1] for e in got] == want, "checkpoints called: %r, expected %r", [e[1] for e in got], want)
    for e in got:
        check(e[2] is nodes[e[1]], "checkpoint %d was given node %d", e[1], e[2].nm)
    # position: after all training of node i, before anything of a later node
    for p, e in enumerate(log):
        if e[0] == "checkpoint":
            i = e[1]
            check(not any(l[0] == "train" and l[1] <= i for l in log[p + 1:]), "node %d trained after checkpoint %d", i, i)
            check(not any(l[0] == "train" and l[1] > i for l in log[:p]), "a later node trained before checkpoint %d", i)
            check(sum(l[0] == "train" and l[1] == i for l in log[:p]) == (nodes[i].ph * len(chunks) if nodes[i].tr else 0),
                  "node %d not completely trained at its checkpoint", i)
            if closes:
                check(sum(l[0] == "stop" and l[1] == i for l in log[:p]) == (nodes[i].ph if nodes[i].tr else 0), "training of node %d still open", i)
    exp = {}
    for i in range(n):
        if form == "list" and cps[i] is not None and rets.get(i):
            exp.update(rets[i])
    for k in exp:
        check(fl.__dict__.get(k) == exp[k], "attribute %s is %r, expected %r", k, fl.__dict__.get(k), exp[k])
    new = {k for k in fl.__dict__ if k not in before and (k.startswith("attr") or k == "both")}
    check(new == set(exp), "attributes added: %r, expected %r", new, set(exp))
    check(not nodes[-1].is_training(), "the last node was left open")
    check(list(fl) == nodes, "nodes changed")


@scenario("checkpoints", n=800, thorough=12)
def checkpoints(rng, note):
    checkpoint_case(rng, note, CheckpointFlow, lambda f, d, c: f.train(d, c), False)


@scenario("bi-flow checkpoints", n=300, thorough=12)
def bicheckpoints(rng, note):
    from bimdp import BiFlow
    from bimdp.biflow import BiCheckpointFlow
    checkpoint_case(rng, note, BiCheckpointFlow, lambda f, d, c: f.train(d, c), True)


@scenario("checkpoint functions", n=60, thorough=5)
def savefun(rng, note):
    for f in files():
        os.unlink(os.path.join(SCRATCH, f))
    x = np.random.RandomState(rng.randrange(10 ** 6)).randn(30, 3)
    nodes = [mdp.nodes.PCANode(), mdp.nodes.SFANode()]
    stop = rng.choice([0, 1])
    name = os.path.join(SCRATCH, "cp")
    i = rng.randrange(2)
    note(stop=stop, i=i)
    cps = [None, None]
    cps[i] = mdp.CheckpointSaveFunction(name, stop_training=stop, binary=rng.choice([0, 1]), protocol=rng.choice([1, 2]))
    fl = CheckpointFlow(nodes)
    fl.train([x, x] if False else [[x], [x]], cps)
    with open(name, "rb") as fh:
        back = pickle.load(fh)
    check(type(back) is type(nodes[i]), "another node was saved")
    check(back.is_training() == (not stop), "saved node training: %r", back.is_training())
    if back.is_training():
        back.stop_training()
    y = x if i == 0 else nodes[0].execute(x)
    check(np.allclose(back.execute(y), nodes[i].execute(y)), "the saved node differs")
