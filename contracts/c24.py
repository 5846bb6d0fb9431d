"""C24: classifiers' labels, probabilities and ranks agree; cumulated data; counted frequencies."""
from .common import *
from .arrays import *
import mdp
from mdp import TrainingException
from mdp import classifier_node as C
from mdp.nodes import classifier_nodes as N
import mdp.utils
from bimdp import biclassifier as BC

MC = "mdp.classifier_node:"
MN = "mdp.nodes.classifier_nodes:"
trusted("sorted: a permutation of the (selected) elements with ordered keys; itemgetter; tuples of the same numbers are equal keys")
trusted("izip_stretched: pairs every sample with its label, or with the single label (checked up to 4 samples)")


class Label(Ind):
    family = "label"


class Wld(object):
    pass


def W():
    return P().globals["w"]


def make(cls, *a, **k):
    """an instance, built by the real constructor"""
    return cls(*a, **k)


# ------------------------------------------------------------------------------------------------ rankings
class Prob(object):
    """the probabilities of sample k: a dictionary from labels to numbers"""
    _vc_ghost = True

    def __init__(self, k):
        self.k = k

    def _span(self, f):
        k, w = self.k, W()
        P().axiom(w.size(k) >= 0)
        return VList.of([span(w.size(k), lambda j: f(k, j))])

    def items(self):
        w = W()
        return self._span(lambda k, j: (Label(w.label(k, j)), wrap(w.p(k, j))))

    def keys(self):
        return self._span(lambda k, j: Label(W().label(k, j)))

    def values(self):
        return self._span(lambda k, j: wrap(W().p(k, j)))

    def vc_segs(self):
        return self.keys().segs()

    def vc_len(self):
        return wrap(W().size(self.k))

    def __getitem__(self, q):
        return wrap(W().p(self.k, W().pos(self.k, q.idx)))

    def get(self, q, d=None):
        return self[q]


class Done(object):
    """the ranking of sample k"""
    _vc_ghost = True

    def __init__(self, k):
        self.k = k

    def vc_eq(self, o):
        return isinstance(o, Done) and self.k == o.k


class Rankings(object):
    """loop over the samples: the list holds the rankings of the samples so far"""
    def __init__(self, loop, l):
        self.lists = [q for q in l.values() if isinstance(q, VList) and not q.sym and not list.__len__(q)]
        self.objects = self.lists[:1]

    def check(self, when, k):
        rt.oblige("a list of rankings is collected", len(self.lists) == 1)
        segs = list(self.lists[0].segs())
        if when == "initially":
            rt.oblige("nothing yet", len(segs) == 0)
            return
        k = num_term(wrap(k))
        ok = rt.oblige("one ranking more", engine.segs_len(segs) == k)
        rt.oblige("earlier rankings are kept", len(segs) == 2 and segs[0] is self.rep or k == 1)
        last = segs[-1]
        judge(last.v if isinstance(last, Item) else None, k - 1)

    def havoc(self, k):
        self.rep = Rep(num_term(wrap(k)), lambda j: [Item(Done(j))])
        rt.last_sort = None
        self.lists[0].set_segs([self.rep])
        now = self.lists[0].segs()
        self.rep = now[0] if now else None


def judge(r, k):
    """r is the ranking of sample k"""
    w = W()
    rt.oblige("a ranking is a list", isinstance(r, list))
    if not isinstance(r, list):
        return
    segs = list(r.segs()) if isinstance(r, VList) else [Item(q) for q in r]
    n = engine.segs_len(segs)
    a, b, j = [P().fresh(s, I_) for s in ("a", "b", "j")]
    rng = lambda q: z3.And(0 <= q, q < n)
    P().assume(rng(a)), P().assume(rng(b))
    L = lambda q: engine.seq_at(segs, q)
    la, lb = L(a), L(b)
    rt.oblige("labels are listed", isinstance(la, Label))
    if not isinstance(la, Label):
        return
    pa, pb = w.pos(k, la.idx), w.pos(k, lb.idx)
    rt.oblige("only labels of the sample, above the threshold", z3.And(0 <= pa, pa < w.size(k), w.label(k, pa) == la.idx, w.above(w.p(k, pa))))
    rt.oblige("no label twice", z3.Implies(a != b, la.idx != lb.idx))
    rt.oblige("by decreasing probability", z3.Implies(a < b, w.p(k, pa) >= w.p(k, pb)))


def judge_complete(r, k):
    w = W()
    segs = list(r.segs()) if isinstance(r, VList) else [Item(q) for q in r]
    n = engine.segs_len(segs)
    j = P().fresh("j", I_)
    inside = z3.And(0 <= j, j < w.size(k), w.above(w.p(k, j)))
    if not segs:
        rt.oblige("every label above the threshold is listed", z3.Not(inside))
        return
    if rt.last_sort is not None:
        at = rt.last_sort[1](j)
        P().axiom(w.seen(j))
        el = engine.seq_at(segs, at)
        rt.oblige("every label above the threshold is listed", z3.Implies(inside, z3.And(0 <= at, at < n, el.idx == w.label(k, j))))
    else:
        q = z3.Int("qpos")
        rt.oblige("every label above the threshold is listed", z3.Implies(inside, z3.Exists([q], z3.And(
            0 <= q, q < n, engine.seq_at(segs, q).idx == w.label(k, j)))))


class RankNode(C.ClassifierNode):
    def prob(self, x, *a, **k):
        w = W()
        w.asked.append(x)
        return VList.of([span(w.R, lambda k: Prob(k))])


@unit("ClassifierNode.rank", [MC + "ClassifierNode.rank"])
def rank(v):
    w = P().globals["w"] = Wld()
    w.R, w.asked = v.fresh_int("samples", 0).t, []
    f = lambda n, *s: z3.Function(P().fresh_name(n), *s)
    w.size, w.label, w.p, w.pos = f("size", I_, I_), f("label", I_, I_, I_), f("p", I_, I_, R_), f("pos", I_, I_, I_)
    w.seen = f("seen", I_, z3.BoolSort())
    k, j = z3.Ints("qk qj")
    # the labels of a dictionary are distinct
    P().assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= j, j < w.size(k)), w.pos(k, w.label(k, j)) == j), patterns=[w.label(k, j)]), quantified=True)
    if v.case("threshold"):
        t = v.fresh_real("threshold")
        w.above = lambda p: p > t.t
        a = (t,)
    else:
        w.above = lambda p: z3.BoolVal(True)
        a = ()
    kw = {}
    if a and v.case("by keyword"):
        a, kw = (), {"threshold": a[0]}
    o = make(RankNode)
    x = new_data()
    done = []

    def spec(loop, l):
        if not isinstance(loop, engine.ForLoop) or not loop.sym:
            return None
        probe = [s for s in loop.segs if isinstance(s, Rep)]
        if len(loop.segs) != 1 or not probe:
            return None
        item = core._norm(probe[0].seg(z3.Int("probe")))[0].v
        # over the samples' probabilities, or over the indices of the samples
        if not (isinstance(item, Prob) or isinstance(item, core.SInt) and z3.eq(z3.simplify(item.t), z3.Int("probe"))
                and z3.eq(z3.simplify(num_term(wrap(probe[0].count))), w.R)):
            return None
        s = Rankings(loop, l)
        inner = s.check

        def check(when, k):
            inner(when, k)
            if when == "preserved":
                last = list(s.lists[0].segs())[-1]
                if isinstance(last, Item) and isinstance(last.v, list):
                    judge_complete(last.v, num_term(wrap(k)) - 1)
        s.check = check
        done.append(s)
        return s
    rt.hoare = [spec]
    r = o.rank(x, *a, **kw)
    v.oblige("the probabilities of the data, asked once", len(w.asked) == 1 and w.asked[0] is x)
    v.oblige("a list is returned", isinstance(r, list))
    segs = list(r.segs())
    v.oblige("a ranking for every sample", engine.segs_len(segs) == w.R)
    if segs:
        q = v.fresh_int("sample", 0).t
        v.assume(q < w.R)
        el = engine.seq_at(segs, q)
        v.oblige("the ranking of that sample", isinstance(el, Done) and el.k == q if not z3.is_expr(getattr(el, "k", None)) else el.k == q)


# ------------------------------------------------------------------------------------------------ results of execute
class Rec(object):
    def _pre_execution_checks(self, x):
        w = W()
        w.log.append(("check", x))
        if w.refuse:
            raise ZeroDivisionError("refused data")

    def _refcast(self, x):
        W().log.append(("cast", x))
        return cast_to(x, "node") if False else ("cast", x)

    def _label(self, x, *a, **k):
        W().log.append(("label", x, a, tuple(sorted(k.items()))))
        return W().result

    def _prob(self, x, *a, **k):
        W().log.append(("prob", x, a, tuple(sorted(k.items()))))
        return W().result


class RecNode(Rec, C.ClassifierNode):
    pass


@unit("ClassifierNode.label/prob", [MC + "ClassifierNode.label", MC + "ClassifierNode.prob"])
def label_prob(v):
    w = P().globals["w"] = Wld()
    w.log, w.result, w.refuse = [], VList(), v.case("refused data")
    o, x = make(RecNode), new_data()
    name = v.choose(["label", "prob"])
    a = (v.fresh_int("a"),) if v.case("argument") else ()
    k = {"key": v.fresh_int("b")} if v.case("keyword") else {}
    kind, r = outcome(getattr(o, name), x, *a, **k)
    if w.refuse:
        v.oblige("refused data are refused before anything is computed", kind == "exc" and isinstance(r, ZeroDivisionError)
                 and not [q for q in w.log if q[0] in ("label", "prob")])
        return
    v.oblige("no exception", kind == "ok")
    calls = [q for q in w.log if q[0] in ("label", "prob")]
    v.oblige("the data were checked first", w.log[0][0] == "check" and w.log[0][1] is x)
    v.oblige("one computation of the kind asked for", len(calls) == 1 and calls[0][0] == name)
    c = calls[0]
    v.oblige("of the data, cast to the node's type", type(c[1]) is tuple and c[1][0] == "cast" and c[1][1] is x)
    v.oblige("with the further arguments", len(c[2]) == len(a) and all(p is q for p, q in zip(c[2], a))
             and dict(c[3]) .keys() == k.keys() and all(dict(c[3])[q] is k[q] for q in k))
    v.oblige("its result is returned", r is w.result)


class Asked(object):
    def label(self, x, *a, **k):
        return W().ask("label", x, a, k)

    def prob(self, x, *a, **k):
        return W().ask("prob", x, a, k)

    def rank(self, x, *a, **k):
        return W().ask("rank", x, a, k)


class AskedNode(Asked, C.ClassifierNode):
    pass


def asked_world():
    w = P().globals["w"] = Wld()
    w.calls = []
    w.results = {q: VList([q]) for q in ("label", "prob", "rank")}

    def ask(name, x, a, k):
        w.calls.append((name, x, a, k))
        return w.results[name]
    w.ask = ask
    return w


@unit("ClassifierNode._execute", [MC + "ClassifierNode._execute", MC + "ClassifierNode.__init__"])
def execute(v):
    w = asked_world()
    m = v.choose([None, "", "label", "prob", "rank"])
    o = make(AskedNode) if m is None and v.case("default") else make(AskedNode, execute_method=m)
    v.oblige("the method is kept", o.execute_method == m)
    x = new_data()
    r = o._execute(x)
    if not m:
        v.oblige("the data are passed on", r is x and not w.calls)
    else:
        v.oblige("the selected result", r is w.results[m])
        v.oblige("one question, about the data", len(w.calls) == 1 and w.calls[0][0] == m and w.calls[0][1] is x and not w.calls[0][2] and not w.calls[0][3])


class AskedBi(Asked, BC.BiClassifier):
    pass


@unit("BiClassifier._execute", ["bimdp.biclassifier:BiClassifier._execute"])
def bi_execute(v):
    w = asked_world()
    o = make(AskedBi)
    x = new_data()
    kw, want = {}, {}
    for key, name, m in (("return_labels", "labels", "label"), ("return_probs", "probs", "prob"), ("return_ranks", "ranks", "rank")):
        req = v.choose(["absent", None, False, True, "", "pre "])
        if req != "absent":
            kw[key] = req
            if req:
                want[(req if isinstance(req, str) else "") + name] = w.results[m]
    r = o._execute(x, **kw)
    if not want:
        v.oblige("the data are passed on", r is x or (isinstance(r, tuple) and len(r) == 2 and r[0] is x and not r[1]))
    else:
        ok = v.oblige("data and message", isinstance(r, tuple) and len(r) == 2 and r[0] is x)
        msg = dict(r[1]) if isinstance(r, tuple) else {}
        v.oblige("exactly the requested results", set(msg) == set(want) and all(msg[q] is want[q] for q in want))
    v.oblige("asked about the data", all(c[1] is x and not c[2] and not c[3] for c in w.calls))


# ------------------------------------------------------------------------------------------------ cumulated data
@unit("lemma: quotient and remainder", [])
def quotient_lemma(v):
    """(q*g + r) // g = q and (q*g + r) % g = r for 0 <= r < g"""
    q, g, r = v.fresh_int("q").t, v.fresh_int("g", 1).t, v.fresh_int("r", 0).t
    v.assume(r < g)
    a, d, m = [P().fresh(s, I_) for s in "adm"]
    v.assume(a == q * g + r)
    v.assume(z3.And(a == d * g + m, m >= 0, m < g))       # the definition of a // g and a % g
    u = d - q
    P().axiom(u * g == d * g - q * g)
    v.oblige("not greater", z3.Implies(u >= 1, u * g >= g))
    v.oblige("not smaller", z3.Implies(u <= -1, u * g <= -g))
    P().axiom(z3.Implies(u >= 1, u * g >= g)), P().axiom(z3.Implies(u <= -1, u * g <= -g))
    v.oblige("the quotient", d == q)
    P().axiom(d == q)
    v.oblige("the remainder", m == r)
    e, f = v.fresh_int("e").t, v.fresh_int("f").t
    v.oblige("e <= f implies e*g <= f*g", z3.Implies(e <= f, (f - e) * g >= 0))


def quotient(q, r, g):
    P().axiom(z3.Implies(z3.And(g >= 1, r >= 0, r < g), z3.And((q * g + r) / g == q, (q * g + r) % g == r)))


def mono(a, b, s):
    P().axiom(z3.Implies(z3.And(a <= b, s >= 0), a * s <= b * s))


def label_forms(v, m):
    """labels of m samples: list, tuple or array, or a single label -> (labels, function)"""
    f = z3.Function(P().fresh_name("label"), I_, I_)
    form = v.choose(["list", "tuple", "array", "single"])
    if form == "list":
        return VList.of([span(m, lambda i: wrap(f(i)))]), f
    if form == "tuple":
        return engine.VTuple([span(m, lambda i: wrap(f(i)))]), f
    if form == "array":
        return SArr((wrap(m),), lambda i: f(i), I_), f
    one = v.fresh_int("one")
    return one, lambda i: one.t


def cumulator(v):
    w = P().globals["w"] = Wld()
    w.n, w.T = v.fresh_int("n", 1).t, v.fresh_int("T", 0).t
    w.D = z3.Function(P().fresh_name("D"), I_, R_)
    w.Lb = z3.Function(P().fresh_name("L"), I_, I_)
    o = make(C.ClassifierCumulator)
    o._input_dim = wrap(w.n)
    mono(0, w.T, w.n)
    v.oblige("a new node has no data", isinstance(o.data, list) and isinstance(o.labels, list) and not o.data and not o.labels and o.tlen == 0)
    o.data = VList.of([span(w.T * w.n, lambda i: wrap(w.D(i)))])
    o.labels = VList.of([span(w.T, lambda i: wrap(w.Lb(i)))])
    o.tlen = wrap(w.T)
    return w, o


@unit("ClassifierCumulator._train", [MC + "ClassifierCumulator._train", MC + "ClassifierCumulator._check_train_args", MC + "ClassifierCumulator.__init__"])
def cumulate(v):
    w, o = cumulator(v)
    n, T = w.n, w.T
    m = v.fresh_int("m", 1).t
    x, X = new_array("x", (wrap(m), wrap(n)))
    mono(1, m, n)
    labels, f = label_forms(v, m)
    kind, r = outcome(o._check_train_args, x, labels)
    v.oblige("labels of the right number are accepted", kind == "ok")
    if kind != "ok":
        return
    o._train(x, labels)
    oblige_arr(v, "data unchanged", x, X, (wrap(m), wrap(n)))
    v.oblige("number of samples", num_term(wrap(o.tlen)) == T + m)
    ok = isinstance(o.data, list) and isinstance(o.labels, list)
    v.oblige("lists are kept", ok)
    if not ok:
        return
    ds, ls = list(o.data.segs()), list(o.labels.segs())
    v.oblige("amount of data", engine.segs_len(ds) == (T + m) * n)
    v.oblige("number of labels", engine.segs_len(ls) == T + m)
    t, c = v.fresh_int("t", 0).t, v.fresh_int("c", 0).t
    v.assume(z3.And(t < T + m, c < n))
    quotient(t - T, c, n), mono(t + 1, T, n), mono(T, t, n), mono(t + 1, T + m, n)
    P().axiom((t - T) * n == t * n - T * n)
    got = num_term(engine.seq_at(ds, t * n + c))
    v.oblige("earlier data", z3.Implies(t < T, got == w.D(t * n + c)))
    v.oblige("the new data follow", z3.Implies(t >= T, got == X(t - T, c)))
    lab = num_term(engine.seq_at(ls, t))
    v.oblige("every sample has its label", lab == z3.If(t < T, w.Lb(t), f(t - T)))


@unit("ClassifierCumulator._stop_training", [MC + "ClassifierCumulator._stop_training"])
def finish(v):
    w, o = cumulator(v)
    n, T = w.n, w.T
    v.assume(T >= 1)
    mono(1, T, n)
    o._stop_training()
    d, l = o.data, o.labels
    v.oblige("arrays", isinstance(d, SArr) and isinstance(l, SArr) and d.ndim == 2 and l.ndim == 1)
    v.oblige("shapes", z3.And(dim_eq(d.shape[0], T), dim_eq(d.shape[1], n), dim_eq(l.shape[0], T)))
    t, c = v.fresh_int("t", 0).t, v.fresh_int("c", 0).t
    v.assume(z3.And(t < T, c < n))
    mono(t + 1, T, n)
    mono(0, t, n)
    v.oblige("column c of sample t", d.at(t, c) == w.D(t * n + c))
    v.oblige("its label", l.at(t) == w.Lb(t))


CHECKERS = [(C.ClassifierCumulator, MC), (N.SimpleMarkovClassifier, MN), (N.NearestMeanClassifier, MN), (N.GaussianClassifier, MN),
            (N.PerceptronClassifier, MN)]


@unit("_check_train_args", [m + c.__name__ + "._check_train_args" for c, m in CHECKERS])
def wrong_number(v):
    cls, _ = v.choose(CHECKERS)
    o = make(cls)
    m, q = v.fresh_int("m", 0).t, v.fresh_int("q", 0).t
    x, X = new_array("x", (wrap(m), wrap(v.fresh_int("n", 1).t)))
    labels, f = label_forms(v, q)
    before = dict(o.__dict__)
    if cls is N.PerceptronClassifier:
        j = z3.Int("lj")
        if is_sym(labels) and not isinstance(labels, (SArr, engine.VTuple)):
            v.assume(z3.Or(labels.t == 1, labels.t == -1))
        else:
            P().assume(z3.ForAll([j], z3.Or(f(j) == 1, f(j) == -1), patterns=[f(j)]), quantified=True)
        if P().branch(q == m):
            return                      # (the values are checked by the harness)
    kind, r = outcome(o._check_train_args, x, labels)
    many = not (is_sym(labels) and isinstance(labels, SNum))
    if many:
        v.oblige("refused exactly when the numbers differ", z3.BoolVal(kind == "exc") == (q != m))
        v.oblige("the documented exception", kind == "ok" or isinstance(r, TrainingException))
    else:
        v.oblige("a single label is accepted", kind == "ok")
    v.oblige("nothing changes", dict(o.__dict__) == before)


# ------------------------------------------------------------------------------------------------ counted frequencies
class Feature(Ind):
    family = "feature"


class RowOf(Ind):
    """a row of data; tuple(row) is its feature"""
    family = "row"

    def vc_tuple(self):
        return Feature(W().feature(self.idx))


class Counts(object):
    """a dictionary from keys to counts; contents: has(key), val(key)"""
    _vc_ghost = True

    def __init__(self, name, count, keyof):
        self.count, self.keyof = count, keyof
        self.has = lambda *q: count(*q) > 0
        self.val = lambda *q: count(*q)

    def _k(self, q):
        return self.keyof(q)

    def vc_contains(self, q):
        return wrap(self.has(*self._k(q)))

    def __contains__(self, q):
        return P().branch(self.has(*self._k(q)))

    def __getitem__(self, q):
        k = self._k(q)
        if not P().branch(self.has(*k)):
            raise KeyError(q)
        return wrap(self.val(*k))

    def get(self, q, d=None):
        return self[q] if q in self else d

    def setdefault(self, q, d=None):
        if q not in self:
            self[q] = d
        return self[q]

    def __setitem__(self, q, x):
        k, has, val, t = self._k(q), self.has, self.val, num_term(wrap(x))
        same = lambda z: z3.And(*[a == b for a, b in zip(z, k)])
        self.has = lambda *z: z3.Or(same(z), has(*z))
        self.val = lambda *z: z3.If(same(z), t, val(*z))

    def vc_segs(self):
        if self.keyof is not label_key:
            raise Unsupported("iteration over the counts")
        w = W()
        return [span(w.nl, lambda j: Label(w.lab(j)))]

    def __iter__(self):
        return engine.VIter(self.vc_segs(), "counts")

    def keys(self):
        return VList.of(self.vc_segs())

    def items(self):
        w = W()
        return VList.of([span(w.nl, lambda j: (Label(w.lab(j)), wrap(self.val(w.lab(j)))))])


def label_key(q):
    if not isinstance(q, Label):
        raise Unsupported("key %r" % (q,))
    return (q.idx,)


def feature_key(q):
    if not isinstance(q, Feature):
        raise Unsupported("key %r" % (q,))
    return (q.idx,)


def pair_key(q):
    if not (isinstance(q, tuple) and len(q) == 2 and isinstance(q[0], Feature) and isinstance(q[1], Label)):
        raise Unsupported("key %r" % (q,))
    return (q[0].idx, q[1].idx)


class Tuples(object):
    """tuple() of a row is its feature"""
    def __enter__(self):
        self.old = rt.handlers[tuple]

        def h(*a):
            if len(a) == 1 and isinstance(a[0], RowOf):
                return a[0].vc_tuple()
            if len(a) == 1 and isinstance(a[0], Feature):
                return a[0]
            return self.old(*a)
        rt.handlers[tuple] = h

    def __exit__(self, *a):
        rt.handlers[tuple] = self.old


class Markov(N.SimpleMarkovClassifier):
    pass


def markov(v, cls=Markov):
    """an arbitrary history: cf, cl, cc are the numbers of samples learned with a feature, a label, both"""
    w = P().globals["w"] = Wld()
    f = lambda n, *s: z3.Function(P().fresh_name(n), *s)
    w.feature, w.cf, w.cl, w.cc = f("feature", I_, I_), f("with_feature", I_, I_), f("with_label", I_, I_), f("with_both", I_, I_, I_)
    w.N = v.fresh_int("learned", 0).t
    o = make(cls)
    v.oblige("a new node has learned nothing", not o.labels and not o.features and not o.connections and o.ntotal_connections == 0)
    o.features, o.labels, o.connections = Counts("features", w.cf, feature_key), Counts("labels", w.cl, label_key), Counts("connections", w.cc, pair_key)
    o.ntotal_connections = wrap(w.N)
    return w, o


def history(w, a, b):
    """facts about the numbers of a history, for feature a and label b"""
    P().axiom(z3.And(w.cf(a) >= 0, w.cl(b) >= 0, w.cc(a, b) >= 0, w.cc(a, b) <= w.cf(a), w.cc(a, b) <= w.cl(b), w.cf(a) <= w.N, w.cl(b) <= w.N))


@unit("SimpleMarkovClassifier._learn", [MN + "SimpleMarkovClassifier._learn", MN + "SimpleMarkovClassifier.__init__"])
def learn(v):
    w, o = markov(v)
    r, l = RowOf(P().fresh("row", I_)), Label(P().fresh("label", I_))
    a, b = P().fresh("some_feature", I_), P().fresh("some_label", I_)
    f = w.feature(r.idx)
    for p in (a, f):
        for q in (b, l.idx):
            history(w, p, q)
    with Tuples():
        o._learn(r, l)
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    v.oblige("number of samples", num_term(wrap(o.ntotal_connections)) == w.N + 1)
    for name, table, key, count in (("feature", o.features, (a,), w.cf(a) + one(a == f)), ("label", o.labels, (b,), w.cl(b) + one(b == l.idx)),
                                    ("both", o.connections, (a, b), w.cc(a, b) + one(z3.And(a == f, b == l.idx)))):
        v.oblige("a count for what was learned (%s)" % name, table.has(*key) == (count > 0))
        v.oblige("the count (%s)" % name, z3.Implies(count > 0, table.val(*key) == count))


class Learner(N.SimpleMarkovClassifier):
    def _learn(self, feature, label):
        W().learned.append((feature, label))

    def _prob_one(self, feature):
        W().asked.append(feature)
        return Answer(feature.idx)


class Answer(Ind):
    family = "answer"


class RowsOf(object):
    _vc_ghost = True

    def __init__(self, m):
        self.m = m
        self.shape = (wrap(m), None)

    def vc_segs(self):
        return [span(self.m, lambda i: RowOf(i))]

    def vc_len(self):
        return wrap(self.m)


def stretched(x, labels):
    w = W()
    if not isinstance(x, RowsOf):
        raise Unsupported("izip_stretched(%r, ..)" % (x,))
    return VList.of([span(x.m, lambda i: (RowOf(i), wrap(w.f(i))))])


@unit("SimpleMarkovClassifier._train/_prob", [MN + "SimpleMarkovClassifier._train", MN + "SimpleMarkovClassifier._prob"])
def train_all(v):
    w = P().globals["w"] = Wld()
    m = v.fresh_int("m", 0).t
    o = make(Learner)
    x = RowsOf(m)
    w.learned, w.asked = VList(), VList()
    if v.case("train"):
        labels, w.f = label_forms(v, m)
        with Patched(mdp.utils, izip_stretched=lambda a, b: stretched(a, b) if b is labels else engine.Unsupported):
            o._train(x, labels)
        want = VList.of([span(m, lambda i: (RowOf(i), wrap(w.f(i))))])
        v.oblige_eq("every sample is learned with its label, once", w.learned, want)
        return
    r = o._prob(x)
    v.oblige_eq("the answer for every sample, in order", r, VList.of([span(m, lambda i: Answer(i))]))


@unit("izip_stretched (bounded: up to 4 samples)", ["mdp.utils.routines:izip_stretched"])
def stretch(v):
    m = v.choose([0, 1, 2, 3, 4])
    xs = [v.fresh_int("x") for _ in range(m)]
    form = v.choose(["list", "tuple", "single"])
    if form == "single":
        one = 7
        r = list(mdp.utils.izip_stretched(xs, one))
        v.oblige("every sample with the label", len(r) == m and all(p[0] is q and p[1] == 7 for p, q in zip(r, xs)))
    else:
        ls = [v.fresh_int("l") for _ in range(m)]
        r = list(mdp.utils.izip_stretched(xs, ls if form == "list" else tuple(ls)))
        v.oblige("every sample with its label", len(r) == m and all(p[0] is q and p[1] is s for p, q, s in zip(r, xs, ls)))


class Frequencies(object):
    """loop over the labels: the answers for the labels so far"""
    def __init__(self, l):
        self.dicts = [q for q in l.values() if isinstance(q, engine.VDict) and q._mem is None and not dict.__len__(q)]
        self.objects = self.dicts[:1]

    def want(self, b):
        w = W()
        return z3.ToReal(w.cc(w.f0, b)) / z3.ToReal(w.cf(w.f0))

    def check(self, when, k):
        w = W()
        rt.oblige("the answers are collected", len(self.dicts) == 1)
        d = self.dicts[0]
        b = P().fresh("some_label", I_)
        P().axiom(w.some(b))
        k = num_term(wrap(k))
        has = d._mem.has(b) if d._mem is not None else z3.BoolVal(False)
        rt.oblige("labels so far", has == z3.And(w.at(b) < k, w.at(b) >= 0))
        if d._mem is not None:
            P().assume(has)
            P().axiom(z3.And(w.at(b) < w.nl, w.lab(w.at(b)) == b))
            history(w, w.f0, b)
            val = d._mem.value(b)
            rt.oblige("a number", is_sym(val) and isinstance(val, SNum))
            if w.now is not None:
                history(w, w.f0, w.now)
            rt.oblige("the conditional frequency", real(val) == self.want(b))

    def havoc(self, k):
        w = W()
        k = num_term(wrap(k))
        w.now = w.lab(k)
        P().axiom(w.some(w.lab(k)))
        history(w, w.f0, w.now)
        P().axiom(z3.Implies(k < w.nl, w.cl(w.now) > 0))
        d = self.dicts[0]
        d._mem = engine.Mem(lambda b: z3.And(w.at(b) >= 0, w.at(b) < k), lambda b: wrap(self.want(b)), Label)


@unit("SimpleMarkovClassifier._prob_one", [MN + "SimpleMarkovClassifier._prob_one"])
def prob_one(v):
    w, o = markov(v)
    w.nl, w.now = v.fresh_int("labels", 0).t, None
    w.lab, w.at = [z3.Function(P().fresh_name(q), I_, I_) for q in ("lab", "at")]
    w.some = z3.Function(P().fresh_name("some"), I_, z3.BoolSort())
    b, j = z3.Ints("qb qj")
    # the iteration over the labels: each label with a count, once
    P().assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w.nl), z3.And(w.at(w.lab(j)) == j, w.cl(w.lab(j)) > 0)), patterns=[w.lab(j)]), quantified=True)
    P().assume(z3.ForAll([b], z3.Implies(z3.And(0 <= w.at(b), w.at(b) < w.nl), w.lab(w.at(b)) == b), patterns=[w.some(b)]), quantified=True)
    P().assume(z3.ForAll([b], z3.And(w.at(b) >= 0, w.at(b) < w.nl) == (w.cl(b) > 0), patterns=[w.some(b)]), quantified=True)
    row = RowOf(P().fresh("row", I_))
    w.f0 = w.feature(row.idx)
    counts = (o.features, o.labels, o.connections)
    before = [(q.has, q.val) for q in counts]
    P().axiom(z3.And(w.cf(w.f0) >= 0, w.cf(w.f0) <= w.N))

    def spec(loop, l):
        return Frequencies(l) if getattr(loop, "sym", False) else None
    rt.hoare = [spec]
    with Tuples():
        r = o._prob_one(row)
    v.oblige("a dictionary", isinstance(r, dict))
    some = v.fresh_int("label").t
    P().axiom(w.some(some))
    history(w, w.f0, some)
    mem = r._mem if isinstance(r, engine.VDict) else None
    if mem is None:
        v.oblige("nothing is known only without samples of the feature, or without labels", z3.And(dict.__len__(r) == 0, z3.Or(w.cf(w.f0) == 0, w.nl == 0)))
    else:
        v.oblige("the feature was learned", w.cf(w.f0) > 0)
        v.oblige("exactly the learned labels", mem.has(some) == (w.cl(some) > 0))
        v.assume(mem.has(some))
        v.oblige("the empirical conditional frequency", real(mem.value(some)) == z3.ToReal(w.cc(w.f0, some)) / z3.ToReal(w.cf(w.f0)))
    v.oblige("asking changes nothing", (o.features, o.labels, o.connections) == counts and all(q.has is a and q.val is b for q, (a, b) in zip(counts, before)))


# ------------------------------------------------------------------------------------------------ means, covariances
@unit("NearestMeanClassifier._update_mean", [MN + "NearestMeanClassifier._update_mean", MN + "NearestMeanClassifier._train", MN + "NearestMeanClassifier.__init__"])
def update_mean(v):
    o = make(N.NearestMeanClassifier)
    n, m = v.fresh_int("n", 1).t, v.fresh_int("m", 1).t
    o._input_dim = wrap(n)
    x, X = new_array("x", (wrap(m), wrap(n)))
    known, other = v.case("label seen before"), v.case("another label")
    old, O = new_array("sum", (wrap(n),))
    keep, K = new_array("other", (wrap(n),))
    count = v.fresh_int("count", 1)
    if known:
        o.label_means["a"], o.n_label_samples["a"] = old, count
    if other:
        o.label_means["b"], o.n_label_samples["b"] = keep, 5
    o._train(x, "a") if v.case("through train") else o._update_mean(x, "a")
    oblige_arr(v, "data unchanged", x, X, (wrap(m), wrap(n)))
    v.oblige("labels", set(o.label_means) == set(o.n_label_samples) == ({"a", "b"} if other else {"a"}))
    r = o.label_means["a"]
    v.oblige("one sum per column", isinstance(r, SArr) and r.ndim == 1 and dim_eq(r.shape[0], n))
    c = v.fresh_int("c", 0).t
    v.assume(c < n)
    s = ssum(lambda t: X(t, c), 0, m)
    v.oblige("the samples are added", canon(r.at(c)) == canon(O(c) + s if known else s))
    v.oblige("the samples are counted", num_term(wrap(o.n_label_samples["a"])) == (count.t + m if known else m))
    if other:
        v.oblige("other labels are kept", o.label_means["b"] is keep and o.n_label_samples["b"] == 5)
        v.oblige("other sums are kept", keep.at(c) == K(c))


@unit("NearestMeanClassifier._stop_training (bounded: up to 3 labels)", [MN + "NearestMeanClassifier._stop_training"])
def finish_means(v):
    o = make(N.NearestMeanClassifier)
    n = v.fresh_int("n", 1).t
    o._input_dim = wrap(n)
    names = ["a", "b", "c"][:v.choose([1, 2, 3])]
    sums, counts = {}, {}
    for q in names:
        o.label_means[q], sums[q] = new_array("sum", (wrap(n),))
        counts[q] = o.n_label_samples[q] = v.fresh_int("count", 1)
    o._stop_training()
    v.oblige("the labels", sorted(o.ordered_labels) == names)
    M = o.ordered_means
    v.oblige("a row per label", isinstance(M, SArr) and M.ndim == 2 and dim_eq(M.shape[0], len(names)) and dim_eq(M.shape[1], n))
    c = v.fresh_int("c", 0).t
    v.assume(c < n)
    for i, q in enumerate(o.ordered_labels):
        want = div(sums[q](c), z3.ToReal(counts[q].t))
        v.oblige("the mean of the label", canon(M.at(z3.IntVal(i), c)) == canon(want))


class Covs(object):
    _vc_ghost = True

    def __init__(self, dtype=None, *a, **k):
        self.dtype, self.log = dtype, []
        W().made.append(self)

    def update(self, x):
        self.log.append(x)


@unit("GaussianClassifier._update_covs", [MN + "GaussianClassifier._update_covs", MN + "GaussianClassifier.__init__"])
def update_covs(v):
    w = P().globals["w"] = Wld()
    w.made = []
    o = make(N.GaussianClassifier)
    o._dtype = new_dtype()
    known, other = v.case("label seen before"), v.case("another label")
    if known:
        o._cov_objs["a"] = Covs()
    if other:
        o._cov_objs["b"] = Covs()
    before = dict(o._cov_objs)
    x = new_data()
    with Patched(mdp.utils, CovarianceMatrix=Covs):
        o._train(x, "a") if v.case("through train") else o._update_covs(x, "a")
    v.oblige("labels", set(o._cov_objs) == set(before) | {"a"})
    v.oblige("the collections of all labels are kept", all(o._cov_objs[q] is before[q] for q in before))
    v.oblige("the data are collected under their label only", all([c is x for c in o._cov_objs["a"].log]) and len(o._cov_objs["a"].log) == 1
             and not (other and o._cov_objs["b"].log))


class Gauss(N.GaussianClassifier):
    def _pre_execution_checks(self, x):
        pass

    def _gaussian_prob(self, x, i):
        w = W()
        w.asked.append(x)
        return SArr((wrap(w.m),), lambda t: w.g[i](t), R_)


@unit("GaussianClassifier.class_probabilities (bounded: up to 3 labels)", [MN + "GaussianClassifier.class_probabilities"])
def posterior(v):
    w = P().globals["w"] = Wld()
    K = v.choose([1, 2, 3])
    w.m, w.asked = v.fresh_int("m", 1).t, []
    w.g = [z3.Function(P().fresh_name("density"), I_, R_) for _ in range(K)]
    o = make(Gauss)
    o._dtype = None
    o.labels = ["a", "b", "c"][:K]
    p = [v.fresh_real("prior") for _ in range(K)]
    o.p = list(p)
    x, X = new_array("x", (wrap(w.m), wrap(v.fresh_int("n", 1).t)))
    r = o.class_probabilities(x)
    v.oblige("a row per sample, a column per label", isinstance(r, SArr) and r.ndim == 2 and dim_eq(r.shape[0], w.m) and dim_eq(r.shape[1], K))
    v.oblige("the densities of the data", all(q is x for q in w.asked))
    t = v.fresh_int("t", 0).t
    v.assume(t < w.m)
    s = sum([w.g[i](t) * p[i].t for i in range(1, K)], w.g[0](t) * p[0].t)
    for i in range(K):
        v.oblige("Bayes' rule", canon(r.at(t, z3.IntVal(i))) == canon(div(w.g[i](t) * p[i].t, s)))
    v.oblige("the priors are kept", len(o.p) == K and all(a is b for a, b in zip(o.p, p)))
