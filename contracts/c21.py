"""C21: hit parades and eta values."""
from .common import *
from .arrays import *
from mdp.nodes import misc_nodes as N

MOD = "mdp.nodes.misc_nodes:"


class Wld(object):
    pass


def W():
    return P().globals["w"]


class List(object):
    """one of the two lists of a hit parade, with the ghost facts about it.
    sign: 1 for maxima, -1 for minima; everything is stated for the maxima of sign * X"""
    def __init__(self, name, sign, w):
        self.name, self.sign, self.w = name, sign, w
        self.none = P().fresh("nothing_" + name, R_)          # the placeholder
        self.near = z3.Function(P().fresh_name("near_" + name), I_, z3.BoolSort())
        self.mark = z3.Function(P().fresh_name("at"), I_, z3.BoolSort())

    def X(self, t):
        return self.w.X(t) if self.sign > 0 else -self.w.X(t)

    def val(self, j):
        return self.M(j) if self.sign > 0 else -self.M(j)

    def stream_facts(self, t):
        """sample t is not beyond the placeholder"""
        P().axiom(self.X(t) >= self.nothing())

    def nothing(self):
        return self.none if self.sign > 0 else -self.none

    def filled(self, j):
        return self.val(j) > self.nothing()

    # the invariant, at the instances given (t: samples, j, k: places)
    def clauses(self, T, last, t, j, k, slots, tops):
        w, n, d = self.w, self.w.n, self.w.d
        ok = lambda q: z3.And(q >= 0, q < n)
        f, at = self.filled, self.at
        yield "the last place", z3.And(last >= 0, last < n)
        yield "a reported value is the sample at its position", z3.Implies(z3.And(ok(j), f(j)),
                                                                      z3.And(at(j) >= w.start, at(j) < T, self.X(at(j)) == self.val(j)))
        yield "a free place holds the placeholder", z3.Implies(z3.And(ok(j), z3.Not(f(j))), z3.And(at(j) == 0, self.val(j) == self.nothing()))
        yield "positions up to the last", z3.Implies(z3.And(ok(j), f(j)), z3.And(at(j) <= at(last), f(last)))
        yield "positions farther apart than the gap", z3.Implies(z3.And(ok(j), ok(k), j != k, f(j), f(k), at(j) <= at(k)), at(k) - at(j) > d)
        yield "extreme among the samples that follow", z3.Implies(z3.And(ok(j), f(j), t > at(j), t <= at(j) + d, t < T), self.X(t) <= self.val(j))
        yield "no sample is missing", z3.Implies(z3.And(t >= w.start, t < T, self.X(t) > self.low_goal(j), ok(j)),
                                                 z3.Or(self.near(t), *[z3.And(ok(s), f(s), at(s) == t) for s in slots]))
        yield "the extreme is in the list", z3.Or(T <= w.start, *[z3.And(ok(s), z3.Implies(z3.And(t >= w.start, t < T), self.X(t) <= self.val(s))) for s in tops])

    def low_goal(self, j):
        return self.val(j)


def array_fn(a):
    f = a.snap()
    return lambda q: f(q)


class Update(object):
    """the loop over the samples of a chunk"""
    def __init__(self, loop):
        w = self.w = W()
        self.objects = [q for l in w.lists for q in (l.arr, l.pos)] + [w.o]
        self.role = {}

    def check_locals(self, when, l):
        if when == "initially":
            for m, q in l.items():
                for ls in self.w.lists:
                    if q is ls.last_obj:
                        self.role[m] = ls
        else:
            for m, ls in self.role.items():
                ls.last_new = num_term(wrap(l[m]))

    def havoc_locals(self, l):
        return {m: wrap(ls.last) for m, ls in self.role.items()}

    def check(self, when, k):
        w = self.w
        T = w.T0 + num_term(wrap(k))
        for ls in w.lists:
            if when == "initially":
                last = ls.last
            else:
                last = ls.last_new if ls in self.role.values() else num_term(wrap(getattr(w.o, ls.attr)))
                # (the sample just seen: T - 1)
            old = getattr(ls, "slot", None)
            ls.at, ls.M = array_fn(ls.pos), array_fn(ls.arr)
            t, j, q = [P().fresh(s, I_) for s in ("t", "place", "other")]
            ls.stream_facts(t), ls.stream_facts(T - 1)
            ext = P().globals.get("extremes", [])
            slots = [ls.slot(t), last]
            tops = [ls.top, last] + [e[0] for e in ext]
            P().axiom(ls.mark(t)), P().axiom(ls.mark(j)), P().axiom(ls.mark(q))
            # neighbours at least as large
            for a, b in ((t, T - 1), (T - 1, t), (T - 1, ls.last_at), (t, ls.last_at)):
                P().axiom(z3.Implies(z3.And(a != b, a - b <= w.d, b - a <= w.d, a >= w.start, b >= w.start, a < T, b < T, ls.X(b) >= ls.X(a)), ls.near(a)))
            for name, c in ls.clauses(T, last, t, j, q, slots, tops):
                rt.oblige("%s: %s" % (ls.name, name), c)

    def havoc(self, k):
        w = self.w
        T = w.T0 + num_term(wrap(k))
        P().globals["extremes"] = []
        for ls in w.lists:
            assume_state(ls, T)
            if ls not in self.role.values() and False:
                pass


def assume_state(ls, T):
    """an arbitrary state of the list after the samples before T"""
    w = ls.w
    m, p = [z3.Function(P().fresh_name(q), I_, s) for q, s in (("value", R_), ("position", I_))]
    ls.arr.put_all(lambda i: m(i)), ls.pos.put_all(lambda i: p(i))
    ls.M, ls.at = (lambda i: m(i)), (lambda i: p(i))
    ls.last, ls.top = P().fresh("last", I_), P().fresh("top", I_)
    ls.slot = z3.Function(P().fresh_name("slot"), I_, I_)
    ls.last_at = p(ls.last)
    t, j, q = z3.Ints("qt qj qk")
    pats = {"t": [ls.mark(t)], "j": [m(j)], "jk": [z3.MultiPattern(m(j), m(q))], "tj": [z3.MultiPattern(ls.mark(t), m(j))]}
    for name, c in ls.clauses(T, ls.last, t, j, q, [ls.slot(t)], [ls.top]):
        vs = sorted(_vars(c, (t, j, q)), key=str)
        if not vs:
            P().assume(c)
        else:
            P().assume(z3.ForAll(vs, c), quantified=True)
    for s in (ls.last, ls.top):
        for name, c in ls.clauses(T, ls.last, z3.IntVal(0), s, ls.last, [ls.slot(z3.IntVal(0))], [ls.top]):
            P().axiom(c)


def _vars(c, vs):
    names = {v.decl().name(): v for v in vs}
    out, todo, seen = set(), [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name() in names:
            out.add(names[x.decl().name()])
        todo.extend(x.children())
    return out


def parade(v):
    w = P().globals["w"] = Wld()
    n, d = v.fresh_int("n", 1), v.fresh_int("d", 0)
    w.n, w.d = n.t, d.t
    w.start = z3.IntVal(0)
    w.X = z3.Function(P().fresh_name("X"), I_, R_)
    o = w.o = N.OneDimensionalHitParade.__new__(N.OneDimensionalHitParade)
    track(o)
    o.n, o.d = n, d
    w.lists = [List("maxima", 1, w), List("minima", -1, w)]
    for ls, arr, pos, last in zip(w.lists, ("M", "m"), ("iM", "im"), ("lM", "lm")):
        ls.arr, _ = new_array(arr, (n,))
        ls.pos, _ = new_array(pos, (n,), I_)
        ls.attr = last
        setattr(o, arr, ls.arr), setattr(o, pos, ls.pos)
    return w, o


@unit("OneDimensionalHitParade.update", [MOD + "OneDimensionalHitParade.update"], max_time=600)
def update(v):
    w, o = parade(v)
    w.T0 = v.fresh_int("seen", 0).t
    m = v.fresh_int("m", 0)
    x, xs = new_array("x", (m,))
    q = z3.Int("qx")
    P().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m.t), xs(q) == w.X(w.T0 + q)), patterns=[xs(q)]), quantified=True)
    ix = SArr((m,), lambda i: w.T0 + i, I_)
    for ls in w.lists:
        assume_state(ls, w.T0)
        ls.last_obj = wrap(ls.last)
        setattr(o, ls.attr, ls.last_obj)
    keep, ikeep = x.snap(), ix.snap()
    specs = []

    def spec(loop, l):
        specs.append(Update(loop))
        return specs[-1]
    rt.hoare = [spec]
    o.update((x, ix))
    oblige_arr(v, "input unchanged", x, keep, (m,))
    oblige_arr(v, "positions unchanged", ix, ikeep, (m,))
    T = w.T0 + m.t
    for ls, arr, pos in zip(w.lists, ("M", "m"), ("iM", "im")):
        last = getattr(o, ls.attr)
        v.oblige(ls.name + ": the list", getattr(o, arr) is ls.arr and getattr(o, pos) is ls.pos)
        v.oblige(ls.name + ": the last place", num_term(wrap(last)) == ls.last)


@unit("OneDimensionalHitParade.__init__", [MOD + "OneDimensionalHitParade.__init__"])
def create(v):
    n, d = v.fresh_int("n", 1), v.fresh_int("d", 0)
    dt, idt = v.choose([("d", "l"), ("i", "int64"), ("f", "int64"), ("int64", "int64")])
    o = N.OneDimensionalHitParade.__new__(N.OneDimensionalHitParade)
    track(o)
    o.__init__(n, d, dt, idt)
    t = np.dtype(dt)
    lo, hi = (np.iinfo(t).min, np.iinfo(t).max) if t.kind in "iu" else (np.finfo(t).min, np.finfo(t).max)
    z = lambda q: z3.RealVal(int(q)) if t.kind in "iu" else z3.RealVal(repr(float(q))) if False else num_term(real(wrap(num_term(float(q)))))
    v.oblige("length and gap", z3.And(num_term(o.n) == n.t, num_term(o.d) == d.t))
    oblige_arr(v, "no maximum yet", o.M, lambda i: z(lo), (n,))
    oblige_arr(v, "no minimum yet", o.m, lambda i: z(hi), (n,))
    oblige_arr(v, "no positions yet (maxima)", o.iM, lambda i: z3.IntVal(0), (n,))
    oblige_arr(v, "no positions yet (minima)", o.im, lambda i: z3.IntVal(0), (n,))
    v.oblige("first places", type(o.lM) is int and o.lM == 0 and type(o.lm) is int and o.lm == 0)
    v.oblige("separate lists", len({id(a) for a in (o.M, o.m, o.iM, o.im)}) == 4)


@unit("lemma: the state before the first sample", [])
def initial(v):
    """satisfies the invariant of the list"""
    w, o = parade(v)
    for ls in w.lists:
        # as established by __init__
        ls.M, ls.at = (lambda i: ls.none), (lambda i: z3.IntVal(0))
        t, j, q = [P().fresh(s, I_) for s in ("t", "place", "other")]
        for name, c in ls.clauses(z3.IntVal(0), z3.IntVal(0), t, j, q, [z3.IntVal(0)], [z3.IntVal(0)]):
            v.oblige("%s: %s" % (ls.name, name), c)


@unit("OneDimensionalHitParade.get_maxima/get_minima", [MOD + "OneDimensionalHitParade.get_maxima", MOD + "OneDimensionalHitParade.get_minima"])
def answers(v):
    w, o = parade(v)
    for ls, f in zip(w.lists, (o.get_maxima, o.get_minima)):
        m, p = ls.arr.snap(), ls.pos.snap()
        val, pos = f()
        for a, l in ((val, "values"), (pos, "positions")):
            v.oblige("%s: %s" % (ls.name, l), isinstance(a, SArr) and a.ndim == 1)
            v.oblige("%s: number of %s" % (ls.name, l), dim_eq(a.shape[0], w.n))
            v.oblige("%s: %s of its own" % (ls.name, l), not same_data(a, ls.arr) and not same_data(a, ls.pos))
        r, s, j = v.fresh_int("r", 0).t, v.fresh_int("s", 0).t, v.fresh_int("j", 0).t
        v.assume(z3.And(r < s, s < w.n, j < w.n))
        v.oblige(ls.name + ": sorted by rank", val.at(r) >= val.at(s) if ls.sign > 0 else val.at(r) <= val.at(s))
        gname = [g for g in sarr.ARGSORTS][-1]
        g = z3.Function(gname, I_, I_)
        at = (lambda q: g(w.n - 1 - q)) if ls.sign > 0 else (lambda q: g(q))
        v.oblige(ls.name + ": each with its position", z3.And(at(r) >= 0, at(r) < w.n, val.at(r) == m(at(r)), pos.at(r) == p(at(r))))
        v.oblige(ls.name + ": every place once", at(r) != at(s))
        oblige_arr(v, ls.name + ": unchanged", ls.arr, lambda q: m(q), (wrap(w.n),))
        oblige_arr(v, ls.name + ": positions unchanged", ls.pos, lambda q: p(q), (wrap(w.n),))


def same_data(a, b):
    while a.base is not None:
        a = a.base
    while b.base is not None:
        b = b.base
    return a is b


# ---------------------------------------------------------------- the node
class Recorded(object):
    """the calls made, kept out of sight of the loops"""
    @property
    def log(self):
        return P().globals["log"]


class Hit(Recorded):
    """the parade of variable c: calls are recorded"""
    def __init__(self, c, ans=None):
        self.c, self.ans = c, ans

    def update(self, inp):
        self.log.append((self.c, inp))

    def get_maxima(self):
        return self.ans(self.c, 0)

    def get_minima(self):
        return self.ans(self.c, 1)


class Hits(Recorded):
    """the parades of all variables (any number)"""
    def __init__(self, n, ans=None):
        self.n, self.ans = n, ans

    def __getitem__(self, c):
        t = num_term(wrap(c) if z3.is_expr(c) else c)
        rt.oblige("one of the variables", z3.And(t >= 0, t < self.n))
        return Hit(t, self.ans)

    def __len__(self):
        raise Unsupported("number of parades")


class Each(object):
    """round c updates the parade of variable c, once, and no other"""
    objects = []

    def __init__(self, log, judge):
        self.log, self.judge = log, judge

    def check(self, when, k):
        if when == "preserved":
            self.judge(num_term(wrap(k)) - 1, self.log[self.n0:])
        else:
            rt.oblige("no update before", len(self.log) == 0)

    def havoc(self, k):
        self.n0 = len(self.log)


@unit("HitParadeNode._train", [MOD + "HitParadeNode._train"])
def node_train(v):
    o = N.HitParadeNode.__new__(N.HitParadeNode)
    track(o)
    m, T = v.fresh_int("m", 0), v.fresh_int("seen", 0)
    log = P().globals["log"] = []
    made = []
    first = v.choose([True, False])
    if first:
        # (bounded: one to three variables)
        n = v.choose([1, 2, 3])
        o.hit, T = None, 0
    else:
        n = v.fresh_int("n", 1)
        o.hit = hits = Hits(n.t)
    o.n, o.d, o._dtype, o.itype, o._input_dim, o.tlen = 7, v.fresh_int("d", 0), np.dtype("d"), "int64", n, T
    x, X = new_array("x", (m, n))

    def judge(c, calls):
        rt.oblige("one update", len(calls) == 1)
        for who, (a, i) in calls:
            rt.oblige("of this variable", num_term(wrap(who) if z3.is_expr(who) else who) == c)
            oblige_arr(v, "its samples", a, lambda r: X(r, c), (m,))
            oblige_arr(v, "their positions", i, lambda r: num_term(T) + r, (m,))

    def make(*a):
        made.append(a)
        return Hit(len(made) - 1)
    if not first:
        rt.hoare = [lambda loop, l: Each(log, judge)]
    with Patched(N, OneDimensionalHitParade=make):
        o._train(x)
    oblige_arr(v, "input unchanged", x, lambda r, c: X(r, c), (m, n))
    v.oblige("samples seen", num_term(wrap(o.tlen)) == num_term(T) + m.t)
    if first:
        v.oblige("one parade for each variable", len(o.hit) == n and [h.c for h in o.hit] == list(range(n)))
        v.oblige("with the parameters of the node", len(made) == n and all(a[0] == 7 and a[1] is o.d and a[2] == np.dtype("d") and a[3] == "int64" for a in made))
        v.oblige("one update each", len(log) == n)
        for c, call in enumerate(log):
            judge(z3.IntVal(c), [call])
    else:
        v.oblige("the same parades", o.hit is hits)


class Columns(object):
    """the columns filled so far"""
    def __init__(self):
        self.w = W()
        self.objects = list(self.w.made)

    def check(self, when, k):
        w = self.w
        k = num_term(wrap(k))
        for a, want in zip(w.made, w.want):
            r, c = P().fresh("r", I_), P().fresh("c", I_)
            inside = z3.And(r >= 0, r < w.n, c >= 0, c < k)
            rt.oblige("columns so far", z3.Implies(inside, a.at(r, c) == want(r, c)))

    def havoc(self, k):
        w = self.w
        k = num_term(wrap(k))
        for a, want in zip(w.made, w.want):
            g = z3.Function(P().fresh_name("columns"), I_, I_, a.zs)
            a.put_all(lambda r, c, g=g, want=want: z3.If(c < k, want(r, c), g(r, c)))


@unit("HitParadeNode.get_maxima/get_minima", [MOD + "HitParadeNode.get_maxima", MOD + "HitParadeNode.get_minima"])
def node_answers(v):
    w = P().globals["w"] = Wld()
    o = N.HitParadeNode.__new__(N.HitParadeNode)
    track(o)
    which = v.choose([0, 1])
    n, cols = v.fresh_int("n", 1), v.fresh_int("cols", 1)
    w.n = n.t
    stopped = []
    o.n, o._dtype, o.itype, o._input_dim = n, np.dtype("d"), "int64", cols
    F = [(z3.Function(P().fresh_name("values"), I_, I_, R_), z3.Function(P().fresh_name("positions"), I_, I_, I_)) for _ in range(2)]

    def ans(c, k):
        rt.oblige("after the training", stopped == [1])
        return (SArr((n,), lambda r: F[k][0](r, c), R_), SArr((n,), lambda r: F[k][1](r, c), I_))
    o.hit = Hits(cols.t, ans)
    o._if_training_stop_training = lambda: stopped.append(1)
    w.made, w.want = [], []
    old = rt.handlers[np.zeros], rt.handlers[np.ones]

    def watch(f):
        def h(shape, *a, **k):
            r = f(shape, *a, **k)
            w.made.append(r)
            # integers are positions
            w.want.append(F[which][1] if r.zs == I_ else F[which][0])
            return r
        return h
    rt.handlers[np.zeros], rt.handlers[np.ones] = watch(old[0]), watch(old[1])
    rt.hoare = [lambda loop, l: Columns()]
    try:
        val, pos = (o.get_maxima, o.get_minima)[which]()
    finally:
        rt.handlers[np.zeros], rt.handlers[np.ones] = old
    oblige_arr(v, "the values of each variable", val, lambda r, c: F[which][0](r, c), (n, cols))
    oblige_arr(v, "the positions of each variable", pos, lambda r, c: F[which][1](r, c), (n, cols))


# ---------------------------------------------------------------- eta values
@unit("EtaComputerNode._train", [MOD + "EtaComputerNode._train", MOD + "EtaComputerNode._init_internals", "mdp.utils.routines:timediff"])
def eta_train(v):
    o = N.EtaComputerNode.__new__(N.EtaComputerNode)
    track(o)
    n, m = v.fresh_int("n", 1), v.fresh_int("m", 1)
    x, X = new_array("x", (m, n))
    o._input_dim, o._dtype = n, np.dtype("d")
    first = v.choose([True, False])
    if first:
        o._initialized = 0
        T, S = z3.IntVal(0), [lambda c: z3.RealVal(0)] * 3
    else:
        o._initialized = 1
        T = v.fresh_int("seen", 0).t
        o._tlen, S = wrap(T), []
        for name in ("_mean", "_var", "_diff2"):
            a, f = new_array(name, (n,))
            setattr(o, name, a)
            S.append(f)
    o._train(x)
    oblige_arr(v, "input unchanged", x, lambda r, c: X(r, c), (m, n))
    last = m.t - 1
    sums = lambda k, f: lambda c: S[k](c) + ssum(lambda r: f(r, c), z3.IntVal(0), last)
    oblige_arr(v, "sum of all samples but the last", o._mean, sums(0, lambda r, c: X(r, c)), (n,))
    oblige_arr(v, "sum of their squares", o._var, sums(1, lambda r, c: X(r, c) * X(r, c)), (n,))
    oblige_arr(v, "sum of the squared differences", o._diff2, sums(2, lambda r, c: (X(r + 1, c) - X(r, c)) * (X(r + 1, c) - X(r, c))), (n,))
    v.oblige("number of samples", num_term(wrap(o._tlen)) == T + last)
    v.oblige("separate sums", len({id(a) for a in (o._mean, o._var, o._diff2)}) == 3 and not any(same_data(a, x) for a in (o._mean, o._var, o._diff2)))
    v.oblige("initialised", o._initialized == 1)


@unit("EtaComputerNode._stop_training/get_eta", [MOD + "EtaComputerNode._stop_training", MOD + "EtaComputerNode.get_eta"])
def eta_stop(v):
    o = N.EtaComputerNode.__new__(N.EtaComputerNode)
    track(o)
    n, T, t = v.fresh_int("n", 1), v.fresh_int("seen", 2), wrap(P().fresh("t", R_))
    fs = []
    for name in ("_mean", "_var", "_diff2"):
        a, f = new_array(name, (n,))
        setattr(o, name, a)
        fs.append(f)
    o._tlen, o._dtype, o._input_dim = T, np.dtype("d"), n
    S1, S2, D = fs
    Tr = z3.ToReal(T.t)
    var = lambda c: div(S2(c) - div(S1(c) * S1(c), Tr), Tr - 1)
    c = v.fresh_int("c", 0).t
    v.assume(z3.And(c < n.t, var(c) > 0))
    training = v.choose([True, False])
    sqrt_ = z3.Function("sqrt_of", R_, R_)
    seen = []

    def root(a):
        seen.append(a)
        f = a.snap()
        return SArr(a.shape, lambda *i: sqrt_(f(*i)), R_)
    rt.handlers[np.sqrt] = root
    try:
        if training:
            o._if_training_stop_training = lambda: o._stop_training()
        else:
            o._stop_training()
            o._if_training_stop_training = lambda: None
        o._refcast = lambda a: a
        r = o.get_eta(t)
        again = o._eta
        o._if_training_stop_training = lambda: None
        r2 = o.get_eta(t)
    finally:
        del rt.handlers[np.sqrt]
    v.oblige("one root", len(seen) == 1)
    v.oblige("normalised mean squared difference", seen[0].at(c) == div(div(D(c), Tr), var(c)))
    v.oblige("of each variable", isinstance(r, SArr) and r.ndim == 1)
    v.oblige("number of variables", dim_eq(r.shape[0], n))
    v.oblige("eta", r.at(c) * 2 * num_term(wrap(z3.RealVal(0)) + float(np.pi)) == sqrt_(seen[0].at(c)) * t.t)
    v.oblige("the same again", r2.at(c) == r.at(c))
