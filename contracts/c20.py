"""C20: time embedding, cutoffs and histograms place every sample where specified."""
from .common import *
from .arrays import *
from mdp.nodes import misc_nodes as N

MOD = "mdp.nodes.misc_nodes:"


class Wld(object):
    pass


def W():
    return P().globals["w"]


@unit("lemma: columns of the frames", [])
def lemma(v):
    """f*n + c with 0 <= c < n is column c of frame f; products of ordered numbers"""
    n, f, c = v.fresh_int("n", 1).t, v.fresh_int("f", 0).t, v.fresh_int("c", 0).t
    v.assume(c < n)
    q, r = P().fresh("q", I_), P().fresh("r", I_)
    v.assume(z3.And(f * n + c == q * n + r, r >= 0, r < n))
    # (q - f) n = c - r lies strictly between -n and n
    d = q - f
    v.oblige("not later", z3.Implies(d >= 1, d * n >= n))
    v.oblige("not earlier", z3.Implies(d <= -1, d * n <= -n))
    P().axiom(z3.Implies(d >= 1, d * n >= n)), P().axiom(z3.Implies(d <= -1, d * n <= -n)), P().axiom(d * n == q * n - f * n)
    v.oblige("unique", z3.And(q == f, r == c))
    a, b = v.fresh_int("a").t, v.fresh_int("b").t
    v.oblige("a <= b implies a*n <= b*n", z3.Implies(a <= b, (b - a) * n >= 0))


@unit("lemma: quotients", [])
def quotient_lemma(v):
    """(q*g + r) // g = q for 0 <= r < g"""
    q, g, r = v.fresh_int("q").t, v.fresh_int("g", 1).t, v.fresh_int("r", 0).t
    v.assume(r < g)
    a = P().fresh("a", I_)
    v.assume(a == q * g + r)
    d = P().fresh("d", I_)
    m = P().fresh("rest", I_)
    v.assume(z3.And(a == d * g + m, m >= 0, m < g))       # the definition of a // g
    u = d - q
    P().axiom(u * g == d * g - q * g)
    v.oblige("not greater", z3.Implies(u >= 1, u * g >= g))
    v.oblige("not smaller", z3.Implies(u <= -1, u * g <= -g))
    P().axiom(z3.Implies(u >= 1, u * g >= g)), P().axiom(z3.Implies(u <= -1, u * g <= -g))
    v.oblige("the quotient", d == q)


def quotient(q, r, g):
    """instance of the lemma"""
    P().axiom(z3.Implies(z3.And(g >= 1, r >= 0, r < g), (q * g + r) / g == q))


def mono(a, b, s):
    """instance of the lemma: a <= b and s >= 0 imply a*s <= b*s"""
    a, b, s = [num_term(wrap(q)) if not is_sym(q) else num_term(q) for q in (a, b, s)]
    P().axiom(z3.Implies(z3.And(a <= b, s >= 0), a * s <= b * s))


def same_data(a, b):
    """do the two arrays use the same memory?"""
    while a.base is not None:
        a = a.base
    while b.base is not None:
        b = b.base
    return a is b


class Frames(object):
    """the columns of the frames so far"""
    def __init__(self):
        self.w = W()
        self.objects = [self.w.y]

    def check(self, when, k):
        w = self.w
        t, f, c = P().fresh("t", I_), P().fresh("f", I_), P().fresh("c", I_)
        k = num_term(wrap(k))
        w.near(f, c)
        P().axiom(w.mark(t, f, c))
        if when == "preserved":
            # the frame just written, and those before
            k0 = k - 1
            mono(f + 1, k0, w.n), mono(k0 + 1, f, w.n)
        inside = z3.And(t >= 0, t < w.rows, f >= 0, f < k, c >= 0, c < w.n)
        goal = z3.Implies(inside, w.y.at(t, f * w.n + c) == w.val(t, f, c))
        if when == "preserved":
            rt.oblige("columns of the frames so far", z3.Implies(f < k0, goal))
            w.near(k0, c)
            rt.oblige("columns of the frames so far (the last)", z3.substitute(goal, (f, k0)))
        else:
            rt.oblige("columns of the frames so far", goal)
        if w.rest_zero:
            e = P().fresh("e", I_)
            rt.oblige("nothing in the later columns", z3.Implies(z3.And(t >= 0, t < w.rows, e >= k * w.n, e < w.cols), w.y.at(t, e) == 0))

    def havoc(self, k):
        w = self.w
        k = num_term(wrap(k))
        w.facts(k)
        g = z3.Function(P().fresh_name("frames"), I_, I_, R_)
        t, f, c = z3.Ints("qt qf qc")
        if w.rest_zero:
            w.y.put_all(lambda r, e: z3.If(e < k * w.n, g(r, e), z3.RealVal(0)))
        else:
            w.y.put_all(lambda r, e: g(r, e))
        w.g = g
        P().assume(z3.ForAll([t, f, c], z3.Implies(z3.And(t >= 0, t < w.rows, f >= 0, f < k, c >= 0, c < w.n),
                                                  z3.And(f * w.n + c < k * w.n, g(t, f * w.n + c) == w.val(t, f, c))),
                             patterns=[w.mark(t, f, c)]), quantified=True)


def frame_node(v, cls, m=None):
    w = P().globals["w"] = Wld()
    n, F, gap, m = v.fresh_int("n", 1), v.fresh_int("frames", 1), v.fresh_int("gap", 1), v.fresh_int("m", 0) if m is None else m
    x, X = new_array("x", (m, n))
    o = cls.__new__(cls)
    track(o)
    o.time_frames, o.gap, o._input_dim, o._dtype = F, gap, n, None
    o._output_dim = wrap(F.t * n.t)
    w.n, w.F, w.gap, w.m, w.cols, w.X = n.t, F.t, gap.t, num_term(wrap(m)), F.t * n.t, X
    w.mark_ = z3.Function(P().fresh_name("mark"), I_, I_, I_, z3.BoolSort())
    w.mark = w.mark_

    def near(f, c):
        mono(f, w.F - 1, w.n), mono(0, f, w.n), mono(f + 1, w.F, w.n)
        P().axiom((w.F - 1) * w.n == w.F * w.n - w.n)
        P().axiom((f + 1) * w.n == f * w.n + w.n)
    w.near = near

    def facts(k):
        near(k, 0)
        mono(k, w.F, w.n)
        mono(k, w.F - 1, w.gap), mono(0, k, w.gap), mono(0, w.F - 1, w.gap)
        P().axiom((w.F - 1) * w.gap == w.F * w.gap - w.gap)
    w.facts = facts
    facts(z3.IntVal(0))
    return w, o, x


def watching(w):
    """remember the array that is filled"""
    zeros = rt.handlers[np.zeros]

    def watch(shape, *a, **k):
        r = zeros(shape, *a, **k)
        if isinstance(r, SArr) and r.ndim == 2:
            w.y = r
        return r
    return zeros, watch


def run(w, f):
    zeros, watch = watching(w)
    rt.handlers[np.zeros] = watch
    try:
        return f()
    finally:
        rt.handlers[np.zeros] = zeros


def place(v, w, rows):
    t, f, c = v.fresh_int("t", 0).t, v.fresh_int("f", 0).t, v.fresh_int("c", 0).t
    v.assume(z3.And(t < rows, f < w.F, c < w.n))
    w.near(f, c)
    P().axiom(w.mark(t, f, c))         # (a free predicate, names the instance needed)
    return t, f, c


def embed(v, cls, rows, val, rest_zero=False):
    w, o, x = frame_node(v, cls)
    w.rows, w.val = rows(w), lambda t, f, c: val(w, t, f, c)
    w.rest_zero = rest_zero
    keep = x.snap()
    rt.hoare = [lambda loop, l: Frames() if hasattr(w, "y") else None]
    y = run(w, lambda: o._execute(x))
    oblige_arr(v, "input unchanged", x, keep, (wrap(w.m), wrap(w.n)))
    v.oblige("rows and columns", z3.And(isinstance(y, SArr), dim_eq(y.shape[0], w.rows), dim_eq(y.shape[1], w.cols)))
    t, f, c = place(v, w, w.rows)
    v.oblige("column c of frame f", y.at(t, f * w.n + c) == w.val(t, f, c))


@unit("TimeFramesNode._execute", [MOD + "TimeFramesNode._execute"])
def time_frames(v):
    def rows(w):
        r = w.m - (w.F - 1) * w.gap
        return z3.If(r > 0, r, z3.IntVal(0))
    embed(v, N.TimeFramesNode, rows, lambda w, t, f, c: w.X(t + w.gap * f, c))


@unit("TimeDelayNode._execute", [MOD + "TimeDelayNode._execute"])
def time_delay(v):
    embed(v, N.TimeDelayNode, lambda w: w.m, lambda w, t, f, c: z3.If(t >= w.gap * f, w.X(t - w.gap * f, c), z3.RealVal(0)), True)


# ---------------------------------------------------------------- the sliding window
@unit("lemma: the embedding, column by column", [])
def embedding_lemma(v):
    """G(t, e) = X(t, e) in the first n columns, after them G(t - gap, e - n), or 0 before the start:
    column c of frame f is X(t - gap f, c), or 0 before the start (induction on f)"""
    n, gap, f = v.fresh_int("n", 1).t, v.fresh_int("gap", 1).t, v.fresh_int("f", 0).t
    G, X = [z3.Function(P().fresh_name(q), I_, I_, R_) for q in "GX"]
    t, c = v.fresh_int("t", 0).t, v.fresh_int("c", 0).t
    v.assume(c < n)
    claim = lambda t, f: G(t, f * n + c) == z3.If(t >= gap * f, X(t - gap * f, c), z3.RealVal(0))

    def definition(t, e):
        P().axiom(z3.Implies(t >= 0, G(t, e) == z3.If(e < n, X(t, e), z3.If(t >= gap, G(t - gap, e - n), z3.RealVal(0)))))
    definition(t, c)
    v.oblige("the first frame", z3.substitute(claim(t, z3.Int("f0")), (z3.Int("f0"), z3.IntVal(0))))
    definition(t, (f + 1) * n + c)
    v.assume(z3.Implies(t - gap >= 0, claim(t - gap, f)))
    mono(0, f, n), mono(0, f, gap)
    v.oblige("the next frame", claim(t, f + 1))


@unit("TimeDelaySlidingWindowNode._execute", [MOD + "TimeDelaySlidingWindowNode._execute", MOD + "TimeDelaySlidingWindowNode._init_sliding_window"])
def sliding(v):
    w, o, x = frame_node(v, N.TimeDelaySlidingWindowNode, 1)
    n, gap, cols = w.n, w.gap, w.cols
    T = v.fresh_int("T", 0).t                       # calls so far
    G, H = [z3.Function(P().fresh_name(q), I_, I_, R_) for q in ("G", "history")]
    e = v.fresh_int("e", 0).t
    v.assume(e < cols)
    mono(1, w.F, n)

    def defs(t, e):
        P().axiom(z3.Implies(t >= 0, G(t, e) == z3.If(e < n, H(t, e), z3.If(t >= gap, G(t - gap, e - n), z3.RealVal(0)))))
    qc = z3.Int("qc")
    P().assume(z3.ForAll([qc], z3.Implies(z3.And(qc >= 0, qc < n), H(T, qc) == w.X(0, qc)), patterns=[H(T, qc)]), quantified=True)
    mn = lambda a, b: z3.If(a < b, a, b)

    def row(T, i):
        """what row i of the window holds after T calls"""
        return z3.If(T <= gap, i, T - gap - 1 + i)
    filled = lambda T: mn(T, gap + 1)
    first = P().branch(T == 0)
    if first:
        o.sliding_wnd = None
    else:
        o.sliding_wnd, S = new_array("window", (wrap(gap + 1), wrap(cols)))
        qi, qe = z3.Ints("qi qe")
        P().assume(z3.ForAll([qi, qe], z3.Implies(z3.And(qi >= 0, qi < filled(T), qe >= 0, qe < cols), S(qi, qe) == G(row(T, qi), qe)),
                             patterns=[S(qi, qe)]), quantified=True)
    o.cur_idx = wrap(mn(T, gap))
    o.slide = wrap(T >= gap + 1)
    keep = x.snap()
    y = o._execute(x)
    oblige_arr(v, "input unchanged", x, keep, (1, wrap(n)))
    v.oblige("one row", z3.And(isinstance(y, SArr), dim_eq(y.shape[0], z3.IntVal(1)), dim_eq(y.shape[1], cols)))
    defs(T, e)
    v.oblige("the row", y.at(z3.IntVal(0), e) == G(T, e))
    v.oblige("the window", isinstance(o.sliding_wnd, SArr) and dim_eq(o.sliding_wnd.shape[0], gap + 1) is not False)
    v.oblige("the window's shape", z3.And(dim_eq(o.sliding_wnd.shape[0], gap + 1), dim_eq(o.sliding_wnd.shape[1], cols)))
    v.oblige("a row of its own", not same_data(y, o.sliding_wnd) and not same_data(y, x) and not same_data(o.sliding_wnd, x))
    i = v.fresh_int("i", 0).t
    v.assume(i < filled(T + 1))
    v.oblige("rows of the window", o.sliding_wnd.at(i, e) == G(row(T + 1, i), e))
    v.oblige("position", num_term(wrap(o.cur_idx)) == mn(T + 1, gap))
    v.oblige("sliding", (o.slide.t if is_sym(o.slide) else z3.BoolVal(o.slide)) == (T + 1 >= gap + 1))


# ---------------------------------------------------------------- the way back
class Back(object):
    """the samples put back so far"""
    def __init__(self, loop):
        self.w = W()
        self.loop = loop
        self.objects = [self.w.y]

    def claim(self, k, t, q, r, c):
        """after k further frames"""
        w = self.w
        x = w.y
        if w.long:
            return z3.Implies(z3.And(t >= 0, t < w.e + k * w.gap, c >= 0, c < w.n), x.at(t, c) == w.X0(t, c))
        at = q * w.gap + r
        inside = z3.And(q >= 0, r >= 0, r < w.gap, at < w.rows, c >= 0, c < w.n)
        return z3.Implies(inside, x.at(at, c) == z3.If(z3.And(q <= k, r < w.e), w.X0(at, c), z3.RealVal(0)))

    def check(self, when, k):
        w = self.w
        t, q, r, c = [P().fresh(s, I_) for s in "tqrc"]
        k = num_term(wrap(k))
        w.near(q, c)
        if when == "initially":
            # the number of rounds
            if w.long:
                quotient(w.F - 2, w.gap - 1, w.gap)
            else:
                quotient(w.F - 2, w.e - 1, w.gap)
            mono(1, w.F - 1, w.gap), mono(2, w.F - 1, w.gap), mono(w.F, 1, w.gap)
            self.count = z3.If(w.F >= 1, w.F - 1, z3.IntVal(0))
            if z3.is_expr(self.loop.count):
                rt.oblige("number of rounds", self.loop.count == self.count)
                P().axiom(self.loop.count == self.count)
        goal = self.claim(k, t, q, r, c)
        P().axiom(w.mark(q, r, c))
        if when == "preserved":
            w.y_is(k, c)
            if w.long:
                rt.oblige("samples so far", goal)
            else:
                mono(q + 1, k, w.gap), mono(k + 1, q, w.gap)
                rt.oblige("samples so far", z3.Implies(q != k, goal))
                P().axiom(w.mark(k, r, c))
                rt.oblige("samples so far (the last)", z3.substitute(goal, (q, k)))
        else:
            mono(1, q, w.gap)
            w.y_is(z3.IntVal(0), c)
            if w.long:
                rt.oblige("samples so far", goal)
            else:
                rt.oblige("samples so far", z3.Implies(q >= 1, goal))
                rt.oblige("samples so far (the first)", z3.substitute(goal, (q, z3.IntVal(0))))

    def havoc(self, k):
        w = self.w
        k = num_term(wrap(k))
        self.k = k
        w.facts(k)
        mono(k + 1, w.F - 1, w.gap)
        mono(k, w.F - 1, w.gap)
        mono(k + 2, w.F, w.gap), mono(k + 2, w.F, w.n)
        g = z3.Function(P().fresh_name("back"), I_, I_, R_)
        w.y.put_all(lambda r, c: g(r, c))
        t, q, r, c = [z3.Int("q" + s) for s in "tqrc"]
        if w.long:
            P().assume(z3.ForAll([t, c], self.claim(k, t, q, r, c), patterns=[g(t, c)]), quantified=True)
        else:
            P().assume(z3.ForAll([q, r, c], self.claim(k, t, q, r, c), patterns=[w.mark(q, r, c)]), quantified=True)
            w.seen = True

    # counters go up by one
    def check_locals(self, when, l):
        if when == "initially":
            self.start = {m: q for m, q in l.items() if is_num(q)}
        else:
            for m in self.start:
                rt.oblige("counter %s" % m, num_term(wrap(l[m])) == num_term(wrap(self.start[m])) + self.k + 1)

    def havoc_locals(self, l):
        return {m: wrap(num_term(wrap(q)) + self.k) for m, q in self.start.items()}


@unit("TimeFramesNode.pseudo_inverse", [MOD + "TimeFramesNode.pseudo_inverse"])
def pseudo_inverse(v):
    w, o, _ = frame_node(v, N.TimeFramesNode)
    e = v.fresh_int("e", 1)
    w.e, n, gap = e.t, w.n, w.gap
    y, Y = new_array("y", (e, wrap(w.cols)))
    w.X0 = z3.Function(P().fresh_name("x0"), I_, I_, R_)
    w.rows = w.e + (w.F - 1) * gap
    w.long = P().branch(w.e >= gap)
    o._refcast, o._training = (lambda y: y), False
    qt = z3.Int("qt")

    def y_is(f, c):
        """y is execute of x0: column c of frame f"""
        w.near(f, c)
        P().assume(z3.ForAll([qt], z3.Implies(z3.And(qt >= 0, qt < w.e, f >= 0, f < w.F, c >= 0, c < n), Y(qt, f * n + c) == w.X0(qt + gap * f, c)),
                             patterns=[Y(qt, f * n + c)]), quantified=True)
    w.y_is = y_is
    keep = y.snap()
    zeros = rt.handlers[np.zeros]

    def watch(shape, *a, **k):
        w.y = zeros(shape, *a, **k)
        return w.y
    w.y = None
    rt.handlers[np.zeros] = watch
    rt.hoare = [lambda loop, l: Back(loop)]
    try:
        x = o.pseudo_inverse(y)
    finally:
        rt.handlers[np.zeros] = zeros
    oblige_arr(v, "input unchanged", y, keep, (e, wrap(w.cols)))
    v.oblige("rows and columns", z3.And(isinstance(x, SArr), dim_eq(x.shape[0], w.rows), dim_eq(x.shape[1], n)))
    if w.long:
        t, c = v.fresh_int("t", 0).t, v.fresh_int("c", 0).t
        v.assume(z3.And(t < w.rows, c < n))
        v.oblige("every sample", x.at(t, c) == w.X0(t, c))
    else:
        q, r, c = [v.fresh_int(s, 0).t for s in "qrc"]
        at = q * gap + r
        v.assume(z3.And(r < gap, at < w.rows, c < n))
        mono(q, w.F, gap), mono(w.F, q, gap)
        P().axiom(w.mark(q, r, c))
        v.oblige("every sample that appears in y", z3.Implies(r < w.e, x.at(at, c) == w.X0(at, c)))
        v.oblige("zeros elsewhere", z3.Implies(r >= w.e, x.at(at, c) == 0))


# ---------------------------------------------------------------- cutoffs
def bounds(v, n):
    """(argument, value for column c or None)"""
    k = P().choose(3)
    if k == 0:
        return None, None
    if k == 1:
        b = wrap(P().fresh("bound", R_))
        return b, lambda c: b.t
    a, A = new_array("bounds", (n,))
    return a, lambda c: A(c)


def clip(v, cls, lo, hi):
    m, n = v.fresh_int("m", 0), v.fresh_int("n", 1)
    x, X = new_array("x", (m, n))
    o = cls.__new__(cls)
    track(o)
    (l, L), (h, H) = bounds(v, n), bounds(v, n)
    setattr(o, lo, l), setattr(o, hi, h)
    y = o._execute(x)
    oblige_arr(v, "input unchanged", x, lambda r, c: X(r, c), (m, n))
    v.oblige("rows and columns", z3.And(isinstance(y, SArr), dim_eq(y.shape[0], m), dim_eq(y.shape[1], n)))
    r, c = v.fresh_int("r", 0).t, v.fresh_int("c", 0).t
    v.assume(z3.And(r < m.t, c < n.t))
    low = X(r, c) if L is None else z3.If(X(r, c) < L(c), L(c), X(r, c))
    want = low if H is None else z3.If(low > H(c), H(c), low)
    v.oblige("clipped to the bounds", y.at(r, c) == want)
    v.oblige("bounds unchanged", getattr(o, lo) is l and getattr(o, hi) is h)


@unit("CutoffNode._execute", [MOD + "CutoffNode._execute"])
def cutoff(v):
    clip(v, N.CutoffNode, "lower_bound", "upper_bound")


@unit("AdaptiveCutoffNode._execute", [MOD + "AdaptiveCutoffNode._execute"])
def adaptive_cutoff(v):
    clip(v, N.AdaptiveCutoffNode, "lower_bounds", "upper_bounds")


# ---------------------------------------------------------------- histograms
def histogram_node(v, cls, **attr):
    o = cls.__new__(cls)
    track(o)
    w = P().globals["w"] = Wld()
    w.n = v.fresh_int("n", 1)
    o._hist_filename = attr.get("name")
    o.hist_fraction = attr.get("fraction", 1.0)
    return w, o


@unit("HistogramNode._train", [MOD + "HistogramNode._train"])
def histogram_train(v):
    fr = wrap(P().fresh("fraction", R_))
    w, o = histogram_node(v, N.HistogramNode, fraction=fr)
    n = w.n
    m, T = v.fresh_int("m", 0), v.fresh_int("T", 0)
    x, X = new_array("x", (m, n))
    first = P().choose(2)
    if first:
        o.data_hist, hist, T = None, None, 0
    else:
        o.data_hist, hist = new_array("history", (T, n))
    U = z3.Function(P().fresh_name("random"), I_, R_)
    asked = []

    def random(k):
        asked.append(k)
        q = z3.Int("q")
        P().assume(z3.ForAll([q], z3.And(U(q) >= 0, U(q) < 1), patterns=[U(q)]), quantified=True)
        return SArr((k,), lambda i: U(i), R_)
    rt.handlers[np.random.random] = random
    try:
        o._train(x)
    finally:
        del rt.handlers[np.random.random]
    oblige_arr(v, "input unchanged", x, lambda r, c: X(r, c), (m, n))
    h = o.data_hist
    v.oblige("an array", isinstance(h, SArr) and h.ndim == 2)
    v.oblige("not the array given", not same_data(h, x))
    r, c = v.fresh_int("r", 0).t, v.fresh_int("c", 0).t
    v.assume(c < n.t)
    t = num_term(wrap(T)) if is_sym(T) else z3.IntVal(0)
    v.oblige("columns", dim_eq(h.shape[1], n))
    rows = num_term(wrap(h.shape[0]))
    if hist is not None:
        v.oblige("the history so far", z3.Implies(r < t, h.at(r, c) == hist(r, c)))
    if not asked:
        v.oblige("only when everything is kept", fr.t >= 1)
        v.oblige("all rows are added", z3.And(rows == t + m.t, z3.Implies(z3.And(r >= t, r < rows), h.at(r, c) == X(r - t, c))))
    else:
        mask, _, k, pos, rank = P().globals["chosen"][-1]
        v.oblige("the rows added", rows == t + k)
        v.oblige("each is a row of the data", z3.Implies(z3.And(r >= t, r < rows),
                                                        z3.And(h.at(r, c) == X(pos(r - t), c), pos(r - t) >= 0, pos(r - t) < m.t)))
        r2 = v.fresh_int("r2", 0).t
        v.oblige("in their order", z3.Implies(z3.And(t <= r, r < r2, r2 < rows), pos(r - t) < pos(r2 - t)))
        j = v.fresh_int("j", 0).t
        v.oblige("chosen by the fraction alone", z3.Implies(z3.And(j < m.t, rank(j) == rank(j)), mask(j) == (U(j) < fr.t)))
        q0 = pos(z3.IntVal(0))
        P().assume(z3.And(U(q0) >= 0, U(q0) < 1))
        v.oblige("nothing for the fraction 0", z3.Implies(fr.t <= 0, rows == t))


class File(object):
    def __init__(self, log, name, mode):
        self.log = log
        log.append(("open", name, mode))

    def close(self):
        self.log.append(("close", self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@unit("HistogramNode._stop_training", [MOD + "HistogramNode._stop_training"])
def histogram_stop(v):
    name = v.choose([None, "file"])
    w, o = histogram_node(v, N.HistogramNode, name=name)
    T = v.fresh_int("T", 0)
    h, A = new_array("history", (T, w.n))
    o.data_hist = h
    log = []
    broken = v.choose([False, True])

    class Pickle(object):
        @staticmethod
        def dump(data, f, protocol=None, **k):
            log.append(("dump", data, f))
            if broken:
                raise pickle.PicklingError("disk")
    with Patched(N, open=lambda name, mode: File(log, name, mode), pickle=Pickle):
        r = outcome(lambda: o._stop_training())
    oblige_arr(v, "data unchanged", h, lambda r, c: A(r, c), (T, w.n))
    if name is None:
        v.oblige("kept in memory", r[0] == "ok" and o.data_hist is h and not log)
        return
    dumps = [e for e in log if e[0] == "dump"]
    v.oblige("written once", len(dumps) == 1 and dumps[0][1] is h)
    v.oblige("into the file", log[0] == ("open", name, "wb") and isinstance(dumps[0][2], File))
    v.oblige("closed after it", log[-1][0] == "close" and log[-1][1] is dumps[0][2])
    if broken:
        v.oblige("the error is reported", r[0] == "exc")
        v.oblige("nothing is lost", o.data_hist is h)
    else:
        v.oblige("then dropped", r[0] == "ok" and o.data_hist is None)


@unit("AdaptiveCutoffNode._stop_training", [MOD + "AdaptiveCutoffNode._stop_training"])
def adaptive_stop(v):
    w, o = histogram_node(v, N.AdaptiveCutoffNode)
    T = v.fresh_int("T", 1)
    h, A = new_array("history", (T, w.n))
    o.data_hist = h
    fr = []
    for name in ("lower", "upper"):
        f = v.choose([None, 0])
        if f is not None:
            f = wrap(P().fresh(name, R_))
            v.assume(z3.And(f.t >= 0, f.t < 1))
        fr.append(f)
        setattr(o, name + "_cutoff_fraction", f)
        setattr(o, name + "_bounds", None)
    o._stop_training()
    v.oblige("the history is kept", o.data_hist is h)
    oblige_arr(v, "the history is unchanged", h, lambda r, c: A(r, c), (T, w.n))
    c = v.fresh_int("c", 0).t
    v.assume(c < w.n.t)
    for name, f in zip(("lower", "upper"), fr):
        b = getattr(o, name + "_bounds")
        used = z3.BoolVal(False) if f is None else f.t > 0
        v.oblige(name + " bounds when asked for", used == z3.BoolVal(b is not None))
        if b is None:
            continue
        v.oblige(name + " bounds", isinstance(b, SArr) and b.ndim == 1)
        v.oblige("one for each variable", dim_eq(b.shape[0], w.n))
        v.oblige("not part of the history", not same_data(b, h))
        old, g, perm, cnt = P().globals["sorts"][-1]
        r = v.fresh_int("r", 0).t
        v.oblige("the sorted history", z3.And(cnt == T.t, z3.Implies(r < T.t, old(r, c) == A(r, c))))
        k = z3.ToInt(f.t * z3.ToReal(T.t))
        at = k if name == "lower" else T.t - 1 - k
        v.oblige("the value at the fraction", b.at(c) == g(at, c))
