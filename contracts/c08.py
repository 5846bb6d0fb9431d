"""C08: switchboards route every output from its connection and invert exactly."""
from .common import *
from .arrays import *
from mdp.hinet import switchboard as S
from bimdp.hinet import biswitchboard as BS

MOD, BMOD = "mdp.hinet.switchboard:", "bimdp.hinet.biswitchboard:"


@unit("lemma: a strictly increasing self-map of [0, n) is the identity", [])
def lemma(v):
    """the two inductions, step by step"""
    g = ints("g")
    n, k = v.fresh_int("n", 1).t, v.fresh_int("k", 0).t
    j = z3.Int("cj")
    P().assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(g(j) >= 0, g(j) < n))), quantified=True)
    i = z3.Int("ci")
    P().assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), g(i) < g(j))), quantified=True)
    v.oblige("upwards: base", g(0) >= 0)
    v.oblige("upwards: step", z3.Implies(z3.And(k + 1 < n, g(k) >= k), g(k + 1) >= k + 1))
    v.oblige("downwards: base", g(n - 1) <= n - 1)
    v.oblige("downwards: step", z3.Implies(z3.And(k + 1 < n, g(k + 1) <= k + 1), g(k) <= k))


def identity_by_lemma(v, name, g, n):
    """oblige the hypotheses of the lemma for g, then assume its conclusion"""
    i, j = P().fresh("li", I_), P().fresh("lj", I_)
    v.oblige(name + ": values in range", z3.Implies(z3.And(i >= 0, i < n), z3.And(g(i) >= 0, g(i) < n)))
    v.oblige(name + ": strictly increasing", z3.Implies(z3.And(i >= 0, i < j, j < n), g(i) < g(j)))
    q = z3.Int("cq")
    P().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), g(q) == q)), quantified=True)


def permutation(c, n, d):
    return z3.And(n == d, sarr.injective(c, n))


@unit("Switchboard.__init__", [MOD + "Switchboard.__init__", MOD + "Switchboard.is_invertible", "mdp.signal_node:Node.__init__"])
def init(v):
    n, d = v.fresh_int("n", 0), v.fresh_int("d", 0)
    c = ints("c")
    con = v.choose([lambda: VList.of([span(n.t, lambda j: wrap(c(j)))]), lambda: SArr((n,), lambda j: c(j), I_)])()
    kind, o = outcome(S.Switchboard, d, con)
    if kind == "exc":
        v.oblige("refused with a switchboard exception", isinstance(o, S.SwitchboardException))
        j = z3.Int("cj")
        v.oblige("refused only with no connection or one outside the input",
                 z3.Or(n.t == 0, z3.Exists([j], z3.And(j >= 0, j < n.t, z3.Or(c(j) < 0, c(j) >= d.t)))))
        return
    k = P().fresh("k", I_)
    v.oblige("there are connections", n.t > 0)
    v.oblige("connections outside the input are rejected", z3.Implies(z3.And(k >= 0, k < n.t), z3.And(c(k) >= 0, c(k) < d.t)))
    oblige_arr(v, "connections kept", o.connections, lambda i: c(i), (n,))
    v.oblige_eq("input dimension", o.input_dim, d)
    v.oblige_eq("output dimension", o.output_dim, n)
    inv = o.is_invertible()
    if o.inverse_connections is None:
        v.oblige("not invertible", inv is False)
        v.oblige("not invertible only without a permutation", z3.Not(permutation(c, n.t, d.t)))
    else:
        v.oblige("invertible", inv is True)
        v.oblige("invertible only with a permutation", permutation(c, n.t, d.t))
        ic = o.inverse_connections
        v.oblige("inverse width", dim_eq(ic.shape[0], n.t))
        identity_by_lemma(v, "inverse connections", lambda i: c(ic.at(i)), n.t)
        i = P().fresh("i", I_)
        v.oblige("inverse connections undo the connections", z3.Implies(z3.And(i >= 0, i < n.t), c(ic.at(i)) == i))
        v.oblige("inverse connections are inside the output", z3.Implies(z3.And(i >= 0, i < n.t), z3.And(ic.at(i) >= 0, ic.at(i) < n.t)))


def board(v, cls=S.Switchboard, inv=True):
    """a switchboard satisfying the invariant established by the constructor"""
    o = cls.__new__(cls)
    track(o)
    n, d = v.fresh_int("n", 1), v.fresh_int("d", 1)
    c = ints("c")
    o._input_dim, o._output_dim, o._dtype = d, n, None
    o.connections = bounded(SArr((n,), lambda j: c(j), I_), d)
    if inv and v.case("invertible"):
        ic = ints("ic")
        v.assume(n.t == d.t)
        j = z3.Int("cj")
        P().assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n.t), c(ic(j)) == j)), quantified=True)
        o.inverse_connections = bounded(SArr((n,), lambda j: ic(j), I_), d)
    else:
        ic = None
        o.inverse_connections = None
    return o, n, d, c, ic


@unit("Switchboard._execute", [MOD + "Switchboard._execute"])
def execute(v):
    o, n, d, c, ic = board(v)
    m = v.fresh_int("m", 0)
    x, X = new_array("x", (m, d))
    keep = x.snap()
    y = o._execute(x)
    oblige_arr(v, "output column i is input column connections[i]", y, lambda r, i: X(r, c(i)), (m, n))
    oblige_arr(v, "input unchanged", x, keep, (m, d))


@unit("Switchboard._inverse", [MOD + "Switchboard._inverse", MOD + "Switchboard.is_invertible"])
def inverse(v):
    o, n, d, c, ic = board(v)
    m = v.fresh_int("m", 0)
    x, X = new_array("x", (m, d))
    v.oblige("reported invertibility", o.is_invertible() is (ic is not None))
    if ic is None:
        y = new_array("y", (m, n))[0]
        kind, r = outcome(o._inverse, y)
        v.oblige("inverse of a non-invertible switchboard raises", kind == "exc" and isinstance(r, S.SwitchboardException))
        return
    z = o._inverse(o._execute(x))
    oblige_arr(v, "inverse of execute is the identity", z, lambda r, i: X(r, i), (m, d))


@unit("BiSwitchboard.__init__", [BMOD + "BiSwitchboard.__init__"])
def bi_init(v):
    n, d = v.fresh_int("n", 0), v.fresh_int("d", 0)
    c = ints("c")
    con = SArr((n,), lambda j: c(j), I_)
    kind, o = outcome(BS.BiSwitchboard, input_dim=d, connections=con)
    if kind == "exc":
        v.oblige("refused with a switchboard exception", isinstance(o, S.SwitchboardException))
        return
    oblige_arr(v, "connections kept", o.connections, lambda i: c(i), (n,))
    v.oblige_eq("input dimension", o.input_dim, d)
    v.oblige_eq("output dimension", o.output_dim, n)
    if o.inverse_connections is None:
        v.oblige("not invertible only without a permutation", z3.Not(permutation(c, n.t, d.t)))
    else:
        v.oblige("invertible only with a permutation", permutation(c, n.t, d.t))


def entry(v, o, nm, width):
    """an arbitrary message value"""
    kind = v.choose(["2d", "3d", "1d", "text", "none", "list"])
    m, w, e = v.fresh_int("m", 0), v.fresh_int("w", 0), v.fresh_int("e", 0)
    if kind == "2d":
        a, A = new_array("a" + nm, (m, w))
    elif kind == "3d":
        a, A = new_array("a" + nm, (m, w, e))
    elif kind == "1d":
        a, A = new_array("a" + nm, (w,))
    else:
        return kind, {"text": "abc", "none": None, "list": [1, 2]}[kind], None, None
    return kind, a, A, w


def routed(v, name, kind, a, A, w, got, con, new, width):
    """got is the routed a if it is at least two-dimensional and of matching width, otherwise a itself"""
    if kind in ("2d", "3d"):
        if got is a:
            v.oblige(name + ": only values of another width are left alone", w.t != num_term(width))
            return
        v.oblige(name + ": only values of matching width are routed", w.t == num_term(width))
        sh = (a.shape[0], new) + tuple(a.shape[2:])
        oblige_arr(v, name + ": routed along the second axis", got, lambda *i: A(*((i[0], con(i[1])) + i[2:])), sh)
    else:
        v.oblige(name + ": left alone", got is a)


def bi(direction):
    @unit("BiSwitchboard._%s" % direction, [BMOD + "BiSwitchboard._%s" % direction, BMOD + "BiSwitchboard._%s_msg" % direction])
    def u(v):
        o, n, d, c, ic = board(v, BS.BiSwitchboard)
        fwd = direction == "execute"
        if not fwd and ic is None:
            return
        con, win, wout = (c, d, n) if fwd else (ic, n, d)
        m = v.fresh_int("rows", 0)
        how = v.choose(["none", "empty", "one", "two"])
        msg = {"none": None, "empty": {}}.get(how, 0)
        ents = {}
        if msg == 0:
            ents["a"] = entry(v, o, "a", win)
            if how == "two":
                ents["node=>b"] = entry(v, o, "b", win)
            msg = {k: e[1] for k, e in ents.items()}
        orig = dict(msg) if msg else msg
        x, X = (None, None) if v.case("x is None") else new_array("x", (m, win))
        f = getattr(o, "_" + direction)
        r = f(x) if msg is None else f(x, msg)
        if msg:
            v.oblige("the message is returned", isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict))
            y, out = r
            v.oblige("same message entries", sorted(out) == sorted(orig))
            for k, (kind, a, A, w) in ents.items():
                routed(v, "entry %s" % k, kind, a, A, w, out[k], con, wout, win)
                v.oblige("the incoming message is unchanged", msg[k] is orig[k])
        else:
            y = r
        if x is None:
            v.oblige("no data, no output", y is None)
        else:
            oblige_arr(v, "data routed", y, lambda q, i: X(q, con(i)), (m, wout))
    return u


bi("execute")
bi("inverse")


@H(np.bincount)
def _bincount(x, *a, **k):
    if not isinstance(x, SArr):
        return NotImplemented
    h = BINS[0](x)
    return h


BINS = [None]


@unit("MeanInverseSwitchboard._inverse", [MOD + "MeanInverseSwitchboard._inverse", MOD + "MeanInverseSwitchboard.is_invertible"])
def mean_inverse(v):
    """cnt(i): number of connections to input i; T(r, i): sum over those connections j of x[r, j]"""
    o, n, d, c, ic = board(v, S.MeanInverseSwitchboard, False)
    m = v.fresh_int("m", 0)
    x, X = new_array("x", (m, n))
    cnt = ints("cnt")
    T = z3.Function(P().fresh_name("T"), I_, I_, R_)
    q = z3.Int("cq")
    p = P()
    bk = p.fresh("bk", I_)
    off = prefix_sum(cnt(bk), bk)
    L = p.fresh("nbins", I_)
    # bincount: one bin up to the largest connection, which is not empty
    p.assume(z3.And(L >= 1, L <= d.t, cnt(L - 1) > 0))
    p.assume(off(L) == n.t)
    g = ints("argsort")
    perm = {}

    def bin_(i):
        perm["i"] = i
        # counts are not negative, so the offsets grow up to the number of connections
        for k in (i, i + 1):
            P().axiom(z3.Implies(z3.And(k >= 0, k < L), z3.And(cnt(k) >= 0, off(k) >= 0, off(k) + cnt(k) == off(k + 1), off(k + 1) <= n.t)))
        P().axiom(z3.Implies(z3.And(i >= 0, i + 1 <= L - 1), z3.And(off(i + 1) <= off(L - 1), cnt(L - 1) > 0)))
        return cnt(i)
    BINS[0] = lambda a: SArr((wrap(L),), bin_, I_)
    old = rt.handlers[np.argsort]
    rt.handlers[np.argsort] = lambda a, *r, **k: bounded(SArr((n,), lambda j: g(j), I_), n)
    osum = rt.handlers[np.sum]

    amsum = SArr.sum

    def block_sum(a, axis=None, *r, **k):
        # trusted: the connections sorted by input are grouped by input, in blocks of cnt(i) starting at off(i)
        if isinstance(a, SArr) and axis == 1:
            rr, w = p.fresh("bsr", I_), a.shape[1]
            i = perm.get("i")
            t = P().fresh("t", I_)
            P().assume(z3.And(t >= 0, t < num_term(w)))
            base = off(i)
            v.oblige("the block of input i: length", num_term(w) == cnt(i))
            v.oblige("the block of input i: columns",
                     z3.Implies(z3.And(rr >= 0, rr < m.t), a.at(rr, t) == X(rr, g(base + t))))
            return SArr((a.shape[0],), lambda r_: T(r_, i), R_)
        SArr.sum = amsum
        try:
            return osum(a, axis, *r, **k)
        finally:
            SArr.sum = block_sum
    v.invariants += [
        (lambda loc, v0: loc == ("L", "i_y"), lambda k, v0: wrap(k)),
        (lambda loc, v0: loc == ("L", "i_x_counter"), lambda k, v0: wrap(off(k))),
        (lambda loc, v0: isinstance(v0, sarr.AVal),
         lambda k, v0: sarr.AVal(v0.shape, lambda r, i: z3.If(z3.And(i >= 0, i < k, cnt(i) > 0), sarr.div(T(r, i), cnt(i)), v0.fn(r, i)), R_))]
    rt.handlers[np.sum] = SArr.sum = block_sum
    rt.all_while = True
    try:
        y = o._inverse(x)
    finally:
        rt.handlers[np.sum], rt.handlers[np.argsort] = osum, old
        SArr.sum = amsum

    def mean(r, i):
        P().axiom(z3.Implies(i >= L, cnt(i) == 0))
        P().axiom(z3.Implies(z3.And(i >= 0, i < L), cnt(i) >= 0))
        return z3.If(cnt(i) > 0, sarr.div(T(r, i), cnt(i)), z3.RealVal(0))
    oblige_arr(v, "mean over the connections, zero without any", y, mean, (m, d))
