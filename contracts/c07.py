"""C07: covariance statistics do not depend on the chunking.

Each accumulator carries the object invariant Inv(N): its fields are the sums over the first N samples of one
data function D.  update() on the chunk D(N), ..., D(N+m-1) establishes Inv(N+m) (from the unset state with N=0 as
well), so by induction over the calls the state is that of the whole data in one chunk; fix() computes the
definition from Inv(N) and leaves the unset state."""
from .common import *
from .arrays import *
from mdp.utils import covariance as C
from mdp import MDPException
rt.handlers[C._check_roundoff] = lambda *a, **k: None
trusted("_check_roundoff only warns; casting an array keeps its (mathematical) values")
MOD = "mdp.utils.covariance:"


def source(name, dims=1):
    return z3.Function(P().fresh_name(name), *([I_] * (1 + dims) + [R_]))


def chunk(D, N, m, cols, dt):
    """rows N .. N+m-1 of the data"""
    return SArr((m, cols), lambda r, i: D(r + num_term(N), i), R, dt)


def accum(cols, fn, dt=None):
    return SArr(cols, fn, R, dt)


def start(v, cls, names, **kw):
    """an accumulator that has seen N samples; -> (object, N)"""
    o = cls.__new__(cls)
    track(o)
    o._dtype = None
    o.bias = v.case("bias") if "bias" not in kw else kw["bias"]
    return o


@unit("CovarianceMatrix.update", [MOD + "CovarianceMatrix.update", MOD + "CovarianceMatrix._init_internals"])
def cov_update(v):
    o = start(v, C.CovarianceMatrix, None)
    D = source("D")
    n, m = v.fresh_int("n", 1), v.fresh_int("m", 0)
    fresh = v.case("unset")
    xt = new_dtype("xt")
    if v.case("dtype set") or not fresh:
        o._dtype = new_dtype("dt")
    dt0 = o._dtype
    S1 = lambda N: (lambda i: ssum(lambda r: D(r, i), 0, N))
    S2 = lambda N: (lambda i, j: ssum(lambda r: D(r, i) * D(r, j), 0, N))
    if fresh:
        N = 0
        o._cov_mtx = o._avg = o._input_dim = None
        o._tlen = 0
    else:
        N = v.fresh_int("N", 0)
        o._cov_mtx, o._avg, o._tlen, o._input_dim = accum((n, n), S2(N), dt0), accum((n,), S1(N), dt0), N, n
    x = chunk(D, N, m, n, xt)
    keep = x.snap()
    o.update(x)
    N1 = N + m
    v.oblige_eq("sample count", o._tlen, N1)
    oblige_arr(v, "sums", o._avg, S1(N1), (n,))
    oblige_arr(v, "second moments", o._cov_mtx, S2(N1), (n, n))
    v.oblige_eq("dtype fixed by the first chunk", o._dtype, xt if dt0 is None else dt0)
    oblige_arr(v, "input unchanged", x, keep, (m, n))


def fixed(v, o, names):
    for f in names:
        v.oblige("reset: %s" % f, o.__dict__.get(f, 1) is None)
    t = o.__dict__.get("_tlen")
    v.oblige("reset: sample count", is_num(t) and v_eq(t, 0))


@unit("CovarianceMatrix.fix", [MOD + "CovarianceMatrix.fix"])
def cov_fix(v):
    o = start(v, C.CovarianceMatrix, None)
    n, N = v.fresh_int("n", 1), v.fresh_int("N", 0)
    S1, S2 = source("S1", 0), source("S2", 1)
    o._dtype = new_dtype("dt")
    o._cov_mtx, o._avg, o._tlen = accum((n, n), lambda i, j: S2(i, j), o._dtype), accum((n,), lambda i: S1(i), o._dtype), N
    args = v.choose([{}, {"center": True}, {"center": False}])
    center = args.get("center", True)
    c, a, t = o.fix(**args)
    Nr = z3.ToReal(N.t)
    d = Nr if o.bias else Nr - 1
    v.oblige_eq("sample count returned", t, N)
    oblige_arr(v, "mean", a, lambda i: div(S1(i), Nr), (n,))
    oblige_arr(v, "covariance", c, lambda i, j: div(S2(i, j), d) - (div(S1(i) * S1(j), Nr * d) if center else 0), (n, n))
    fixed(v, o, ("_cov_mtx", "_avg"))


@unit("CrossCovarianceMatrix.update", [MOD + "CrossCovarianceMatrix.update", MOD + "CrossCovarianceMatrix._init_internals"])
def cross_update(v):
    o = start(v, C.CrossCovarianceMatrix, None)
    X, Y = source("X"), source("Y")
    n, k, m = v.fresh_int("n", 1), v.fresh_int("k", 1), v.fresh_int("m", 0)
    my = v.fresh_int("my", 0)
    fresh = v.case("unset")
    xt, yt = new_dtype("xt"), new_dtype("yt")
    if v.case("dtype set") or not fresh:
        o._dtype = new_dtype("dt")
    dt0 = o._dtype
    SX = lambda N: (lambda i: ssum(lambda r: X(r, i), 0, N))
    SY = lambda N: (lambda i: ssum(lambda r: Y(r, i), 0, N))
    S2 = lambda N: (lambda i, j: ssum(lambda r: X(r, i) * Y(r, j), 0, N))
    if fresh:
        N = 0
        o._cov_mtx = o._avg = o._input_dim = None
        o._tlen = 0
    else:
        N = v.fresh_int("N", 0)
        o._cov_mtx, o._avgx, o._avgy, o._tlen = accum((n, k), S2(N), dt0), accum((n,), SX(N), dt0), accum((k,), SY(N), dt0), N
    x, y = chunk(X, N, m, n, xt), chunk(Y, N, my, k, yt)
    kind, r = outcome(o.update, x, y)
    if kind == "exc":
        v.oblige("only unequal chunks are refused", z3.Or(m.t != my.t, xt.t != yt.t) if fresh and dt0 is None else m.t != my.t)
        v.oblige("refusal is an MDPException", isinstance(r, MDPException))
        if not fresh:
            v.oblige_eq("refused: count unchanged", o._tlen, N)
            oblige_arr(v, "refused: x sums unchanged", o._avgx, SX(N), (n,))
            oblige_arr(v, "refused: y sums unchanged", o._avgy, SY(N), (k,))
            oblige_arr(v, "refused: moments unchanged", o._cov_mtx, S2(N), (n, k))
        return
    v.oblige("accepted: equal number of samples", m.t == my.t)
    N1 = N + m
    v.oblige_eq("sample count", o._tlen, N1)
    oblige_arr(v, "x sums", o._avgx, SX(N1), (n,))
    oblige_arr(v, "y sums", o._avgy, SY(N1), (k,))
    oblige_arr(v, "cross moments", o._cov_mtx, S2(N1), (n, k))


@unit("CrossCovarianceMatrix.fix", [MOD + "CrossCovarianceMatrix.fix"])
def cross_fix(v):
    o = start(v, C.CrossCovarianceMatrix, None)
    n, k, N = v.fresh_int("n", 1), v.fresh_int("k", 1), v.fresh_int("N", 0)
    SX, SY, S2 = source("SX", 0), source("SY", 0), source("S2", 1)
    o._dtype = new_dtype("dt")
    o._cov_mtx, o._avgx, o._avgy, o._tlen = accum((n, k), lambda i, j: S2(i, j)), accum((n,), lambda i: SX(i)), accum((k,), lambda i: SY(i)), N
    c, ax, ay, t = o.fix()
    Nr = z3.ToReal(N.t)
    d = Nr if o.bias else Nr - 1
    v.oblige_eq("sample count returned", t, N)
    oblige_arr(v, "x mean", ax, lambda i: div(SX(i), Nr), (n,))
    oblige_arr(v, "y mean", ay, lambda i: div(SY(i), Nr), (k,))
    oblige_arr(v, "covariance", c, lambda i, j: div(S2(i, j), d) - div(SX(i) * SY(j), Nr * d), (n, k))
    fixed(v, o, ("_cov_mtx", "_avgx", "_avgy"))


@unit("DelayCovarianceMatrix.update", [MOD + "DelayCovarianceMatrix.update", MOD + "DelayCovarianceMatrix._init_internals"])
def delay_update(v):
    o = start(v, C.DelayCovarianceMatrix, None)
    lag = v.fresh_int("lag", 0)
    o._dt = lag
    X, A0, B0, C0 = source("X"), source("A0", 0), source("B0", 0), source("C0", 1)
    n, m = v.fresh_int("n", 1), v.fresh_int("m", 0)
    fresh = v.case("unset")
    xt = new_dtype("xt")
    if v.case("dtype set") or not fresh:
        o._dtype = new_dtype("dt")
    dt0 = o._dtype
    if fresh:
        o._cov_mtx = o._avg = o._avg_dt = None
        o._tlen = T0 = 0
        A0 = B0 = lambda i: z3.RealVal(0)
        C0 = lambda i, j: z3.RealVal(0)
    else:
        T0 = v.fresh_int("T0", 0)
        o._cov_mtx, o._avg, o._avg_dt, o._tlen = accum((n, n), lambda i, j: C0(i, j)), accum((n,), lambda i: A0(i)), \
            accum((n,), lambda i: B0(i)), T0
    x = chunk(X, 0, m, n, xt)
    kind, r = outcome(o.update, x)
    if kind == "exc":
        v.oblige("refusal is an MDPException", isinstance(r, MDPException))
        v.oblige("only blocks without a pair are refused", m.t < lag.t + 1)
        v.oblige_eq("refused: count unchanged", o._tlen, T0)
        oblige_arr(v, "refused: moments unchanged", o._cov_mtx, C0, (n, n))
        return
    p = m - lag
    v.oblige("pairs exist", p.t >= 1)
    v.oblige_eq("pair count grows by the pairs of the chunk", o._tlen, T0 + p)
    oblige_arr(v, "leading sums", o._avg, lambda i: A0(i) + ssum(lambda r: X(r, i), 0, p), (n,))
    oblige_arr(v, "delayed sums", o._avg_dt, lambda i: B0(i) + ssum(lambda r: X(r, i), lag, m), (n,))
    oblige_arr(v, "lagged products", o._cov_mtx, lambda i, j: C0(i, j) + ssum(lambda r: X(r, i) * X(r + lag.t, j), 0, p), (n, n))


@unit("DelayCovarianceMatrix.fix", [MOD + "DelayCovarianceMatrix.fix"])
def delay_fix(v):
    o = start(v, C.DelayCovarianceMatrix, None)
    n, N, q = v.fresh_int("n", 1), v.fresh_int("N", 0), v.fresh_int("q", 1)
    o._dt = v.fresh_int("lag", 0)
    SA, SB, S2, T = source("SA", 0), source("SB", 0), source("S2", 1), source("T", 1)
    o._dtype = new_dtype("dt")
    o._cov_mtx, o._avg, o._avg_dt, o._tlen = accum((n, n), lambda i, j: S2(i, j)), accum((n,), lambda i: SA(i)), accum((n,), lambda i: SB(i)), N
    Nr = z3.ToReal(N.t)
    d = Nr if o.bias else Nr - 1
    cov = lambda i, j: div(S2(i, j) - div(SA(i) * SB(j), Nr), d)
    if v.case("transform"):
        A = SArr((q, n), lambda i, j: T(i, j), R, o._dtype)
        c, a, b, t = v.choose([lambda: o.fix(A), lambda: o.fix(A=A)])()
        oblige_arr(v, "transformed covariance", c, lambda i, j: ssum(lambda s: T(i, s) * ssum(lambda r: cov(s, r) * T(j, r), 0, n), 0, n), (q, q))
    else:
        c, a, b, t = o.fix()
        oblige_arr(v, "covariance", c, cov, (n, n))
    v.oblige_eq("pair count returned", t, N)
    oblige_arr(v, "mean", a, lambda i: div(SA(i), Nr), (n,))
    oblige_arr(v, "delayed mean", b, lambda i: div(SB(i), Nr), (n,))
    fixed(v, o, ("_cov_mtx", "_avg", "_avg_dt"))


@unit("VartimeCovarianceMatrix.update", [MOD + "VartimeCovarianceMatrix.update"], max_time=400)
def var_update(v):
    """G(r): the time between samples r-1 and r; W(N) = integrals over samples 0..N-1"""
    o = start(v, C.VartimeCovarianceMatrix, None, bias=True)
    D, G = source("D"), z3.Function(P().fresh_name("G"), I_, R_)
    n, m = v.fresh_int("n", 1), v.fresh_int("m", 1)
    fresh = v.case("unset")
    xt = new_dtype("xt")
    if v.case("dtype set") or not fresh:
        o._dtype = new_dtype("dt")
    dt0 = o._dtype
    how = v.choose(["default", "constant", "array", "short array", "independent", "independent constant", "independent array"])
    if how == "constant" or how == "independent constant":
        cst = v.fresh_real("cst")
        v.assume(cst > 0)
        g = lambda r: cst.t
    elif how in ("default", "independent"):
        g = lambda r: z3.RealVal(1)
    else:
        g = lambda r: G(r)
    dep = not how.startswith("independent")
    rv = z3.Int("gr")
    P().assume(z3.ForAll([rv], G(rv) >= 0), quantified=True)
    half = z3.RealVal("1/2")
    S0 = lambda N: ssum(lambda r: g(r), 1, N)
    S1 = lambda N: (lambda i: ssum(lambda r: (D(r - 1, i) + D(r, i)) * g(r) * half, 1, N))
    S2 = lambda N: (lambda i, j: ssum(lambda r: (D(r - 1, i) * D(r - 1, j) + D(r, i) * D(r, j)) * g(r) * half, 1, N))
    if fresh:
        N = wrap(z3.IntVal(0))
        o._cov_mtx = o._avg = o._input_dim = None
        o._tlen = o.tchunk = o._steps = 0
        b0, b1, b2 = z3.RealVal(0), lambda i: z3.RealVal(0), lambda i, j: z3.RealVal(0)
    else:
        N = v.fresh_int("N", 1)
        tc = v.fresh_int("tchunk", 1)
        if dep:
            b0, b1, b2 = S0(N), S1(N), S2(N)
        else:
            f0, f1, f2 = z3.Const(P().fresh_name("b0"), R_), source("b1", 0), source("b2", 1)
            b0, b1, b2 = f0, lambda i: f1(i), lambda i, j: f2(i, j)
        o._cov_mtx, o._avg, o._input_dim = accum((n, n), b2, dt0), accum((n,), b1, dt0), n
        o._tlen, o.tchunk, o._steps = wrap(b0), tc, N
        o.xlast = SArr((n,), lambda i: D(N.t - 1, i), R, dt0)
    x = chunk(D, N, m, n, xt)
    if how == "default":
        kw = v.choose([{}, {"dt": None}, {"time_dep": True}])
    elif how == "constant":
        kw = {"dt": cst}
    elif how == "array":
        kw = {"dt": SArr((m,), lambda r: G(r + num_term(N)), R)}
    elif how == "short array":
        kw = {"dt": SArr((m - 1,), lambda r: G(r + num_term(N) + 1), R)}
    elif how == "independent":
        kw = {"time_dep": False}
    elif how == "independent constant":
        kw = {"dt": cst, "time_dep": False}
    else:
        kw = {"dt": SArr((m - 1,), lambda r: G(r + num_term(N) + 1), R), "time_dep": False}
    kind, r = outcome(o.update, x, **kw)
    if how == "short array" and not fresh:
        v.oblige("a chunk without the gap to the previous one is refused", kind == "exc")
        return
    v.oblige("accepted", kind == "ok")
    if kind != "ok":
        return
    N1 = N + m
    if dep:
        w0, w1, w2 = S0(N1), S1(N1), S2(N1)
    else:
        # only the time structure inside the chunk
        w0 = b0 + ssum(lambda r: g(r), N + 1, N1)
        w1 = lambda i: b1(i) + ssum(lambda r: (D(r - 1, i) + D(r, i)) * g(r) * half, N + 1, N1)
        w2 = lambda i, j: b2(i, j) + ssum(lambda r: (D(r - 1, i) * D(r - 1, j) + D(r, i) * D(r, j)) * g(r) * half, N + 1, N1)
    v.oblige("length of the series", real(o._tlen) == w0)
    oblige_arr(v, "first moments", o._avg, w1, (n,))
    oblige_arr(v, "second moments", o._cov_mtx, w2, (n, n))
    oblige_arr(v, "last sample kept", o.xlast, lambda i: D(num_term(N1) - 1, i), (n,))
    v.oblige("chunk seen", num_term(o.tchunk) > 0)


@unit("VartimeCovarianceMatrix.fix", [MOD + "VartimeCovarianceMatrix.fix"])
def var_fix(v):
    o = start(v, C.VartimeCovarianceMatrix, None, bias=True)
    n, N = v.fresh_int("n", 1), v.fresh_real("T")
    S1, S2 = source("S1", 0), source("S2", 1)
    o._dtype = new_dtype("dt")
    o._cov_mtx, o._avg, o._tlen = accum((n, n), lambda i, j: S2(i, j), o._dtype), accum((n,), lambda i: S1(i), o._dtype), N
    o._steps, o.tchunk = v.fresh_int("steps", 1), v.fresh_int("tchunk", 1)
    o.xlast = new_array("last", (n,))[0]
    args = v.choose([{}, {"center": True}, {"center": False}])
    center = args.get("center", True)
    c, a, t = o.fix(**args)
    v.oblige_eq("length returned", t, N)
    oblige_arr(v, "mean", a, lambda i: div(S1(i), N.t), (n,))
    oblige_arr(v, "covariance", c, lambda i, j: div(S2(i, j), N.t) - (div(S1(i) * S1(j), N.t * N.t) if center else 0), (n, n))
    fixed(v, o, ("_cov_mtx", "_avg"))
    v.oblige("reset: the next chunk is the first one", v_eq(o.__dict__.get("tchunk"), 0))
    v.oblige("reset: steps", v_eq(o.__dict__.get("_steps"), 0))


def construct(cls, *pos):
    @unit("%s.__init__" % cls.__name__, [MOD + "%s.__init__" % cls.__name__])
    def u(v):
        dt = None if v.case("no dtype") else new_dtype("dt")
        kw = {"dtype": dt} if v.case("give dtype") else {}
        if kw == {}:
            dt = None
        p = [v.fresh_int("lag", 0) for _ in pos]
        bias = False
        if cls is not C.VartimeCovarianceMatrix and v.case("give bias"):
            bias = v.choose([True, False])
            kw["bias"] = bias
        o = cls(*p, **kw)
        v.oblige_eq("dtype", o._dtype, dt)
        v.oblige("bias", o.bias is (True if cls is C.VartimeCovarianceMatrix else bias))
        v.oblige("unset", o._cov_mtx is None and v_eq(o._tlen, 0) is not False)
        v.oblige("no samples", v_eq(o._tlen, 0))
        if pos:
            v.oblige_eq("lag", o._dt, p[0])
        if cls is C.VartimeCovarianceMatrix:
            v.oblige("no chunks", v_eq(o.tchunk, 0))
    return u


construct(C.CovarianceMatrix)
construct(C.VartimeCovarianceMatrix)
construct(C.DelayCovarianceMatrix, "lag")
