"""C23: the linear feature nodes satisfy their algebraic definition.

`stop_training` runs on an abstract full eigendecomposition (the documented contract of `symeig`: ascending
eigenvalues w, Z^T B Z = 1, Z^T A Z = diag(w), the selected columns); the definitions are then proved for the outputs
that the real `_execute` and `_inverse` compute from the training data.  Sums are finite sums over the reals; exchange
of summation, equality of summands and sums with a Kronecker delta are lemmas proved by induction."""
from .common import *
from .arrays import *
from mdp import NodeException, TrainingException
from mdp.nodes import pca_nodes as PN, sfa_nodes as SN
from mdp.utils import _symeig as SY
import mdp.utils

MP = "mdp.nodes.pca_nodes:"
MS = "mdp.nodes.sfa_nodes:"
trusted("symeig on symmetric (positive definite) matrices: ascending eigenvalues w and a matrix Z with Z^T B Z = 1 and "
        "Z^T A Z = diag(w), of which the columns lo..hi are returned; Z is square and for B = 1 orthogonal on both sides")
trusted("NumPy's eigh on symmetric matrices: the same for B = 1")
trusted("floating point rounding of the feature nodes is not modelled: real arithmetic")


# ------------------------------------------------------------------------------------------------ finite sums
def total(f, n):
    return ssum(f, 0, n)


def delta(i, j):
    return z3.If(i == j, z3.RealVal(1), z3.RealVal(0))


@unit("lemma: exchange of summation", [])
def lemma_swap(v):
    """sum_i sum_j f = sum_j sum_i f, by induction on both bounds"""
    f, R, G, C, H = [z3.Function(P().fresh_name(q), I_, I_, R_) for q in "fRGCH"]
    n, m = v.fresh_int("n", 0).t, v.fresh_int("m", 0).t

    def defs(n, m):
        for a, b in ((n, m), (n + 1, m), (n, m + 1), (n + 1, m + 1)):
            pass
        for t in (n, n + 1):
            P().axiom(R(t, 0) == 0), P().axiom(H(t, 0) == 0), P().axiom(R(t, m + 1) == R(t, m) + f(t, m))
            P().axiom(H(t, m + 1) == H(t, m) + C(t, m))
        for t in (m, m + 1):
            P().axiom(G(0, t) == 0), P().axiom(C(0, t) == 0), P().axiom(C(n + 1, t) == C(n, t) + f(n, t))
            P().axiom(G(n + 1, t) == G(n, t) + R(n, t))
        P().axiom(H(0, 0) == 0), P().axiom(H(0, m + 1) == H(0, m) + C(0, m))
    # R(i, m) = sum_{j<m} f(i, j); G(n, m) = sum_{i<n} R(i, m); C(n, j) = sum_{i<n} f(i, j); H(n, m) = sum_{j<m} C(n, j)
    defs(n, m)
    v.oblige("no rows: base", H(0, 0) == 0)
    v.oblige("no rows: step", z3.Implies(H(0, m) == 0, H(0, m + 1) == 0))
    v.oblige("one more row adds its sum: base", H(n + 1, 0) == H(n, 0) + R(n, 0))
    v.oblige("one more row adds its sum: step", z3.Implies(H(n + 1, m) == H(n, m) + R(n, m), H(n + 1, m + 1) == H(n, m + 1) + R(n, m + 1)))
    v.oblige("exchange: step", z3.Implies(z3.And(G(n, m) == H(n, m), H(n + 1, m) == H(n, m) + R(n, m)), G(n + 1, m) == H(n + 1, m)))


@unit("lemma: equal summands, delta sums", [])
def lemma_same(v):
    f, g, S, T = [z3.Function(P().fresh_name(q), I_, R_) for q in "fgST"]
    n, j = v.fresh_int("n", 0).t, v.fresh_int("j").t
    P().axiom(S(0) == 0), P().axiom(T(0) == 0), P().axiom(S(n + 1) == S(n) + f(n)), P().axiom(T(n + 1) == T(n) + g(n))
    v.oblige("equal summands: base", S(0) == T(0))
    v.oblige("equal summands: step", z3.Implies(z3.And(S(n) == T(n), f(n) == g(n)), S(n + 1) == T(n + 1)))
    D = z3.Function(P().fresh_name("D"), I_, R_)
    P().axiom(D(0) == 0), P().axiom(D(n + 1) == D(n) + f(n) * delta(n, j))
    at = lambda n: z3.If(z3.And(0 <= j, j < n), f(j), z3.RealVal(0))
    v.oblige("delta: base", D(0) == at(0))
    v.oblige("delta: step", z3.Implies(D(n) == at(n), D(n + 1) == at(n + 1)))


@unit("lemma: square roots and inverses", [])
def lemma_root(v):
    x, s, i = [v.fresh_real(q).t for q in ("x", "s", "i")]
    v.assume(z3.And(x > 0, s >= 0, s * s == x))
    v.oblige("the root is not zero", s != 0)
    v.assume(s * i == 1)
    v.oblige("x / root / root", (s * i) * (s * i) == 1)
    P().axiom((s * i) * (s * i) == (s * s) * (i * i))
    v.oblige("x inv inv = 1", (s * s) * (i * i) == 1)


def root(x):
    """instance of the lemma: for x > 0, sqrt(x) inv(sqrt(x)) = 1 and x inv(sqrt x)^2 = 1"""
    s, x = sarr.sq(x), canon(x)
    i = sarr.f_inv(s)
    P().axiom(z3.Implies(x > 0, z3.And(s > 0, zero(canon(s * i) - 1), zero(canon(x * i * i) - 1))))


def zero(t):
    return canon(t) == 0


def equal(a, b):
    return zero(real(wrap(a)) - real(wrap(b)))


def swap(f, n, m):
    P().axiom(equal(total(lambda i: total(lambda j: f(i, j), m), n), total(lambda j: total(lambda i: f(i, j), n), m)))


def same(v, name, f, g, n, hint=None, when=None):
    """f(i) = g(i) for 0 <= i < n, hence equal sums"""
    i = P().fresh("i", I_)
    if hint is not None:
        hint(i)
    n = num_term(n)
    c = z3.And(i >= 0, i < n) if when is None else z3.And(i >= 0, i < n, when)
    v.oblige(name, z3.Implies(c, equal(f(i), g(i))))
    e = equal(total(f, n), total(g, n))
    P().axiom(e if when is None else z3.Implies(when, e))


def pick(g, j, n):
    """sum_i g(i) [i = j] = g(j)"""
    n = num_term(n)
    P().axiom(z3.Implies(z3.And(j >= 0, j < n), equal(total(lambda i: g(i) * delta(i, j), n), g(j))))


# ------------------------------------------------------------------------------------------------ contracts
class Moments(object):
    """contract of the accumulators (C07): fix() gives the mean and the (co)variance of what was seen"""
    _vc_ghost = True

    def __init__(self, D, N, n, centred=True):
        self.D, self.N, self.n = D, N, n
        self.a, self.c = [z3.Function(P().fresh_name(q), *([I_] * k + [R_])) for q, k in (("mean", 1), ("cov", 2))]
        self.centred = centred
        self.fixed = 0
        self.updates = []

    def E(self, r, i):
        return self.D(r, i) - self.a(i) if self.centred else self.D(r, i)

    def fix(self, center=True):
        rt.oblige("the matrix is centred exactly for the samples themselves", z3.BoolVal(center == self.centred))
        self.fixed += 1
        return (SArr((self.n, self.n), lambda i, j: self.c(i, j), R_), SArr((self.n,), lambda i: self.a(i), R_), self.N)

    def mean_def(self, i):
        P().axiom(equal(self.a(i) * z3.ToReal(num_term(self.N)), total(lambda r: self.D(r, i), self.N)))

    def cov_def(self, i, j):
        P().axiom(equal(self.c(i, j) * (z3.ToReal(num_term(self.N)) - 1), total(lambda r: self.E(r, i) * self.E(r, j), self.N)))


class Eigen(object):
    """contract of symeig"""
    _vc_ghost = True

    def __init__(self, n, strict=False):
        self.n, self.calls, self.strict = n, [], strict
        self.w, self.Z = [z3.Function(P().fresh_name(q), *([I_] * k + [R_])) for q, k in (("w", 1), ("Z", 2))]
        i, j = z3.Ints("qi qj")
        w = self.w
        P().assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n.t), w(i) <= w(j)),
                             patterns=[z3.MultiPattern(w(i), w(j))]), quantified=True)

    def __call__(self, A, B=None, eigenvectors=True, turbo="on", range=None, overwrite=False, **kw):
        n = self.n.t
        f = A.snap()
        g = None if B is None else B.snap()
        rt.oblige("symeig: square matrices", z3.And(dim_eq(A.shape[0], self.n), dim_eq(A.shape[1], self.n)))
        self.calls.append((f, g, range))
        lo, hi = z3.IntVal(1), n
        if range is not None:
            lo, hi = num_term(range[0]), num_term(range[1])
            rt.oblige("symeig: 1 <= lo <= hi <= n", z3.And(1 <= lo, lo <= hi, hi <= n))
        if overwrite:
            for q in (A, B):
                if q is not None:
                    h = ints("destroyed", 2)
                    q.put_all(lambda i, j: z3.ToReal(h(i, j)))
        m = wrap(z3.simplify(hi - lo + 1))
        return SArr((m,), lambda k: self.w(canon(k + lo - 1)), R_), SArr((self.n, m), lambda i, k: self.Z(i, canon(k + lo - 1)), R_)

    def orth(self, p, q, dl=None):
        """Z^T B Z = 1"""
        f, g, _ = self.calls[0]
        n, Z = self.n, self.Z
        P().axiom(z3.Implies(self.inside(p, q), equal(self.form(g, p, q), delta(p, q) if dl is None else dl)))

    def diag(self, p, q, dl=None):
        """Z^T A Z = diag(w)"""
        P().axiom(z3.Implies(self.inside(p, q), equal(self.form(self.calls[0][0], p, q), self.w(p) * (delta(p, q) if dl is None else dl))))

    def inside(self, p, q):
        n = self.n.t
        return z3.And(0 <= p, p < n, 0 <= q, q < n)

    def form(self, M, p, q):
        n, Z = self.n, self.Z
        if M is None:
            return total(lambda i: Z(i, p) * Z(i, q), n)
        return total(lambda i: Z(i, p) * total(lambda j: M(i, j) * Z(j, q), n), n)

    def both(self, i, j):
        """Z Z^T = 1 (B = 1)"""
        P().axiom(z3.Implies(self.inside(i, j), equal(total(lambda k: self.Z(i, k) * self.Z(j, k), self.n), delta(i, j))))


def pair(v):
    """two components, the same or different ones; -> a, b, [a = b]"""
    a = P().fresh("a", I_)
    if v.case("same component"):
        return a, a, z3.RealVal(1)
    b = P().fresh("b", I_)
    v.assume(a != b)
    return a, b, z3.RealVal(0)


def project(v, what, mom, S, n, a, b, T=None):
    """sum_r (sum_i E_ri S_ia)(sum_j E_rj T_jb) = (N-1) sum_i S_ia sum_j C_ij T_jb"""
    E, c, N = mom.E, mom.c, mom.N
    T = T or S
    Nr = z3.ToReal(num_term(N))
    Q = lambda r: total(lambda j: E(r, j) * T(j, b), n)
    # exchange the sums over samples and the first index
    swap(lambda r, i: E(r, i) * S(i, a) * Q(r), N, n)

    def inner(i):
        swap(lambda r, j: E(r, i) * E(r, j) * T(j, b), N, n)
        same(v, what + ": second moments", lambda j: T(j, b) * total(lambda r: E(r, i) * E(r, j), N),
             lambda j: T(j, b) * mom.c(i, j) * (Nr - 1), n, lambda j: mom.cov_def(i, j))
    same(v, what + ": sums over the samples", lambda i: S(i, a) * total(lambda r: E(r, i) * Q(r), N),
         lambda i: S(i, a) * (Nr - 1) * total(lambda j: c(i, j) * T(j, b), n), n, inner)


# ------------------------------------------------------------------------------------------------ principal components
def make_pca(v, cls=PN.PCANode, vary=True):
    o = cls.__new__(cls)
    track(o)
    n = v.fresh_int("n", 1)
    N = v.fresh_int("N", 2)
    D = z3.Function(P().fresh_name("D"), I_, I_, R_)
    mom = Moments(D, N, n)
    eig = Eigen(n)
    o._cov_mtx = mom
    o._symeig = eig
    o._input_dim, o._output_dim, o._dtype = n, None, None
    o.desired_variance = None
    o.svd, o.reduce = vary and v.case("svd"), False
    o.var_abs, o.var_rel, o.var_part = 1e-15, 1e-12, None
    o.d = o.v = o.total_variance = o.tlen = o.avg = o.explained_variance = None
    o._train_phase, o._training = 0, False
    return o, n, N, mom, eig


FUNCS = [MP + "PCANode._stop_training", MP + "PCANode._adjust_output_dim", MP + "PCANode._set_output_dim"]


def trained(v, cls=PN.PCANode, vary=False):
    """a PCA node after _stop_training, for a requested number or all components; -> node, ..., number kept"""
    o, n, N, mom, eig = make_pca(v, cls, vary)
    k = n
    if v.case("requested"):
        k = v.fresh_int("k", 1)
        v.assume(k.t <= n.t)
        o._output_dim = k
    # data of full rank: positive variances
    v.assume(total(lambda i: mom.c(i, i), n) > 0)
    q = z3.FreshConst(I_, "q")
    P().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), eig.w(q) > 0), patterns=[eig.w(q)]), quantified=True)
    kind, r = outcome(o._stop_training, *(v.choose([(), (True,)]) if vary else ()))
    v.oblige("training can be stopped", kind == "ok")
    if kind != "ok":
        raise core.PathEnd()
    return o, n, N, mom, eig, k


def column(n, k):
    return canon(n.t - 1 - k)


@unit("PCANode: components kept", FUNCS)
def u_kept(v):
    o, n, N, mom, eig, k = trained(v, vary=True)
    v.oblige_eq("output dimension", o._output_dim, k)
    oblige_arr(v, "eigenvalues in descending order", o.d, lambda j: eig.w(column(n, j)), (k,))
    oblige_arr(v, "directions", o.v, lambda i, j: eig.Z(i, column(n, j)), (n, k))
    oblige_arr(v, "mean", o.avg, lambda z, i: mom.a(i), (1, n))
    v.oblige_eq("number of samples", o.tlen, N)
    f = eig.calls[0][0]
    i, j = P().fresh("i", I_), P().fresh("j", I_)
    v.oblige("eigenproblem of the covariance matrix", z3.And(f(i, j) == mom.c(i, j), z3.BoolVal(len(eig.calls) == 1 and eig.calls[0][1] is None)))
    T = total(lambda i: mom.c(i, i), n)
    v.oblige("total variance", equal(num_term(o.total_variance), T))
    v.oblige("explained variance", equal(num_term(o.explained_variance), div(total(lambda j: eig.w(column(n, j)), k), T)))
    a = P().fresh("a", I_)
    v.oblige("descending", z3.Implies(z3.And(a >= 0, a + 1 < k.t), o.d.at(a) >= o.d.at(a + 1)))


@unit("PCANode: orthonormal directions", FUNCS + [MP + "PCANode.get_projmatrix"])
def u_orth(v):
    o, n, N, mom, eig, k = trained(v)
    o._if_training_stop_training = lambda: None
    V = v.choose([o.get_projmatrix, lambda: o.get_recmatrix().T, lambda: o.get_projmatrix(0).T, lambda: o.get_recmatrix(0)])()
    v.oblige("shape", z3.And(dim_eq(V.shape[0], n), dim_eq(V.shape[1], k)))
    a, b = P().fresh("a", I_), P().fresh("b", I_)
    eig.orth(column(n, a), column(n, b))
    v.oblige("orthonormal", z3.Implies(z3.And(a >= 0, a < k.t, b >= 0, b < k.t),
                                       equal(total(lambda i: V.at(i, a) * V.at(i, b), n), delta(a, b))))


def outputs(v, o, D, N, n, k):
    x = SArr((N, n), lambda r, i: D(r, i), R_)
    keep = x.snap()
    y = o._execute(x)
    oblige_arr(v, "the data are not changed", x, keep, (N, n))
    v.oblige("shape of the output", isinstance(y, SArr) and y.ndim == 2)
    v.oblige("shape of the output", z3.And(dim_eq(y.shape[0], N), dim_eq(y.shape[1], k)))
    return y


def zero_mean(v, y, mom, S, n, N, b):
    swap(lambda r, i: mom.E(r, i) * S(i, b), N, n)
    same(v, "deviations sum to zero", lambda i: S(i, b) * total(lambda r: mom.E(r, i), N), lambda i: z3.RealVal(0), n, mom.mean_def)
    v.oblige("zero mean", equal(total(lambda r: y.at(r, b), N), 0))


@unit("PCANode: uncorrelated outputs", FUNCS + [MP + "PCANode._execute"])
def u_uncorrelated(v):
    o, n, N, mom, eig, k = trained(v)
    y = outputs(v, o, mom.D, N, n, k)
    a, b, dl = pair(v)
    S = lambda i, c: eig.Z(i, column(n, c))
    project(v, "projection", mom, S, n, a, b)
    eig.diag(column(n, a), column(n, b), dl)
    Nr = z3.ToReal(N.t)
    lam = real(wrap(o.d.at(a)))
    form = total(lambda i: S(i, a) * total(lambda j: mom.c(i, j) * S(j, b), n), n)
    rng = z3.And(a >= 0, a < k.t, b >= 0, b < k.t)
    v.oblige("covariance", z3.Implies(rng, equal(form, lam * dl)))
    P().axiom(z3.Implies(rng, equal(form * (Nr - 1), lam * dl * (Nr - 1))))
    v.oblige("uncorrelated, with the eigenvalues as variances",
             z3.Implies(rng, equal(total(lambda r: y.at(r, a) * y.at(r, b), N), lam * dl * (Nr - 1))))
    zero_mean(v, y, mom, S, n, N, b)


@unit("PCANode: reconstruction", FUNCS + [MP + "PCANode._execute", MP + "PCANode._inverse", MP + "PCANode.get_recmatrix"])
def u_reconstruct(v):
    o, n, N, mom, eig, k = trained(v)
    v.assume(k.t == n.t)
    reconstruct(v, o, n, mom, eig, k)


def reconstruct(v, o, n, mom, eig, k, scale=None):
    o._if_training_stop_training = lambda: None
    m = v.fresh_int("m", 0)
    X = z3.Function(P().fresh_name("X"), I_, I_, R_)
    y = outputs(v, o, X, m, n, k)
    z = o._inverse(y, *v.choose([(), (k,)]))
    v.oblige("shape", z3.And(dim_eq(z.shape[0], m), dim_eq(z.shape[1], n)))
    r, j = P().fresh("r", I_), P().fresh("j", I_)
    c = lambda q: column(n, q)
    dev = lambda i: X(r, i) - mom.a(i)
    W = lambda i, q: eig.Z(i, c(q))
    f = lambda q, i: dev(i) * W(i, q) * W(j, q)
    raw = lambda q: real(wrap(o.v.at(j, q))) if scale is None else None
    if scale is not None:
        # the factors 1/sqrt(d) and sqrt(d) cancel
        same(v, "scaling cancels", lambda q: total(lambda i: f(q, i), n) * scale(q), lambda q: total(lambda i: f(q, i), n), n,
             lambda q: root(eig.w(c(q))))
    swap(f, n, n)
    # rows of the whole matrix are orthonormal too; the reversed order of the columns does not matter
    rev = lambda i: P().axiom(z3.Implies(z3.And(i >= 0, i < n.t), equal(total(lambda q: W(i, q) * W(j, q), n), total(lambda q: eig.Z(i, q) * eig.Z(j, q), n))))

    def hint(i):
        rev(i)
        eig.both(i, j)
    inr = z3.And(j >= 0, j < n.t)
    same(v, "orthonormal rows", lambda i: dev(i) * total(lambda q: W(i, q) * W(j, q), n), lambda i: dev(i) * delta(i, j), n, hint, inr)
    pick(dev, j, n)
    v.oblige("the input is restored", z3.Implies(z3.And(inr, r >= 0, r < m.t), equal(z.at(r, j), X(r, j))))


@unit("lemma: sums in reverse order", [])
def lemma_reverse(v):
    """sum_{q<n} g(n-1-q) = sum_{q<n} g(q): R(m) = sum_{q<m} g(n-1-q) = S(n) - S(n-m)"""
    g, S, R = [z3.Function(P().fresh_name(q), I_, R_) for q in "gSR"]
    n, m = v.fresh_int("n", 0).t, v.fresh_int("m", 0).t
    P().axiom(R(0) == 0), P().axiom(S(0) == 0), P().axiom(R(m + 1) == R(m) + g(n - 1 - m))
    P().axiom(z3.Implies(n - 1 - m >= 0, S(n - m) == S(n - m - 1) + g(n - 1 - m)))
    v.oblige("base", R(0) == S(n) - S(n - 0))
    v.oblige("step", z3.Implies(z3.And(m < n, R(m) == S(n) - S(n - m)), R(m + 1) == S(n) - S(n - (m + 1))))
    v.oblige("all", z3.Implies(R(n) == S(n) - S(n - n), R(n) == S(n)))


@unit("PCANode._execute, _inverse: some components", [MP + "PCANode._execute", MP + "PCANode._inverse", MP + "PCANode.get_recmatrix"])
def u_some(v):
    o, n, N, mom, eig = make_pca(v)
    k = v.fresh_int("k", 1)
    V, vf = new_array("v", (n, k))
    a, af = new_array("avg", (1, n))
    o.v, o.avg, o._output_dim = V, a, k
    o._if_training_stop_training = lambda: None
    m, p = v.fresh_int("m", 0), v.fresh_int("p", 1)
    v.assume(p.t <= k.t)
    x, xf = new_array("x", (m, n))
    y = o._execute(x, p)
    oblige_arr(v, "the first n components", y, lambda r, c: total(lambda i: (xf(r, i) - af(0, i)) * vf(i, c), n), (m, p))
    yy, yf = new_array("y", (m, p))
    want = lambda r, j: total(lambda c: yf(r, c) * vf(j, c), p) + af(0, j)
    z = o._inverse(yy, *v.choose([(), (p,)]))
    oblige_arr(v, "inverse from the first n components", z, want, (m, n))
    big, _ = new_array("y", (m, k + 1))
    kind, r = outcome(o._inverse, big)
    v.oblige("more components than there are: refused", kind == "exc" and isinstance(r, NodeException))


@unit("lemma: masks true on an initial part", [])
def lemma_prefix(v):
    """the positions selected by a mask that is true on an initial part are 0, 1, ...: pos increasing, inside the mask,
    every true index is some position (rank)"""
    f = z3.Function(P().fresh_name("mask"), I_, z3.BoolSort())
    pos, rank = [z3.Function(P().fresh_name(q), I_, I_) for q in ("pos", "rank")]
    m, n, k = v.fresh_int("m", 0).t, v.fresh_int("n", 0).t, v.fresh_int("k", 0).t
    at = lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(pos(i) >= 0, pos(i) < m, f(pos(i)), rank(pos(i)) == i))
    inc = lambda i, j: z3.Implies(z3.And(i >= 0, j < n, i < j), pos(i) < pos(j))
    hit = lambda i: z3.Implies(z3.And(i >= 0, i < m, f(i)), z3.And(rank(i) >= 0, rank(i) < n, pos(rank(i)) == i))
    pre = lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < m, f(j)), f(i))
    for a in (at(k), at(k - 1), inc(k - 1, k), hit(k), inc(rank(k), k), inc(k - 1, rank(k)), inc(k, rank(k)), pre(k, pos(k)), at(rank(k)), at(z3.IntVal(0))):
        P().axiom(a)
    # induction: the earlier positions are the identity
    before = z3.Implies(k >= 1, pos(k - 1) == k - 1)
    j = rank(k)
    v.oblige("next position", z3.Implies(z3.And(k < n, before, z3.Implies(z3.And(j >= 0, j < k), pos(j) == j)), pos(k) == k))
    # all n positions are 0..n-1; the next index is not selected
    r = rank(n)
    P().axiom(hit(n))
    v.oblige("nothing more", z3.Implies(z3.And(n < m, z3.Implies(z3.And(r >= 0, r < n), pos(r) == r)), z3.Not(f(n))))


@unit("PCANode: fraction of the variance", FUNCS)
def u_fraction(v):
    """the smallest number of components whose variance reaches the fraction; fewer only by `reduce`"""
    P().globals["prefix_masks"] = True
    o, n, N, mom, eig = make_pca(v)
    T = total(lambda i: mom.c(i, i), n)
    v.assume(T > 0)
    P().axiom(sarr.f_inv(T) > 0)
    top = eig.w(column(n, z3.IntVal(0)))
    v.assume(top > 0)                       # the data are not constant
    P().axiom(canon(sarr.f_inv(top) * top) == 1)
    want = None
    if v.case("fraction"):
        want = v.fresh_real("fraction")
        v.assume(z3.And(want.t > 0, want.t <= 1))
        PN.PCANode._set_output_dim(o, 0.5)
        v.oblige("a fraction sets no dimension yet", o._output_dim is None and o.desired_variance == 0.5)
        o.desired_variance = want
        kmax = n
    else:
        kmax = n
        if v.case("requested"):
            kmax = v.fresh_int("k", 1)
            v.assume(kmax.t <= n.t)
            PN.PCANode._set_output_dim(o, kmax)
            v.oblige_eq("a number sets the dimension", o._output_dim, kmax)
        P().globals["w"] = None
    o.reduce = v.case("reduce")
    if o.reduce:
        o.var_abs, o.var_rel = v.fresh_real("var_abs"), v.fresh_real("var_rel")
        v.assume(z3.And(o.var_abs.t >= 0, o.var_rel.t >= 0, o.var_rel.t < 1))
        o.var_part = v.choose([None, v.fresh_real("var_part")])
    lam = lambda q: eig.w(column(n, q))
    PS = lambda q: total(lam, q)
    # what must hold for the j largest eigenvalues
    kind, r = outcome(o._stop_training)
    q, j = P().fresh("q", I_), P().fresh("j", I_)
    if kind == "exc":
        v.oblige("failure is a node exception", isinstance(r, NodeException))
        if o.reduce:
            v.oblige("refused only if no variance is large enough", lam(z3.IntVal(0)) <= o.var_abs.t)
        else:
            v.oblige("refused only for a negative variance", z3.And(z3.BoolVal(want is None and not o.svd), lam(kmax.t - 1) < 0))
        return
    k = num_term(o.d.shape[0])
    v.oblige("matching numbers of eigenvalues and directions", z3.And(dim_eq(o.v.shape[1], wrap(k)), dim_eq(o.v.shape[0], n)))
    v.oblige_eq("output dimension", o._output_dim, wrap(k))
    oblige_arr(v, "eigenvalues in descending order", o.d, lambda j: lam(j), (wrap(k),))
    oblige_arr(v, "directions", o.v, lambda i, j: eig.Z(i, column(n, j)), (n, wrap(k)))
    v.oblige("at least one component, no more than there are", z3.And(k >= 1 if not o.reduce or o.var_part is None else k >= 0, k <= kmax.t))
    reach = lambda q: canon(PS(q) * sarr.f_inv(T)) >= want.t
    prefixes = P().globals.get("prefixes", [])
    if want is not None:
        # the number before `reduce`
        f0, m0, npos = prefixes[0]
        v.oblige("only positive variances count", z3.Implies(z3.And(q >= 0, q < n.t), f0(q) == (lam(q) > 0)))
        full = num_term(P().globals["searches"][0][3]) + 1
        full = z3.If(z3.And(full > npos, npos > 0), npos, full)
        some = npos > 0
        v.oblige("fewer components do not reach the fraction", z3.Implies(z3.And(some, j >= 1, j < k), z3.Not(reach(j))))
        if not o.reduce:
            v.oblige("these components reach the fraction, or there are no more",
                     z3.Implies(some, z3.Or(reach(k), k == npos)))
    else:
        full = kmax.t
        if not o.reduce:
            v.oblige("the requested number", k == kmax.t)
    if o.reduce:
        large = lambda q: z3.And(lam(q) > o.var_abs.t, canon(lam(q) * sarr.f_inv(lam(z3.IntVal(0)))) > o.var_rel.t,
                                 z3.BoolVal(True) if o.var_part is None else z3.Or(o.var_part.t == 0, canon(lam(q) * sarr.f_inv(T)) > o.var_part.t))
        v.oblige("reduced: every kept variance is large enough", z3.Implies(z3.And(q >= 0, q < k), large(q)))
        v.oblige("reduced: only small variances are dropped", z3.Implies(z3.And(q >= k, q < full, z3.BoolVal(True)), z3.Not(large(q))))


# ------------------------------------------------------------------------------------------------ whitening
WFUNCS = FUNCS + [MP + "WhiteningNode._stop_training"]


@unit("WhiteningNode: components kept", WFUNCS)
def u_white_kept(v):
    o, n, N, mom, eig, k = trained(v, PN.WhiteningNode, True)
    v.oblige_eq("output dimension", o._output_dim, k)
    oblige_arr(v, "eigenvalues in descending order", o.d, lambda j: eig.w(column(n, j)), (k,))
    oblige_arr(v, "scaled directions", o.v, lambda i, j: eig.Z(i, column(n, j)) * sarr.f_inv(sarr.sq(eig.w(column(n, j)))), (n, k))
    oblige_arr(v, "mean", o.avg, lambda z, i: mom.a(i), (1, n))


@unit("WhiteningNode: unit covariance", WFUNCS + [MP + "PCANode._execute"])
def u_white(v):
    o, n, N, mom, eig, k = trained(v, PN.WhiteningNode)
    v.oblige_eq("output dimension", o._output_dim, k)
    oblige_arr(v, "eigenvalues in descending order", o.d, lambda j: eig.w(column(n, j)), (k,))
    y = outputs(v, o, mom.D, N, n, k)
    a, b, dl = pair(v)
    S = lambda i, c: eig.Z(i, column(n, c)) * sarr.f_inv(sarr.sq(eig.w(column(n, c))))
    project(v, "projection", mom, S, n, a, b)
    eig.diag(column(n, a), column(n, b), dl)
    la, lb = eig.w(column(n, a)), eig.w(column(n, b))
    root(la), root(lb)
    rng = z3.And(a >= 0, a < k.t, b >= 0, b < k.t)
    U = lambda i, c: eig.Z(i, column(n, c))
    form = total(lambda i: U(i, a) * total(lambda j: mom.c(i, j) * U(j, b), n), n)
    ia, ib = sarr.f_inv(sarr.sq(la)), sarr.f_inv(sarr.sq(lb))
    v.oblige("covariance of the components", z3.Implies(rng, equal(form, la * dl)))
    Nr = z3.ToReal(N.t)
    P().axiom(z3.Implies(rng, equal(form * ia * ib * (Nr - 1), la * dl * ia * ib * (Nr - 1))))
    if a is b:
        P().axiom(z3.Implies(rng, equal(la * ia * ib * (Nr - 1), (Nr - 1))))
    v.oblige("unit covariance", z3.Implies(rng, equal(total(lambda r: y.at(r, a) * y.at(r, b), N), dl * (Nr - 1))))
    zero_mean(v, y, mom, S, n, N, b)


@unit("WhiteningNode: reconstruction", WFUNCS + [MP + "PCANode._execute", MP + "PCANode._inverse", MP + "WhiteningNode.get_recmatrix"])
def u_unwhite(v):
    o, n, N, mom, eig, k = trained(v, PN.WhiteningNode)
    v.assume(k.t == n.t)

    def scale(q):
        w = eig.w(column(n, q))
        i = sarr.f_inv(sarr.sq(w))
        return w * i * i
    reconstruct(v, o, n, mom, eig, k, scale)


@unit("WhiteningNode: matrices", WFUNCS + [MP + "WhiteningNode.get_recmatrix", MP + "WhiteningNode.get_eigenvectors"])
def u_white_matrices(v):
    o, n, N, mom, eig, k = trained(v, PN.WhiteningNode)
    o._if_training_stop_training = lambda: None
    E = o.get_eigenvectors()
    i, c = P().fresh("i", I_), P().fresh("c", I_)
    w = eig.w(column(n, c))
    root(w)
    rng = z3.And(i >= 0, i < n.t, c >= 0, c < k.t)
    v.oblige("shape", z3.And(dim_eq(E.shape[0], n), dim_eq(E.shape[1], k)))
    s = sarr.sq(w)
    P().axiom(z3.Implies(w > 0, equal(eig.Z(i, column(n, c)) * s * sarr.f_inv(s), eig.Z(i, column(n, c)))))
    v.oblige("the eigenvectors", z3.Implies(rng, equal(E.at(i, c), eig.Z(i, column(n, c)))))
    R, RT = o.get_recmatrix(0), o.get_recmatrix()
    v.oblige("shape", z3.And(dim_eq(R.shape[0], n), dim_eq(R.shape[1], k), dim_eq(RT.shape[1], n), dim_eq(RT.shape[0], k)))
    v.oblige("transposed", equal(R.at(i, c), RT.at(c, i)))
    # the back-projection is a left inverse on the components: R^T V = 1
    a, b = P().fresh("a", I_), P().fresh("b", I_)
    eig.orth(column(n, a), column(n, b))
    la, lb = eig.w(column(n, a)), eig.w(column(n, b))
    root(la), root(lb)
    ia, ib = sarr.f_inv(sarr.sq(la)), sarr.f_inv(sarr.sq(lb))
    rng = z3.And(a >= 0, a < k.t, b >= 0, b < k.t)
    U = lambda i, c: eig.Z(i, column(n, c))
    form = total(lambda i: U(i, a) * U(i, b), n)
    P().axiom(z3.Implies(rng, equal(form * ia * ib * la, delta(a, b) * ia * ib * la)))
    v.oblige("back-projection of the directions", z3.Implies(rng, equal(total(lambda i: R.at(i, a) * o.v.at(i, b), n), delta(a, b))))


# ------------------------------------------------------------------------------------------------ slow features
class Recorder(object):
    """contract of CovarianceMatrix.update (C07): the statistics grow by the rows given"""
    _vc_ghost = True

    def __init__(self, log):
        self.log = log

    def update(self, x):
        self.log.append((self, x.snap(), x.shape))


def make_sfa(v, cls=SN.SFANode):
    o = cls.__new__(cls)
    track(o)
    n = v.fresh_int("n", 1)
    o._input_dim, o._output_dim, o._dtype = n, None, None
    o._include_last_sample = True
    o.rank_threshold, o.rank_deficit = 1e-12, 0
    o.d = o.sf = o.avg = o._bias = o.tlen = None
    o._train_phase, o._training = 0, False
    return o, n


@unit("SFANode._train", [MS + "SFANode._train", MS + "SFANode.time_derivative", MS + "SFANode._check_train_args"])
def u_sfa_train(v):
    o, n = make_sfa(v)
    log = []
    o._cov_mtx, o._dcov_mtx = Recorder(log), Recorder(log)
    o._include_last_sample = v.case("default")
    m = v.fresh_int("m", 0)
    X = z3.Function(P().fresh_name("X"), I_, I_, R_)
    x = SArr((m, n), lambda r, i: X(r, i), R_)
    keep = x.snap()
    kind, r = outcome(o._check_train_args, x)
    v.oblige("refused if and only if there is no derivative", (m.t < 2) if kind == "exc" else (m.t >= 2))
    if kind == "exc":
        v.oblige("training exception", isinstance(r, TrainingException))
        return
    args = v.choose([(), (None,), (True,), (False,)])
    inc = args[0] if args and args[0] is not None else o._include_last_sample
    if v.case("by name") and args:
        o._train(x, include_last_sample=args[0])
    else:
        o._train(x, *args)
    v.oblige("both statistics get one update each", sorted(e[0] is o._cov_mtx for e in log) == [False, True] and
             all(e[0] in (o._cov_mtx, o._dcov_mtx) for e in log))
    for who, f, shape in log:
        r, i = P().fresh("r", I_), P().fresh("i", I_)
        rows = m if who is o._cov_mtx and inc else m - 1
        v.oblige("number of rows", z3.And(dim_eq(shape[0], rows), dim_eq(shape[1], n)))
        want = X(r, i) if who is o._cov_mtx else X(r + 1, i) - X(r, i)
        v.oblige("the samples" if who is o._cov_mtx else "the derivatives",
                 z3.Implies(z3.And(r >= 0, r < num_term(rows), i >= 0, i < n.t), equal(f(r, i), want)))
    oblige_arr(v, "the data are not changed", x, keep, (m, n))


SFUNCS = [MS + "SFANode._stop_training", MS + "SFANode._set_range"]


def trained_sfa(v, vary=False):
    o, n = make_sfa(v)
    N, M = v.fresh_int("N", 2), v.fresh_int("M", 2)
    D = z3.Function(P().fresh_name("D"), I_, I_, R_)
    dD = z3.Function(P().fresh_name("dD"), I_, I_, R_)
    mom, dmom = Moments(D, N, n), Moments(dD, M, n, centred=False)
    eig = Eigen(n)
    o._cov_mtx, o._dcov_mtx = mom, dmom
    extended = vary and v.case("extended signature")

    def solver(A, B=None, eigenvectors=True, turbo="on", range=None, overwrite=False, **kw):
        if kw and not extended:
            raise TypeError("unexpected keyword argument")
        return eig(A, B, eigenvectors, turbo, range, overwrite)
    o._symeig = solver
    k = n
    if v.case("requested"):
        k = v.fresh_int("k", 1)
        v.assume(k.t <= n.t)
        o._output_dim = k
    q = z3.FreshConst(I_, "q")
    P().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), eig.w(q) >= 0), patterns=[eig.w(q)]), quantified=True)
    kind, r = outcome(o._stop_training, *(v.choose([(), (True,)]) if vary else ()))
    v.oblige("training can be stopped", kind == "ok")
    if kind != "ok":
        raise core.PathEnd()
    return o, n, N, M, mom, dmom, eig, k


@unit("SFANode: components kept", SFUNCS)
def u_sfa_kept(v):
    o, n, N, M, mom, dmom, eig, k = trained_sfa(v, True)
    v.oblige_eq("output dimension", o._output_dim, k)
    oblige_arr(v, "the smallest eigenvalues, ascending", o.d, lambda j: eig.w(j), (k,))
    oblige_arr(v, "their filters", o.sf, lambda i, j: eig.Z(i, j), (n, k))
    oblige_arr(v, "mean", o.avg, lambda i: mom.a(i), (n,))
    oblige_arr(v, "bias", o._bias, lambda j: total(lambda i: mom.a(i) * eig.Z(i, j), n), (k,))
    v.oblige_eq("number of samples", o.tlen, N)
    v.oblige("one eigenproblem", len(eig.calls) == 1 and eig.calls[0][1] is not None)
    i, j = P().fresh("i", I_), P().fresh("j", I_)
    f, g, _ = eig.calls[0]
    v.oblige("of the derivatives against the samples", z3.And(f(i, j) == dmom.c(i, j), g(i, j) == mom.c(i, j)))
    a = P().fresh("a", I_)
    v.oblige("ascending", z3.Implies(z3.And(a >= 0, a + 1 < k.t), o.d.at(a) <= o.d.at(a + 1)))


@unit("SFANode: zero mean, unit covariance", SFUNCS + [MS + "SFANode._execute"])
def u_sfa_cov(v):
    o, n, N, M, mom, dmom, eig, k = trained_sfa(v)
    y = outputs(v, o, mom.D, N, n, k)
    a, b, dl = pair(v)
    project(v, "projection", mom, eig.Z, n, a, b)
    eig.orth(a, b, dl)
    Nr = z3.ToReal(N.t)
    rng = z3.And(a >= 0, a < k.t, b >= 0, b < k.t)
    form = total(lambda i: eig.Z(i, a) * total(lambda j: mom.c(i, j) * eig.Z(j, b), n), n)
    v.oblige("normalised", z3.Implies(rng, equal(form, dl)))
    P().axiom(z3.Implies(rng, equal(form * (Nr - 1), dl * (Nr - 1))))
    v.oblige("unit covariance", z3.Implies(rng, equal(total(lambda r: y.at(r, a) * y.at(r, b), N), dl * (Nr - 1))))
    zero_mean(v, y, mom, eig.Z, n, N, b)


@unit("SFANode: ordered by slowness", SFUNCS + [MS + "SFANode._execute"])
def u_sfa_slow(v):
    """the differences of the outputs at neighbouring samples are the derivatives times the filters; their second
    moments are the eigenvalues, in ascending order"""
    o, n, N, M, mom, dmom, eig, k = trained_sfa(v)
    # two samples, one after the other, whose difference is derivative t
    X = z3.Function(P().fresh_name("X"), I_, I_, I_, R_)
    t = P().fresh("t", I_)
    x = SArr((2, n), lambda r, i: X(t, r, i), R_)
    y = o._execute(x)
    a, b, dl = pair(v)
    one, nil = z3.IntVal(1), z3.IntVal(0)
    slope = lambda t, c: total(lambda i: dmom.D(t, i) * eig.Z(i, c), n)
    same(v, "the difference is the derivative", lambda i: (X(t, one, i) - X(t, nil, i)) * eig.Z(i, a), lambda i: dmom.D(t, i) * eig.Z(i, a), n,
         lambda i: P().axiom(dmom.D(t, i) == X(t, one, i) - X(t, nil, i)))
    v.oblige("change of the output", z3.Implies(z3.And(a >= 0, a < k.t), equal(y.at(one, a) - y.at(nil, a), slope(t, a))))
    project(v, "projection", dmom, eig.Z, n, a, b)
    eig.diag(a, b, dl)
    Mr = z3.ToReal(M.t)
    rng = z3.And(a >= 0, a < k.t, b >= 0, b < k.t)
    form = total(lambda i: eig.Z(i, a) * total(lambda j: dmom.c(i, j) * eig.Z(j, b), n), n)
    v.oblige("diagonal", z3.Implies(rng, equal(form, real(wrap(o.d.at(a))) * dl)))
    P().axiom(z3.Implies(rng, equal(form * (Mr - 1), eig.w(a) * dl * (Mr - 1))))
    v.oblige("second moments of the changes", z3.Implies(rng, equal(total(lambda r: slope(r, a) * slope(r, b), M), real(wrap(o.d.at(a))) * dl * (Mr - 1))))


@unit("SFANode._execute: some components", [MS + "SFANode._execute"])
def u_sfa_some(v):
    o, n = make_sfa(v)
    k, m, p = v.fresh_int("k", 1), v.fresh_int("m", 0), v.fresh_int("p", 1)
    v.assume(p.t <= k.t)
    S, sf = new_array("sf", (n, k))
    B, bf = new_array("bias", (k,))
    o.sf, o._bias, o._output_dim = S, B, k
    x, xf = new_array("x", (m, n))
    y = o._execute(x, *v.choose([(), (None,)]))
    oblige_arr(v, "all components", y, lambda r, c: total(lambda i: xf(r, i) * sf(i, c), n) - bf(c), (m, k))
    y = o._execute(x, p)
    oblige_arr(v, "the first n components", y, lambda r, c: total(lambda i: xf(r, i) * sf(i, c), n) - bf(c), (m, p))


# ------------------------------------------------------------------------------------------------ eigenproblems
class Eigh(object):
    """contract of numpy's eigh: one abstract decomposition per call"""
    _vc_ghost = True

    def __init__(self, n):
        self.n, self.calls = n, []

    def __call__(self, A):
        n = self.n
        e = Eigen(n)
        e.calls.append((A.snap(), None, None))
        rt.oblige("eigh: square matrix", z3.And(dim_eq(A.shape[0], n), dim_eq(A.shape[1], n)))
        self.calls.append(e)
        return SArr((n,), lambda k: e.w(k), R_), SArr((n, n), lambda i, k: e.Z(i, k), R_)


def solve(v, general):
    n = v.fresh_int("n", 1)
    A, af = new_array("A", (n, n))
    B, bf = new_array("B", (n, n))
    eigh = Eigh(n)
    r = None
    lo, hi = z3.IntVal(1), n.t
    if v.case("range"):
        a, b = v.fresh_int("lo", 1), v.fresh_int("hi")
        v.assume(z3.And(a.t <= b.t, b.t <= n.t))
        r, lo, hi = (a, b), a.t, b.t
    positive = lambda e: None
    lib = type("linalg", (), {"eigh": staticmethod(eigh), "LinAlgError": np.linalg.LinAlgError, "_vc_ghost": True})
    with Patched(SY, numx_linalg=lib, _greatest_common_dtype=lambda l: "d", _assert_eigenvalues_real=lambda w, d: None), \
            Patched(mdp.utils, refcast=lambda x, d: x):
        kind, out = outcome(SY._symeig_fake, A, B if general else None, range=r, overwrite=v.choose([True, False]))
    return n, A, af, bf, eigh, lo, hi, kind, out


trusted("the matrix product is associative for the sums used (exchange of summation is proved)")


@unit("symeig: standard problem", ["mdp.utils._symeig:_symeig_fake"])
def u_symeig(v):
    n, A, af, bf, eigh, lo, hi, kind, out = solve(v, False)
    v.oblige("solved", kind == "ok")
    if kind != "ok":
        raise core.PathEnd()
    w, Z = out
    m = wrap(z3.simplify(hi - lo + 1))
    v.oblige("number of eigenvalues", z3.And(dim_eq(w.shape[0], m), dim_eq(Z.shape[0], n), dim_eq(Z.shape[1], m)))
    e, = eigh.calls
    i, j = P().fresh("i", I_), P().fresh("j", I_)
    f = e.calls[0][0]
    v.oblige("of the matrix given", f(i, j) == af(i, j))
    # sorting the sorted eigenvalues: some permutation; values and columns agree
    perm = argsort_of(w)
    a, b = P().fresh("a", I_), P().fresh("b", I_)
    rng = z3.And(a >= 0, a < m.t, b >= 0, b < m.t)
    p, q = perm(canon(a + lo - 1)), perm(canon(b + lo - 1))
    v.oblige("the selected eigenvalues", z3.Implies(rng, w.at(a) == e.w(p)))
    v.oblige("with their vectors", z3.Implies(z3.And(rng, i >= 0, i < n.t), Z.at(i, a) == e.Z(i, p)))
    v.oblige("ascending", z3.Implies(z3.And(rng, a <= b), w.at(a) <= w.at(b)))
    v.oblige("different vectors", z3.Implies(z3.And(rng, a != b), p != q))
    v.oblige("existing vectors", z3.Implies(rng, z3.And(p >= 0, p < n.t)))
    x = P().fresh("x", I_)
    # orthonormal and diagonalising because the columns of eigh are
    e.orth(p, q), e.diag(p, q)
    same(v, "columns", lambda i: Z.at(i, a) * Z.at(i, b), lambda i: e.Z(i, p) * e.Z(i, q), n)
    v.oblige("orthonormal", z3.Implies(rng, equal(total(lambda i: Z.at(i, a) * Z.at(i, b), n), delta(a, b))))
    v.oblige("diagonal", z3.Implies(rng, equal(total(lambda i: Z.at(i, a) * total(lambda j: af(i, j) * Z.at(j, b), n), n), w.at(a) * delta(a, b))))


def argsort_of(w):
    g = [f for f in P().globals.get("argsorts", [])]
    return g[-1]


@unit("symeig: generalised problem", ["mdp.utils._symeig:_symeig_fake"])
def u_symeig_general(v):
    """Z = ZB ZA with ZB = U / sqrt(wB), where U, wB solve B and ZA solves ZB^T A ZB"""
    n, A, af, bf, eigh, lo, hi, kind, out = solve(v, True)
    eb = eigh.calls[0]
    if kind == "exc":
        v.oblige("refused with the exception for eigenproblems", isinstance(out, SY.SymeigException))
        k = z3.FreshConst(I_, "k")
        v.oblige("refused only for a matrix that is not positive", z3.Exists([k], z3.And(k >= 0, k < n.t, eb.w(k) < 0)))
        return
    q = z3.FreshConst(I_, "q")
    P().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), eb.w(q) > 0), patterns=[eb.w(q)]), quantified=True)
    w, Z = out
    ea = eigh.calls[1]
    m = wrap(z3.simplify(hi - lo + 1))
    v.oblige("number of eigenvalues", z3.And(dim_eq(w.shape[0], m), dim_eq(Z.shape[0], n), dim_eq(Z.shape[1], m)))
    perm = argsort_of(w)
    a = P().fresh("a", I_)
    if v.case("same"):
        b, dl = a, z3.RealVal(1)
    else:
        b, dl = P().fresh("b", I_), z3.RealVal(0)
        v.assume(a != b)
    rng = z3.And(a >= 0, a < m.t, b >= 0, b < m.t)
    p, q = perm(canon(a + lo - 1)), perm(canon(b + lo - 1))
    v.oblige("different vectors", z3.Implies(z3.And(rng, a != b), p != q))
    v.oblige("existing vectors", z3.Implies(rng, z3.And(p >= 0, p < n.t, q >= 0, q < n.t)))
    v.oblige("the selected eigenvalues", z3.Implies(rng, w.at(a) == ea.w(p)))
    v.oblige("ascending", z3.Implies(z3.And(rng, a <= b), w.at(a) <= w.at(b)))
    si = lambda k: sarr.f_inv(sarr.sq(eb.w(k)))
    ZB = lambda i, k: eb.Z(i, k) * si(k)
    comp = lambda i, c: total(lambda k: ZB(i, k) * ea.Z(k, c), n)
    i = P().fresh("i", I_)
    v.oblige("composed vectors", z3.Implies(z3.And(rng, i >= 0, i < n.t), z3.And(equal(Z.at(i, a), comp(i, p)), equal(Z.at(i, b), comp(i, q)))))
    A2 = ea.calls[0][0]

    def congruence(what, M, inner, hint):
        """sum_i Z_ip sum_j M_ij Z_jq = sum_k ZA_kp sum_l inner(k, l) ZA_lq, inner = ZB^T M ZB"""
        T = lambda i, l: total(lambda j: M(i, j) * ZB(j, l), n)
        def first(i):
            swap(lambda j, l: M(i, j) * ZB(j, l) * ea.Z(l, q), n, n)
        X = lambda i: total(lambda l: ea.Z(l, q) * T(i, l), n)
        same(v, what + ": right factor", lambda i: comp(i, p) * total(lambda j: M(i, j) * comp(j, q), n), lambda i: comp(i, p) * X(i), n, first)
        swap(lambda i, k: ZB(i, k) * ea.Z(k, p) * X(i), n, n)

        def second(k):
            swap(lambda i, l: ZB(i, k) * ea.Z(l, q) * T(i, l), n, n)
            same(v, what + ": inner matrix", lambda l: ea.Z(l, q) * total(lambda i: ZB(i, k) * T(i, l), n), lambda l: ea.Z(l, q) * inner(k, l), n,
                 lambda l: hint(k, l), z3.And(k >= 0, k < n.t))
        same(v, what + ": left factor", lambda k: ea.Z(k, p) * total(lambda i: ZB(i, k) * X(i), n),
             lambda k: ea.Z(k, p) * total(lambda l: ea.Z(l, q) * inner(k, l), n), n, second)
        lhs = total(lambda i: comp(i, p) * total(lambda j: M(i, j) * comp(j, q), n), n)
        rhs = total(lambda k: ea.Z(k, p) * total(lambda l: ea.Z(l, q) * inner(k, l), n), n)
        v.oblige(what + ": congruence", equal(lhs, rhs))
        return lhs

    # A: the inner matrix is what eigh was given
    i, j = P().fresh("i", I_), P().fresh("j", I_)
    want = lambda k, l: total(lambda j: total(lambda i: ZB(i, k) * af(i, j), n) * ZB(j, l), n)
    v.oblige("second eigenproblem", equal(A2(i, j), want(i, j)))

    def hint_a(k, l):
        swap(lambda i, j: ZB(i, k) * af(i, j) * ZB(j, l), n, n)
    lhs = congruence("A", af, A2, hint_a)
    ea.diag(p, q, dl if a is b else None)
    v.oblige("diagonal", z3.Implies(rng, equal(lhs, real(wrap(w.at(a))) * dl)))
    f, g = eb.calls[0][0], None
    v.oblige("first eigenproblem", f(i, j) == bf(i, j))

    V = lambda k, l: total(lambda i: ZB(i, k) * total(lambda j: bf(i, j) * ZB(j, l), n), n)

    def hint_b(k, l):
        inr = z3.And(k >= 0, k < n.t, l >= 0, l < n.t)
        # different columns
        form = eb.form(bf, k, l)
        eb.diag(k, l)
        v.oblige("B: different columns", z3.Implies(z3.And(inr, k != l), equal(form, 0)))
        P().axiom(z3.Implies(z3.And(inr, k != l), equal(form * si(k) * si(l), 0)))
        v.oblige("B: different scaled columns", z3.Implies(z3.And(inr, k != l), equal(V(k, l), 0)))
        # the same column
        form = eb.form(bf, k, k)
        eb.diag(k, k, z3.RealVal(1))
        root(eb.w(k))
        P().axiom(z3.Implies(inr, equal(form * si(k) * si(k), eb.w(k) * si(k) * si(k))))
        v.oblige("B: the same scaled column", z3.Implies(inr, equal(V(k, k), 1)))
        P().axiom(z3.Implies(inr, equal(V(k, l), delta(l, k))))
    lhs = congruence("B", bf, lambda k, l: delta(l, k), hint_b)

    same(v, "B: identity", lambda k: ea.Z(k, p) * total(lambda l: ea.Z(l, q) * delta(l, k), n), lambda k: ea.Z(k, p) * ea.Z(k, q), n,
         lambda k: pick(lambda l: ea.Z(l, q), k, n))
    ea.orth(p, q, dl if a is b else None)
    v.oblige("orthonormal with respect to B", z3.Implies(rng, equal(lhs, dl)))


@unit("nongeneral_svd", ["mdp.utils.routines:nongeneral_svd"])
def u_svd(v):
    """for a positive semidefinite matrix the singular value decomposition is an eigendecomposition (trusted); the values
    are sorted and the columns selected like symeig's"""
    n = v.fresh_int("n", 1)
    A, af = new_array("A", (n, n))
    e = Eigen.__new__(Eigen)
    w, Z = [z3.Function(P().fresh_name(q), *([I_] * k + [R_])) for q, k in (("w", 1), ("Z", 2))]
    seen = []

    def svd(M, *a, **k):
        seen.append(M.snap())
        return SArr((n, n), lambda i, k: Z(i, k), R_), SArr((n,), lambda k: w(k), R_), SArr((n, n), lambda k, i: Z(i, k), R_)
    rng_, lo, hi = None, z3.IntVal(1), n.t
    if v.case("range"):
        a, b = v.fresh_int("lo", 1), v.fresh_int("hi")
        v.assume(z3.And(a.t <= b.t, b.t <= n.t))
        rng_, lo, hi = (a, b), a.t, b.t
    with Patched(mdp.utils, svd=svd):
        d, V = mdp.utils.nongeneral_svd(A, *v.choose([(rng_,), ()]) if rng_ is None else (rng_,), overwrite=True)
    m = wrap(z3.simplify(hi - lo + 1))
    v.oblige("number of eigenvalues", z3.And(dim_eq(d.shape[0], m), dim_eq(V.shape[0], n), dim_eq(V.shape[1], m)))
    i, j = P().fresh("i", I_), P().fresh("j", I_)
    v.oblige("of the matrix given", len(seen) == 1 and seen[0](i, j) == af(i, j))
    perm = argsort_of(d)
    a, b = P().fresh("a", I_), P().fresh("b", I_)
    rng = z3.And(a >= 0, a < m.t, b >= 0, b < m.t)
    p, q = perm(canon(a + lo - 1)), perm(canon(b + lo - 1))
    v.oblige("the selected eigenvalues", z3.Implies(rng, d.at(a) == w(p)))
    v.oblige("with their vectors", z3.Implies(z3.And(rng, i >= 0, i < n.t), V.at(i, a) == Z(i, p)))
    v.oblige("ascending", z3.Implies(z3.And(rng, a <= b), d.at(a) <= d.at(b)))
    v.oblige("different vectors", z3.Implies(z3.And(rng, a != b), p != q))


class Expansion(object):
    """contract of the expansion node (C19): a function of the sample, with its own number of outputs"""
    _vc_ghost = True

    def __init__(self, full):
        self.full, self.calls = full, []
        self.F = z3.Function(P().fresh_name("expanded"), I_, I_, R_)

    @property
    def output_dim(self):
        return self.full

    def __call__(self, x):
        self.calls.append(x)
        return SArr((x.shape[0], self.full), lambda r, i: self.F(r, i), R_)


@unit("SFA2Node", [MS + "SFA2Node._train", MS + "SFA2Node._set_range", MS + "SFA2Node._stop_training", MS + "SFA2Node._execute"])
def u_sfa2(v):
    o, n = make_sfa(v, SN.SFA2Node)
    full = v.fresh_int("full", 1)
    e = o._expnode = Expansion(full)
    log = []
    o._cov_mtx, o._dcov_mtx = Recorder(log), Recorder(log)
    m = v.fresh_int("m", 2)
    x, xf = new_array("x", (m, n))
    arg = v.choose([(), (True,), (False,)])
    inc = arg[0] if arg else True
    o._train(x, *arg)
    v.oblige("the samples are expanded", len(e.calls) == 1 and e.calls[0] is x)
    v.oblige("both statistics get one update each", sorted(q[0] is o._cov_mtx for q in log) == [False, True])
    for who, f, shape in log:
        r, i = P().fresh("r", I_), P().fresh("i", I_)
        rows = m if who is o._cov_mtx and inc else m - 1
        v.oblige("number of rows", z3.And(dim_eq(shape[0], rows), dim_eq(shape[1], full)))
        want = e.F(r, i) if who is o._cov_mtx else e.F(r + 1, i) - e.F(r, i)
        v.oblige("the expanded samples" if who is o._cov_mtx else "their derivatives",
                 z3.Implies(z3.And(r >= 0, r < num_term(rows), i >= 0, i < full.t), equal(f(r, i), want)))
    # the eigenproblem has the size of the expansion
    N, M = v.fresh_int("N", 2), v.fresh_int("M", 2)
    D, dD = [z3.Function(P().fresh_name(q), I_, I_, R_) for q in ("D", "dD")]
    mom, dmom, eig = Moments(D, N, full), Moments(dD, M, full, centred=False), Eigen(full)
    q = z3.FreshConst(I_, "q")
    P().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < full.t), eig.w(q) >= 0), patterns=[eig.w(q)]), quantified=True)
    o._cov_mtx, o._dcov_mtx, o._symeig = mom, dmom, lambda A, B=None, ev=True, turbo="on", range=None, overwrite=False, **k: eig(A, B, ev, turbo, range, overwrite)
    k = full
    if v.case("requested"):
        k = v.fresh_int("k", 1)
        v.assume(k.t <= full.t)
        o._output_dim = k
    kind, r = outcome(o._stop_training)
    v.oblige("training can be stopped", kind == "ok")
    if kind != "ok":
        raise core.PathEnd()
    v.oblige_eq("output dimension", o._output_dim, k)
    oblige_arr(v, "the smallest eigenvalues, ascending", o.d, lambda j: eig.w(j), (k,))
    oblige_arr(v, "their filters", o.sf, lambda i, j: eig.Z(i, j), (full, k))
    oblige_arr(v, "bias", o._bias, lambda j: total(lambda i: mom.a(i) * eig.Z(i, j), full), (k,))
    y = o._execute(x)
    v.oblige("the samples are expanded", len(e.calls) == 2 and e.calls[1] is x)
    oblige_arr(v, "output", y, lambda r, c: total(lambda i: (e.F(r, i) - mom.a(i)) * eig.Z(i, c), full), (m, k))
    p = v.fresh_int("p", 1)
    v.assume(p.t <= k.t)
    y = o._execute(x, p)
    oblige_arr(v, "the first n components", y, lambda r, c: total(lambda i: (e.F(r, i) - mom.a(i)) * eig.Z(i, c), full), (m, p))
