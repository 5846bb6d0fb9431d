"""C19: polynomial expansion yields every monomial of the degree exactly once."""
from .common import *
from .arrays import *
from mdp.nodes import expansion_nodes as E
from mdp.utils import routines

MOD = "mdp.nodes.expansion_nodes:"
binom = z3.Function("binom", I_, I_, I_)      # Pascal's triangle
ff = z3.Function("ff", I_, I_, I_)            # n * (n-1) * ... * (n-k+1)
fact = z3.Function("fact", I_, I_)
rest = z3.Function("rest", I_, I_, I_)        # (j+1) * ... * k


def pascal(n, k):
    """defining axioms of binom at n, k"""
    P().axiom(binom(n, 0) == 1)
    P().axiom(z3.Implies(k >= 1, binom(0, k) == 0))
    P().axiom(z3.Implies(z3.And(n >= 1, k >= 1), binom(n, k) == binom(n - 1, k - 1) + binom(n - 1, k)))


def falling(n, k):
    P().axiom(ff(n, 0) == 1)
    P().axiom(z3.Implies(k >= 1, ff(n, k) == ff(n, k - 1) * (n - k + 1)))


def factorial(k):
    P().axiom(fact(0) == 1)
    P().axiom(z3.Implies(k >= 1, fact(k) == fact(k - 1) * k))


def remaining(j, k):
    P().axiom(rest(k, k) == 1)
    P().axiom(z3.Implies(z3.And(j >= 0, j < k), rest(j, k) == (j + 1) * rest(j + 1, k)))


@unit("lemma: falling factorials", [])
def lemma_ff(v):
    """ff(n+1, k+1) = (n+1) ff(n, k), by induction on k; ff(n, k) = fact(k) binom(n, k), by induction on n for all k;
    fact(k) = rest(0, k), that is fact(j) rest(j, k) = fact(k), by induction on j"""
    n, k = v.fresh_int("n", 0).t, v.fresh_int("k", 0).t
    c = v.choose(["a base", "a step", "b base", "b step", "c base", "c step"])
    for q in (n, n + 1):
        for r in (k, k + 1, k + 2, z3.IntVal(1), z3.IntVal(0)):
            falling(q, r), pascal(q, r)
    factorial(k), factorial(k + 1)
    if c == "a base":
        v.oblige("ff(n+1, 1)", ff(n + 1, 1) == (n + 1) * ff(n, 0))
    elif c == "a step":
        v.assume(ff(n + 1, k + 1) == (n + 1) * ff(n, k))
        v.oblige("ff(n+1, k+2)", ff(n + 1, k + 2) == (n + 1) * ff(n, k + 1))
    elif c == "b base":
        # ff(0, k) = fact(k) binom(0, k)
        falling(z3.IntVal(0), z3.IntVal(0)), pascal(z3.IntVal(0), z3.IntVal(0)), factorial(z3.IntVal(0))
        v.oblige("ff(0, 0)", z3.Implies(k == 0, ff(0, 0) == fact(0) * binom(0, 0)))
        falling(z3.IntVal(0), k + 1), pascal(z3.IntVal(0), k + 1), falling(z3.IntVal(0), z3.IntVal(1))
        v.oblige("ff(0, 1) is zero", ff(0, 1) == 0)
        v.oblige("ff(0, k+1) is zero if ff(0, k) is, for k >= 1", z3.Implies(ff(0, k) == 0, ff(0, k + 1) == 0))
        v.oblige("binom(0, k+1) is zero", binom(0, k + 1) == 0)
    elif c == "b step":
        v.assume(ff(n, k) == fact(k) * binom(n, k))
        v.assume(ff(n, k + 1) == fact(k + 1) * binom(n, k + 1))
        v.assume(ff(n + 1, k + 1) == (n + 1) * ff(n, k))
        v.oblige("ff(n+1, k+1)", ff(n + 1, k + 1) == fact(k + 1) * binom(n + 1, k + 1))
        v.oblige("ff(n+1, 0)", ff(n + 1, 0) == fact(0) * binom(n + 1, 0))
    else:
        j = v.fresh_int("j", 0).t
        factorial(j + 1), remaining(j, k)
        if c == "c base":
            remaining(k, k)
            v.oblige("rest(k, k)", fact(k) * rest(k, k) == fact(k))
        else:
            v.assume(j < k)
            v.assume(fact(j + 1) * rest(j + 1, k) == fact(k))
            v.oblige("down to j", fact(j) * rest(j, k) == fact(k))


class Wld(object):
    pass


def W():
    return P().globals["w"]


class Numerator(object):
    objects = ()

    def __init__(self):
        self.j = z3.IntVal(0)
        self.name = None

    def number(self, l):
        """the local the loop works on"""
        if self.name is None:
            if len(l) != 1:
                raise Unsupported("locals of the loop")
            self.name = list(l)[0]
        return self.name

    def check(self, when, k):
        pass

    def havoc(self, k):
        self.j = k

    def check_locals(self, when, l):
        w = W()
        falling(w.n, self.j + 1), falling(w.n, z3.IntVal(0))
        j = self.j + 1 if when == "preserved" else z3.IntVal(0)
        rt.oblige("a product of falling factors", num_term(l[self.number(l)]) == ff(w.n, j))

    def havoc_locals(self, l):
        return {self.number(l): wrap(ff(W().n, self.j))}


class Denominator(Numerator):
    def value(self, j):
        w = W()
        return binom(w.n, w.k) * rest(j, w.k)

    def check_locals(self, when, l):
        w = W()
        j = self.j + 1 if when == "preserved" else z3.IntVal(0)
        # lemma: ff(n, k) = fact(k) binom(n, k); rest(0, k) = fact(k)
        P().axiom(ff(w.n, w.k) == fact(w.k) * binom(w.n, w.k))
        P().axiom(rest(z3.IntVal(0), w.k) == fact(w.k))
        P().axiom(ff(w.n, 0) == 1)
        if when == "preserved":
            remaining(self.j, w.k)
            q, A = num_term(l[self.number(l)]), self.value(self.j + 1)
            # lemma: (j A) div j = A for j > 0
            P().axiom(z3.Implies(w.before == (self.j + 1) * A, w.before / (self.j + 1) == A))
        rt.oblige("all factors up to here divided out", num_term(l[self.number(l)]) == self.value(j))

    def havoc_locals(self, l):
        w = W()
        remaining(self.j, w.k)
        w.before = self.value(self.j)
        return {self.number(l): wrap(w.before)}


def comb_loops(loop, locals_):
    w = W()
    w.loops += 1
    return Numerator() if w.loops == 1 else Denominator()


@unit("lemma: exact division", [])
def lemma_div(v):
    a, j = v.fresh_int("a").t, v.fresh_int("j", 1).t
    v.oblige("(j a) div j = a", (j * a) / j == a)


@unit("comb", ["mdp.utils.routines:comb"])
def comb(v):
    w = P().globals["w"] = Wld()
    n, k = v.fresh_int("n", 0), v.fresh_int("k", 0)
    w.n, w.k, w.loops = n.t, k.t, 0
    rt.hoare = [comb_loops]
    r = routines.comb(n, k)
    remaining(k.t, k.t), pascal(n.t, k.t), falling(n.t, k.t), factorial(k.t)
    v.oblige("the binomial coefficient", num_term(r) == binom(n.t, k.t))


@unit("nmonomials, expanded_dim", [MOD + "nmonomials", MOD + "expanded_dim", MOD + "PolynomialExpansionNode.expanded_dim"])
def dims(v):
    d, n = v.fresh_int("degree", 0), v.fresh_int("variables", 1)

    def comb(a, b):
        """contract of comb"""
        rt.oblige("within the contract of comb", z3.And(num_term(a) >= 0, num_term(b) >= 0))
        return wrap(binom(num_term(a), num_term(b)))
    with Patched(mdp.utils, comb=comb):
        v.oblige("number of monomials", num_term(E.nmonomials(d, n)) == binom(n.t + d.t - 1, d.t))
        v.oblige("dimension of the expansion", num_term(E.expanded_dim(d, n)) == binom(n.t + d.t, d.t) - 1)
        o = E.PolynomialExpansionNode.__new__(E.PolynomialExpansionNode)
        o._degree = d
        v.oblige("of the node", num_term(o.expanded_dim(n)) == binom(n.t + d.t, d.t) - 1)


# cnt(i, j): number of monomials of degree i in the variables j .. dim-1; S(i): number of monomials of degree 1 .. i-1
class Poly(object):
    """counts and columns for a number of variables"""
    def __init__(self, n, X):
        self.n, self.X = n, X
        self.c = z3.Function(P().fresh_name("cnt"), I_, I_, I_)
        self.G = z3.Function(P().fresh_name("mono"), I_, I_, R_)    # column, row

    def cnt(self, i, j):
        c = self.c
        i, j = z3.simplify(num_term(wrap(i))), z3.simplify(num_term(wrap(j)))
        P().axiom(z3.Implies(i == 0, c(i, j) == 1))
        P().axiom(z3.Implies(z3.And(i >= 1, j == self.n), c(i, j) == 0))
        P().axiom(z3.Implies(z3.And(i >= 1, j >= 0, j < self.n), c(i, j) == c(i, j + 1) + c(i - 1, j)))
        # lemma: monotone in j, hence within 0 .. cnt(i, 0)
        P().axiom(z3.Implies(z3.And(i >= 0, j >= 0, j <= self.n), z3.And(c(i, j) >= 0, c(i, j) <= c(i, 0))))
        P().axiom(z3.Implies(z3.And(i >= 0, j >= 0, j < self.n), z3.And(c(i, j + 1) <= c(i, j), c(i, j + 1) >= 0)))
        return c(i, j)

    def S(self, i):
        """columns before degree i"""
        b = lambda q: binom(self.n + q - 1, q - 1) - 1
        # lemma: S(1) = 0, S(2) = n, S(i+1) = S(i) + cnt(i, 0), monotone
        P().axiom(z3.Implies(i == 1, b(i) == 0))
        P().axiom(z3.Implies(i >= 1, b(i + 1) == b(i) + self.cnt(i, 0)))
        P().axiom(z3.Implies(i >= 2, b(i) == b(i - 1) + self.cnt(i - 1, 0)))
        P().axiom(z3.Implies(i >= 1, b(i) >= 0))
        return b(i)

    def below(self, i, d):
        """instance of the lemma: S is monotone"""
        P().axiom(z3.Implies(z3.And(i >= 1, i <= d), self.S(i) <= self.S(d)))

    def column(self, i, j, t, r):
        """definition of the columns: degree i, part of variable j, place t"""
        G, S, cnt = self.G, self.S, self.cnt
        P().axiom(z3.Implies(z3.And(i >= 2, j >= 0, j < self.n, t >= 0, t < cnt(i - 1, j)),
                             G(S(i) + cnt(i, 0) - cnt(i, j) + t, r) ==
                             self.X(r, j) * G(S(i - 1) + cnt(i - 1, 0) - cnt(i - 1, j) + t, r)))

    def first(self, c, r):
        P().axiom(z3.Implies(z3.And(c >= 0, c < self.n), self.G(c, r) == self.X(r, c)))


@unit("lemma: counts of monomials", [])
def lemma_counts(v):
    """cnt(i, j) = binom(n-j+i-1, i) for i >= 1, by induction on i and downwards on j; monotone and not negative;
    S(i+1) = S(i) + cnt(i, 0); S is monotone"""
    n = v.fresh_int("n", 1).t
    c = z3.Function(P().fresh_name("cnt"), I_, I_, I_)
    i, j = v.fresh_int("i", 1).t, v.fresh_int("j", 0).t
    case = v.choose(["zeros base", "zeros step", "base", "step", "monotone", "first", "sum", "chain"])
    A = P().axiom

    def define(i, j):
        A(z3.Implies(i == 0, c(i, j) == 1))
        A(z3.Implies(z3.And(i >= 1, j == n), c(i, j) == 0))
        A(z3.Implies(z3.And(i >= 1, j >= 0, j < n), c(i, j) == c(i, j + 1) + c(i - 1, j)))
    define(i, j), define(i, j + 1), define(i - 1, j), define(i, n)
    if case == "zeros base":
        # binom(a, b) = 0 for b > a >= 0
        b = v.fresh_int("b", 1).t
        pascal(z3.IntVal(0), b)
        v.oblige("binom(0, b)", binom(0, b) == 0)
    elif case == "zeros step":
        a, b = v.fresh_int("a", 1).t, v.fresh_int("b", 1).t
        v.assume(b > a)
        pascal(a, b)
        v.assume(binom(a - 1, b) == 0)
        v.assume(binom(a - 1, b - 1) == 0)
        v.oblige("binom(a, b)", binom(a, b) == 0)
    elif case == "base":
        A(binom(i - 1, i) == 0)
        v.oblige("no variables are left", c(i, n) == binom(n - n + i - 1, i))
    elif case == "step":
        v.assume(j < n)
        v.assume(c(i, j + 1) == binom(n - (j + 1) + i - 1, i))
        v.assume(c(i - 1, j) == binom(n - j + (i - 1) - 1, i - 1))
        pascal(n - j + i - 1, i)
        v.oblige("one variable more", c(i, j) == binom(n - j + i - 1, i))
        if v.case("degree one"):
            pascal(n - j - 1, z3.IntVal(1))
            v.oblige("nothing left to choose", z3.Implies(i == 1, z3.And(c(0, j) == 1, binom(n - j - 1, 0) == 1)))
    elif case == "monotone":
        v.assume(z3.And(j < n, c(i - 1, j) >= 0, c(i, j + 1) >= 0))
        v.oblige("not negative, not increasing", z3.And(c(i, j) >= 0, c(i, j + 1) <= c(i, j)))
        define(z3.IntVal(0), j), define(z3.IntVal(0), j + 1)
        v.oblige("degree zero", z3.And(c(0, j) == 1, c(0, j + 1) <= c(0, j)))
        v.assume(c(i, j) <= c(i, 0))
        v.oblige("at most all", c(i, j + 1) <= c(i, 0))
    elif case == "first":
        pascal(n, z3.IntVal(0))
        v.oblige("nothing before degree one", binom(n + 1 - 1, 0) - 1 == 0)
    elif case == "sum":
        A(c(i, 0) == binom(n - 0 + i - 1, i))
        pascal(n + i, i)
        v.oblige("the next degree", binom(n + (i + 1) - 1, i) - 1 == binom(n + i - 1, i - 1) - 1 + c(i, 0))
    else:
        S = z3.Function(P().fresh_name("S"), I_, I_)
        d = v.fresh_int("d", 1).t
        v.assume(z3.And(i <= d, S(i) <= S(d), S(d + 1) == S(d) + c(d, 0), c(d, 0) >= 0))
        v.oblige("monotone", S(i) <= S(d + 1))


class Degrees(object):
    """outer loop: the columns of the degrees so far"""
    def __init__(self):
        self.w = W()
        self.objects = [self.w.dexp]
        self.i = z3.IntVal(2)

    def arr(self, l):
        for n in ("k", "prec_end", "next_lens"):
            if n not in l:
                raise Unsupported("locals of the loop over the degrees")

    def check(self, when, k):
        pass

    def havoc(self, k):
        self.w.i = self.i = k + 2
        q = self.w.q
        # (instances for this degree)
        q.cnt(self.i, z3.IntVal(0)), q.cnt(self.i - 1, z3.IntVal(0))
        q.S(self.i), q.S(self.i - 1)
        q.below(self.i, self.w.d + 1)
        P().axiom(z3.Implies(self.i <= self.w.d, q.S(self.i + 1) <= q.S(self.w.d + 1)))

    def check_locals(self, when, l):
        w, q = self.w, self.w.q
        self.arr(l)
        i = self.i + 1 if when == "preserved" else z3.IntVal(2)
        q.cnt(z3.IntVal(1), z3.IntVal(0))
        c = q.S(i)
        rt.oblige("columns filled", num_term(l["k"]) == c)
        rt.oblige("columns of the degrees before", num_term(l["prec_end"]) == q.S(i - 1))
        w.columns(c)
        w.lens(l["next_lens"], w.n, i - 2, "loop")

    def havoc_locals(self, l):
        w, q = self.w, self.w.q
        w.put(q.S(self.i))
        i = self.i
        a = SArr((wrap(w.n + 1),), lambda m: z3.If(m == 0, z3.IntVal(0), q.cnt(i - 2, m - 1)), I_)
        w.cums = (a, i - 2)
        return dict(k=wrap(q.S(i)), prec_end=wrap(q.S(i - 1)), next_lens=a)


class Variables(Degrees):
    """inner loop: the parts of degree i by their first variable"""
    def __init__(self):
        self.w = W()
        if not hasattr(self.w, "nl"):
            raise Unsupported("lengths of the parts")
        self.objects = [self.w.dexp, self.w.nl]
        self.j = z3.IntVal(0)

    def havoc(self, k):
        self.w.j = self.j = k
        q, i = self.w.q, self.w.i
        q.cnt(i, k), q.cnt(i - 1, k), q.cnt(i, k + 1), q.cnt(i - 1, k + 1), q.cnt(i - 2, k), q.cnt(i - 2, k + 1)

    def place(self, j):
        w, q = self.w, self.w.q
        return q.S(w.i) + q.cnt(w.i, z3.IntVal(0)) - q.cnt(w.i, j)

    def check_locals(self, when, l):
        w, q = self.w, self.w.q
        j = self.j + 1 if when == "preserved" else z3.IntVal(0)
        if "k" not in l:
            raise Unsupported("locals of the loop over the variables")
        q.cnt(w.i, j - 1)
        c = self.place(j)
        rt.oblige("columns filled", num_term(l["k"]) == c)
        w.columns(c)
        w.lens(w.nl, j, w.i - 1, "part")

    def havoc_locals(self, l):
        w, q, j = self.w, self.w.q, self.j
        w.put(self.place(j))
        a = w.nl
        f = ints("next_len")
        i = w.i
        a.put_all(lambda m: z3.If(m == 0, z3.IntVal(0), z3.If(z3.And(m >= 1, m <= j), q.cnt(i - 1, m - 1), f(m))))
        return dict(k=wrap(self.place(j)))


class PolyWorld(object):
    def columns(self, c):
        """the columns before c have their values"""
        e, r = P().fresh("e", I_), P().fresh("r", I_)
        self.q.first(e, r)
        if hasattr(self, "j"):
            # a column of the part just written
            q, i, j = self.q, self.i, self.j
            t = e - (q.S(i) + q.cnt(i, z3.IntVal(0)) - q.cnt(i, j))
            q.column(i, j, t, r)
            P().axiom(q.S(i) + q.cnt(i, z3.IntVal(0)) - q.cnt(i, j) + t == e)
        rt.oblige("values of the columns", z3.Implies(z3.And(e >= 0, e < c, r >= 0, r < self.m), self.dexp.at(e, r) == self.q.G(e, r)))

    def lens(self, a, upto, i, what):
        if not isinstance(a, SArr) or a.ndim != 1:
            raise Unsupported("lengths of the parts")
        m = P().fresh("m", I_)
        rt.oblige("number of lengths (%s)" % what, dim_eq(a.shape[0], self.n + 1))
        rt.oblige("no part before the first (%s)" % what, num_term(wrap(a.at(z3.IntVal(0)))) == 0)
        rt.oblige("lengths of the parts (%s)" % what, z3.Implies(z3.And(m >= 0, m < upto), a.at(m + 1) == self.q.cnt(i, m)))

    def put(self, c):
        f = z3.Function(P().fresh_name("dexp"), I_, I_, R_)
        g = self.q.G
        self.dexp.put_all(lambda e, r: z3.If(z3.And(e >= 0, e < c), g(e, r), f(e, r)))


def poly_loops(loop, locals_):
    w = W()
    w.loops += 1
    if w.loops == 1:
        return Degrees()
    return Variables()


@unit("PolynomialExpansionNode._execute", [MOD + "PolynomialExpansionNode._execute"], max_time=400)
def polynomial(v):
    w = P().globals["w"] = PolyWorld()
    o = E.PolynomialExpansionNode.__new__(E.PolynomialExpansionNode)
    track(o)
    n, d, m = v.fresh_int("n", 1), v.fresh_int("degree", 1), v.fresh_int("m", 0)
    x, X = new_array("x", (m, n))
    q = w.q = Poly(n.t, X)
    w.n, w.m, w.d, w.loops = n.t, m.t, d.t, 0
    q.S(z3.IntVal(1)), q.S(z3.IntVal(2)), q.S(d.t + 1), q.cnt(z3.IntVal(1), z3.IntVal(0))
    P().axiom(q.cnt(z3.IntVal(1), z3.IntVal(0)) == n.t)     # lemma: binom(n, 1) = n
    o._degree, o._input_dim, o._dtype = d, n, None
    o._output_dim = wrap(q.S(d.t + 1))
    q.below(z3.IntVal(2), d.t + 1)
    made = []
    zeros = rt.handlers[np.zeros]

    def watch(shape, *a, **k):
        r = zeros(shape, *a, **k)
        if isinstance(r, SArr) and r.ndim == 2:
            w.dexp = r
            made.append(r)
        elif isinstance(r, SArr):
            w.nl = r
        return r

    def nmonomials(degree, variables):
        """contract (proved above and in the counting lemma)"""
        rt.oblige_eq("variables", variables, n)
        rt.oblige("a degree", num_term(degree) >= 1)
        return wrap(q.cnt(num_term(degree), z3.IntVal(0)))

    def cumsum(a):
        if not hasattr(w, "cums"):
            raise Unsupported("prefix sums")
        i = w.cums[1]
        return lambda j: q.cnt(i + 1, z3.IntVal(0)) - q.cnt(i + 1, j)
    P().globals["cumsum"] = cumsum
    keep = x.snap()
    rt.hoare = [poly_loops]
    rt.handlers[np.zeros] = watch
    try:
        with Patched(E, nmonomials=nmonomials):
            y = o._execute(x)
    finally:
        rt.handlers[np.zeros] = zeros
    v.oblige("one array of columns", len(made) == 1)
    if hasattr(w, "j"):
        del w.j
    oblige_arr(v, "input unchanged", x, keep, (m, n))
    oblige_arr(v, "the columns are those of the degrees 1 .. degree", y, lambda r, c: q.G(c, r), (m, o._output_dim))


Seq = z3.Datatype("Seq")
Seq.declare("one", ("head1", I_))
Seq.declare("cons", ("head", I_), ("tail", Seq))
Seq = Seq.create()
hd = lambda s: z3.If(Seq.is_one(s), Seq.head1(s), Seq.head(s))


@unit("lemma: the columns of a degree are its monomials, each once", [])
def lemma_monomials(v):
    """a monomial of degree i is a non-decreasing sequence of i variables; column p of degree i is the sequence seq(i, p),
    where seq(1, p) = p and column place t of part j is the variable j followed by the column of degree i-1 at place t
    counted from its first column without the variables before j. Induction on i; monomials(i, s) says that s is one"""
    n = v.fresh_int("n", 1).t
    i = v.fresh_int("i", 2).t
    c = z3.Function(P().fresh_name("cnt"), I_, I_, I_)
    seq = z3.Function(P().fresh_name("seq"), I_, I_, Seq)
    mono = z3.Function(P().fresh_name("monomials"), I_, Seq, z3.BoolSort())
    idx = z3.Function(P().fresh_name("place"), Seq, I_)
    A = P().axiom
    s, j = z3.Const(P().fresh_name("s"), Seq), v.fresh_int("j", 0).t
    p, p2, t, t2, j2 = [v.fresh_int(a).t for a in ("p", "p2", "t", "t2", "j2")]

    def count(i, j):
        A(z3.Implies(z3.And(j >= 0, j < n), c(i, j) == c(i, j + 1) + c(i - 1, j)))
        A(c(i, n) == 0)

    def mono_def(i, s):
        A(z3.Implies(i == 1, mono(i, s) == z3.And(Seq.is_one(s), hd(s) >= 0, hd(s) < n)))
        A(z3.Implies(i >= 2, mono(i, s) == z3.And(Seq.is_cons(s), hd(s) >= 0, hd(s) < n, Seq.head(s) <= hd(Seq.tail(s)), mono(i - 1, Seq.tail(s)))))

    def part(p, j, t):
        """p is place t of part j of degree i"""
        count(i, j)
        return z3.And(j >= 0, j < n, t >= 0, t < c(i - 1, j), p == c(i, 0) - c(i, j) + t)

    def column(j, t):
        A(z3.Implies(z3.And(j >= 0, j < n, t >= 0, t < c(i - 1, j)),
                     seq(i, c(i, 0) - c(i, j) + t) == Seq.cons(j, seq(i - 1, c(i - 1, 0) - c(i - 1, j) + t))))

    def ordered(i, j, k):
        """counts do not increase (counting lemma, chained)"""
        A(z3.Implies(z3.And(j >= 0, j <= k, k <= n), c(i, k) <= c(i, j)))
        A(z3.Implies(z3.And(k >= 0, k <= n), c(i, k) >= 0))

    def ih(q, k):
        """the claim for degree i-1 at place q, variable k"""
        inside = z3.And(q >= 0, q < c(i - 1, 0))
        A(z3.Implies(inside, mono(i - 1, seq(i - 1, q))))
        A(z3.Implies(z3.And(inside, k >= 0, k <= n), (hd(seq(i - 1, q)) >= k) == (q >= c(i - 1, 0) - c(i - 1, k))))
        A(z3.Implies(inside, idx(seq(i - 1, q)) == q))      # injective, with its left inverse
    case = v.choose(["base", "parts", "monomials", "first variable", "once", "all"])
    if case == "base":
        # degree 1: c(1, j) = n - j, seq(1, p) = p
        A(c(1, j) == n - j), A(c(1, 0) == n), A(seq(1, p) == Seq.one(p)), A(seq(1, p2) == Seq.one(p2))
        mono_def(z3.IntVal(1), seq(1, p)), mono_def(z3.IntVal(1), s), A(seq(1, hd(s)) == Seq.one(hd(s)))
        inside = z3.And(p >= 0, p < c(1, 0))
        v.oblige("monomials", z3.Implies(inside, mono(1, seq(1, p))))
        v.oblige("first variable", z3.Implies(z3.And(inside, j <= n), (hd(seq(1, p)) >= j) == (p >= c(1, 0) - c(1, j))))
        v.oblige("once", z3.Implies(seq(1, p) == seq(1, p2), p == p2))
        v.oblige("all", z3.Implies(mono(1, s), z3.And(hd(s) >= 0, hd(s) < c(1, 0), seq(1, hd(s)) == s)))
        return
    if case == "parts":
        # every place before part j+1 lies in a part up to j, by induction on j
        count(i, j)
        v.assume(j < n)
        v.oblige("the next part", z3.Implies(z3.And(p >= c(i, 0) - c(i, j), p < c(i, 0) - c(i, j + 1)), part(p, j, p - (c(i, 0) - c(i, j)))))
        v.oblige("nothing before the first", c(i, 0) - c(i, z3.IntVal(0)) == 0)
        v.oblige("all places", c(i, 0) - c(i, n) == c(i, 0))
        return
    ordered(i - 1, z3.IntVal(0), j)
    ordered(i, z3.IntVal(0), j), ordered(i, z3.IntVal(0), j + 1)
    column(j, t), count(i, j)
    q = c(i - 1, 0) - c(i - 1, j) + t
    ih(q, j)
    mono_def(i, seq(i, p))
    if case == "monomials":
        v.assume(part(p, j, t))
        v.oblige("a monomial", mono(i, seq(i, p)))
        v.oblige("a column of the degree", z3.And(p >= 0, p < c(i, 0)))
    elif case == "first variable":
        v.assume(part(p, j, t))
        v.assume(z3.And(j2 >= 0, j2 <= n))
        ordered(i, j2, j), ordered(i, j + 1, j2)
        v.oblige("first variable", (hd(seq(i, p)) >= j2) == (p >= c(i, 0) - c(i, j2)))
    elif case == "once":
        q2 = c(i - 1, 0) - c(i - 1, j2) + t2
        ordered(i - 1, z3.IntVal(0), j2), column(j2, t2), ih(q2, j2)
        v.assume(part(p, j, t))
        v.assume(part(p2, j2, t2))
        v.assume(seq(i, p) == seq(i, p2))
        v.oblige("the same column", p == p2)
    else:
        mono_def(i, s)
        v.assume(mono(i, s))
        h, r = Seq.head(s), Seq.tail(s)
        q = idx(r)
        # degree i-1: every monomial has its place
        A(z3.Implies(mono(i - 1, r), z3.And(q >= 0, q < c(i - 1, 0), seq(i - 1, q) == r)))
        ih(q, h)
        t = q - (c(i - 1, 0) - c(i - 1, h))
        column(h, t)
        ordered(i - 1, z3.IntVal(0), h)
        p = c(i, 0) - c(i, h) + t
        v.oblige("its part", part(p, h, t))
        v.oblige("its column", seq(i, p) == s)


class ExpFn(Ind):
    """an expansion function: results whose width depends on the width of its input only"""
    def _vc_isa(self, cls):
        return cls is object

    def __call__(self, x):
        w = W()
        if not isinstance(x, SArr) or x.ndim != 2:
            raise Unsupported("expansion function of %r" % (x,))
        c = width(self.idx, num_term(x.shape[1]))
        P().axiom(c >= 0)
        if x is w.x:
            return SArr((x.shape[0], wrap(c)), lambda r, k: value(self.idx, r, k), R_)
        rt.oblige_eq("tried with one sample", x.shape[0], 1)
        rt.oblige("a sample of zeros", num_term(wrap(x.at(z3.IntVal(0), P().fresh("e", I_)))) == 0)
        f = z3.Function(P().fresh_name("fx"), I_, I_, R_)
        return SArr((1, wrap(c)), lambda r, k: f(r, k), R_)


width = z3.Function("fn_width", I_, I_, I_)
value = z3.Function("fn_value", I_, I_, I_, R_)
f_off = z3.Function("fn_offset", I_, I_)       # columns before function i


class Sizes(object):
    def __init__(self):
        self.w = W()
        self.objects = [self.w.sizes]
        self.k = z3.IntVal(0)

    def check(self, when, k):
        w = self.w
        j = P().fresh("j", I_)
        rt.oblige("sizes of the functions so far", z3.Implies(z3.And(j >= 0, j < k), num_term(wrap(w.sizes.at(j))) == width(j, w.n)))

    def havoc(self, k):
        f = ints("size")
        w = self.w
        w.sizes.put_all(lambda j: z3.If(z3.And(j >= 0, j < k), width(j, w.n), f(j)))


@unit("GeneralExpansionNode.output_sizes", [MOD + "GeneralExpansionNode.output_sizes", MOD + "GeneralExpansionNode.expanded_dim"])
def sizes(v):
    w = P().globals["w"] = PolyWorld()
    n, K = v.fresh_int("n", 1), v.fresh_int("functions", 0)
    w.n, w.x = n.t, None
    o = E.GeneralExpansionNode.__new__(E.GeneralExpansionNode)
    track(o)
    o.funcs = VList.of([span(K.t, lambda i: ExpFn(i))])
    zeros = rt.handlers[np.zeros]

    def watch(shape, *a, **k):
        r = zeros(shape, *a, **k)
        if isinstance(r, SArr) and r.ndim == 1:
            w.sizes = r
        return r
    rt.handlers[np.zeros] = watch
    rt.hoare = [lambda loop, l: Sizes() if hasattr(w, "sizes") else None]
    try:
        r = o.output_sizes(n)
    finally:
        rt.handlers[np.zeros] = zeros
    oblige_arr(v, "the width of every function's result", r, lambda j: width(j, n.t), (K,))
    # the expanded dimension is their sum
    a = SArr((K,), lambda j: width(j, n.t), I_)
    o.output_sizes = lambda m: a if m is n else None
    t = ssum(lambda j: width(j, n.t), z3.IntVal(0), K.t)
    P().axiom(z3.And(z3.ToReal(z3.ToInt(t)) == t, t >= 0))     # a sum of integers >= 0
    d = o.expanded_dim(n)
    v.oblige("sum of the widths", num_term(wrap(real(d))) == ssum(lambda j: width(j, n.t), z3.IntVal(0), K.t))


class Blocks(object):
    """the columns of the functions so far"""
    def __init__(self):
        self.w = W()
        self.objects = [self.w.out]
        self.k = z3.IntVal(0)
        self.name = None

    def check(self, when, k):
        w = self.w
        i, c, r = P().fresh("i", I_), P().fresh("c", I_), P().fresh("r", I_)
        k = num_term(wrap(k))
        w.offsets(i, k)
        rt.oblige("columns of the functions so far",
                  z3.Implies(z3.And(i >= 0, i < k, c >= 0, c < width(i, w.n), r >= 0, r < w.m),
                             w.out.at(r, f_off(i) + c) == value(i, r, c)))

    def havoc(self, k):
        w = self.w
        self.k = k
        f = z3.Function(P().fresh_name("out"), I_, I_, R_)
        w.offsets(k, w.K), w.offsets(k + 1, w.K)
        w.k = k
        # contents: for every function before k its values (a ghost function of the column)
        g = z3.Function(P().fresh_name("out_values"), I_, I_, R_)
        w.g = g
        w.out.put_all(lambda r, c: z3.If(c < f_off(k), g(r, c), f(r, c)))
        i, c, r = z3.Int("qi"), z3.Int("qc"), z3.Int("qr")
        P().assume(z3.ForAll([i, c, r], z3.Implies(z3.And(i >= 0, i < k, c >= 0, c < width(i, w.n), r >= 0, r < w.m),
                                                  z3.And(f_off(i) + c < f_off(k), g(r, f_off(i) + c) == value(i, r, c))),
                             patterns=[value(i, r, c)]), quantified=True)

    def check_locals(self, when, l):
        if self.name is None:
            if len(l) != 1:
                raise Unsupported("locals of the loop over the functions")
            self.name = list(l)[0]
        k = self.k + 1 if when == "preserved" else z3.IntVal(0)
        self.w.offsets(self.k, self.w.K)
        rt.oblige("columns so far", num_term(l[self.name]) == f_off(k))

    def havoc_locals(self, l):
        return {self.name: wrap(f_off(self.k))}


@unit("GeneralExpansionNode._execute", [MOD + "GeneralExpansionNode._execute"])
def general(v):
    w = P().globals["w"] = PolyWorld()
    n, K, m = v.fresh_int("n", 1), v.fresh_int("functions", 0), v.fresh_int("m", 0)
    x, X = new_array("x", (m, n))
    w.n, w.x, w.K, w.m = n.t, x, K.t, m.t
    o = E.GeneralExpansionNode.__new__(E.GeneralExpansionNode)
    track(o)
    o.funcs = VList.of([span(K.t, lambda i: ExpFn(i))])
    late = v.case("dimensions not set")
    o._input_dim, o._dtype = None if late else n, None
    o._output_dim = None if late else wrap(f_off(K.t))

    def set_input_dim(self, d):
        """contract (C02, and _ExpansionNode below)"""
        rt.oblige_eq("the width of the data", d, n)
        self._input_dim, self._output_dim = d, wrap(f_off(K.t))

    def offsets(i, k):
        """offsets: sums of the widths; monotone (induction)"""
        P().axiom(f_off(0) == 0)
        P().axiom(z3.Implies(i >= 0, z3.And(width(i, n.t) >= 0, f_off(i) >= 0, f_off(i + 1) == f_off(i) + width(i, n.t))))
        P().axiom(z3.Implies(z3.And(i >= 0, i < k), f_off(i + 1) <= f_off(k)))
        P().axiom(z3.Implies(z3.And(i >= 0, i <= k), f_off(i) <= f_off(k)))
    w.offsets = offsets
    offsets(K.t, K.t)
    zeros = rt.handlers[np.zeros]

    def watch(shape, *a, **k):
        w.out = zeros(shape, *a, **k)
        return w.out

    def output_sizes(self, d):
        """contract (proved above)"""
        rt.oblige_eq("sizes for the input dimension", d, n)
        return SArr((K,), lambda j: width(j, n.t), I_)
    keep = x.snap()
    rt.handlers[np.zeros] = watch
    rt.hoare = [lambda loop, l: Blocks() if hasattr(w, "out") else None]
    try:
        with Patched(E.GeneralExpansionNode, set_input_dim=set_input_dim, output_sizes=output_sizes):
            y = o._execute(x)
    finally:
        rt.handlers[np.zeros] = zeros
    oblige_arr(v, "input unchanged", x, keep, (m, n))
    v.oblige("one array", y is w.out)
    v.oblige("rows and columns", z3.And(dim_eq(y.shape[0], m), dim_eq(y.shape[1], f_off(K.t))))
    i, c, r = v.fresh_int("i", 0).t, v.fresh_int("c", 0).t, v.fresh_int("r", 0).t
    v.assume(z3.And(i < K.t, c < width(i, n.t), r < m.t))
    offsets(i, K.t)
    v.oblige("column c of function i", y.at(r, f_off(i) + c) == value(i, r, c))


@unit("_ExpansionNode dimensions", [MOD + "_ExpansionNode._set_input_dim", MOD + "_ExpansionNode._set_output_dim", MOD + "_ExpansionNode.__init__",
                                    MOD + "PolynomialExpansionNode.__init__", MOD + "QuadraticExpansionNode.__init__",
                                    "mdp.signal_node:Node.set_input_dim", "mdp.signal_node:Node.set_output_dim"])
def expansion_dims(v):
    n, d = v.fresh_int("n", 1), v.fresh_int("degree", 1)
    with Patched(E, expanded_dim=lambda a, b: wrap(binom(num_term(b) + num_term(a), num_term(a)) - 1)):
        quad = v.case("quadratic")
        early = v.case("input dimension given")
        o = E.QuadraticExpansionNode(**({"input_dim": n} if early else {})) if quad else E.PolynomialExpansionNode(d, **({"input_dim": n} if early else {}))
        deg = z3.IntVal(2) if quad else d.t
        if not early:
            v.oblige("no dimensions yet", o.input_dim is None and o.output_dim is None)
            o.set_input_dim(n)
        v.oblige_eq("input dimension", o.input_dim, n)
        v.oblige("announced dimension", num_term(o.output_dim) == binom(n.t + deg, deg) - 1)
        v.oblige_eq("degree", o._degree, 2 if quad else d)
        e = v.fresh_int("e", 1)
        k, r = outcome(o.set_output_dim, e)
        same = e.t == num_term(o.output_dim)
        v.oblige("the output dimension is not set explicitly", z3.Or(same, z3.BoolVal(k == "exc" and isinstance(r, mdp.NodeException))))


exp_ = z3.Function("exp", R_, R_)


@rt.handler(np.exp)
def _exp(x, *a, **k):
    if isinstance(x, SArr):
        f = x.snap()
        return SArr(x.shape, lambda *i: exp_(canon(real(wrap(f(*i))))), R_)
    return NotImplemented


class Gauss(object):
    """the columns of the centers so far"""
    def __init__(self):
        self.w = W()
        self.objects = [self.w.y]
        self.k = None

    def check(self, when, k):
        w = self.w
        r, c = P().fresh("r", I_), P().fresh("c", I_)
        w.eq("columns of the centers so far", z3.And(r >= 0, r < w.m, c >= 0, c < num_term(wrap(k))), w.y.at(r, c), r, c, k)

    def havoc(self, k):
        w = self.w
        w.k = k
        f = z3.Function(P().fresh_name("y"), I_, I_, R_)
        w.y.put_all(lambda r, c: z3.If(c < k, w.gauss(r, c), f(r, c)))


@unit("RBFExpansionNode._execute", [MOD + "RBFExpansionNode._execute"])
def rbf(v):
    w = P().globals["w"] = PolyWorld()
    n, K, m = v.fresh_int("n", 1), v.fresh_int("centers", 1), v.fresh_int("m", 0)
    x, X = new_array("x", (m, n))
    ce, C = new_array("c", (K, n))
    iso = v.case("isotropic")
    si, S = new_array("s", (K,) if iso else (K, n, n))
    w.m = m.t
    o = E.RBFExpansionNode.__new__(E.RBFExpansionNode)
    track(o)
    o._centers, o._sizes, o._isotropic, o._output_dim, o._input_dim, o._dtype = ce, si, iso, K, n, None

    def gauss(r, c):
        d = lambda q: X(r, q) - C(c, q)
        if iso:
            return exp_(canon(div(ssum(lambda q: d(q) * d(q), z3.IntVal(0), n.t), S(c)) * z3.RealVal("-1/2")))
        return exp_(canon(ssum(lambda q: d(q) * ssum(lambda p: d(p) * S(c, p, q), z3.IntVal(0), n.t), z3.IntVal(0), n.t) * z3.RealVal("-1/2")))
    w.gauss = gauss

    def eq(name, cond, got, r, c, k):
        if k is not None and hasattr(w, "k"):
            # the column just written
            rt.oblige(name, z3.Implies(z3.And(cond, c != w.k), got == gauss(r, c)))
            c2 = z3.substitute(got, (c, w.k))
            rt.oblige(name + " (the last)", z3.Implies(z3.substitute(cond, (c, w.k)), z3.simplify(c2) == gauss(r, w.k)))
        else:
            rt.oblige(name, z3.Implies(cond, got == gauss(r, c)))
    w.eq = eq
    zeros = rt.handlers[np.zeros]

    def watch(shape, *a, **k):
        w.y = zeros(shape, *a, **k)
        return w.y
    keep = x.snap()
    rt.handlers[np.zeros] = watch
    rt.hoare = [lambda loop, l: Gauss() if hasattr(w, "y") else None]
    try:
        y = o._execute(x)
    finally:
        rt.handlers[np.zeros] = zeros
    oblige_arr(v, "input unchanged", x, keep, (m, n))
    v.oblige("rows and columns", z3.And(dim_eq(y.shape[0], m), dim_eq(y.shape[1], K)))
    if hasattr(w, "k"):
        del w.k
    r, c = v.fresh_int("r", 0).t, v.fresh_int("c", 0).t
    v.assume(z3.And(r < m.t, c < K.t))
    v.oblige("the Gaussian of each center", y.at(r, c) == gauss(r, c))
