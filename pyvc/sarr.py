"""Symbolic numpy arrays: a shape of integer terms and an element function over mathematical numbers.

Views share their base's current contents; arithmetic is elementwise over the reals (or integers); sums become
prefix-sum functions with their defining axioms; polynomials in the elements are kept in a canonical form."""
import fractions
import numpy as np
import z3

from .core import *
from . import core, engine
from .engine import rt, VList, VTuple, VIter, seq_segs, prefix_sum, _is_symbolic_iterable, _simp
from .models import trusted

F = fractions.Fraction
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
f_sqrt = z3.Function("sqrt", R, R)
f_inv = z3.Function("inv", R, R)


def real(t):
    t = num_term(t)
    return z3.ToReal(t) if t.sort() == I else t


# ---------------------------------------------------------------- polynomials
def _padd(a, b, k=F(1)):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            mm, k = _mmul(m, n)
            for x, e in k.items():
                p, q = _mmul(mm, x) if x else (mm, {(): F(1)})
                for y, g in q.items():
                    z = p if not y else _mmul(p, y)[0]
                    r[z] = r.get(z, 0) + c * d * e * g
    return {m: c for m, c in r.items() if c != 0}


ATOMS = {}


def _key(t):
    k = t.sexpr()
    ATOMS[k] = t
    return k


def _mmul(m, n):
    """product of two monomials: (monomial, polynomial factor)"""
    out = list(m)
    fac = {(): F(1)}
    for a in n:
        t = ATOMS[a]
        if a in out and t.decl().name() == "sqrt":
            out.remove(a)
            fac = _pmul(fac, poly(t.arg(0)))
            continue
        # x * inv(x) is kept: its value at 0 is unknown
        out.append(a)
    return tuple(sorted(out)), fac


def poly(t):
    """polynomial {monomial: coefficient} of a real or integer term; atoms are canonicalised terms"""
    t = z3.simplify(t) if not _is_atomic(t) else t
    return _poly(t)


def _is_atomic(t):
    return z3.is_const(t)


def _poly(t):
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_int_value(t):
        return {(): F(t.as_long())} if t.as_long() else {}
    if z3.is_rational_value(t):
        v = F(t.numerator_as_long(), t.denominator_as_long())
        return {(): v} if v else {}
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            r = _padd(r, _poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        r = _poly(ch[0])
        for c in ch[1:]:
            r = _padd(r, _poly(c), F(-1))
        return r
    if k == z3.Z3_OP_UMINUS:
        return _padd({}, _poly(t.arg(0)), F(-1))
    if k == z3.Z3_OP_MUL:
        r = {(): F(1)}
        for c in t.children():
            r = _pmul(r, _poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        return _pmul(_poly(t.arg(0)), pinv(_poly(t.arg(1))))
    if k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and 0 <= t.arg(1).as_long() <= 8:
        r = {(): F(1)}
        b = _poly(t.arg(0))
        for _ in range(t.arg(1).as_long()):
            r = _pmul(r, b)
        return r
    if k == z3.Z3_OP_TO_REAL:
        a = t.arg(0)
        r = {}
        for m, c in _poly(a).items():
            r = _padd(r, {tuple(sorted(_key(z3.ToReal(ATOMS[x])) for x in m)): c})
        return r
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
        # canonical arguments
        t = t.decl()(*[canon(a) if a.sort() in (R, I) else a for a in t.children()])
        if t.decl().name() == "inv":
            return pinv(_poly(t.arg(0)))
    elif k == z3.Z3_OP_SELECT:
        a = t.arg(0)
        t = z3.Select(a, *[canon(x) if x.sort() in (R, I) else x for x in t.children()[1:]])
    elif k == z3.Z3_OP_ITE:
        t = z3.simplify(z3.If(t.arg(0), canon(t.arg(1)), canon(t.arg(2))))
        if not z3.is_app_of(t, z3.Z3_OP_ITE):
            return _poly(t)
    return {(_key(t),): F(1)}


def pinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        r = {(): 1 / c}
        for a in m:
            r = _pmul(r, {(_key(f_inv(ATOMS[a] if ATOMS[a].sort() == R else z3.ToReal(ATOMS[a]))),): F(1)})
        return r
    return {(_key(f_inv(render(p, R))),): F(1)}


def render(p, sort):
    if not p:
        return z3.RealVal(0) if sort == R else z3.IntVal(0)
    ts = []
    for m in sorted(p):
        c = p[m]
        fs = [ATOMS[a] for a in m]
        if sort == R:
            fs = [z3.ToReal(f) if f.sort() == I else f for f in fs]
        else:
            if c.denominator != 1:
                raise Unsupported("fraction in an integer term")
        cv = z3.RealVal(str(c)) if sort == R else z3.IntVal(int(c))
        t = None
        for f in fs:
            t = f if t is None else t * f
        ts.append(cv if t is None else t if c == 1 else cv * t)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def canon(t):
    if t.sort() not in (R, I):
        return t
    return render(poly(t), t.sort())


def div(a, b):
    """a / b of terms as a canonical product with an inverse"""
    return render(_pmul(poly(real(wrap(a))), pinv(poly(real(wrap(b))))), R)


# ---------------------------------------------------------------- sums
def _mentions(t, name):
    acc = {}
    core._consts_of(t, acc, set())
    return name in acc


def _shifts(t, k, acc):
    """the terms d such that k + d occurs as an argument (None: k occurs otherwise)"""
    name = k.decl().name()
    todo = [t]
    while todo:
        x = todo.pop()
        if not _mentions(x, name):
            continue
        if x.sort() == I and not (z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.num_args()) and not z3.is_app_of(x, z3.Z3_OP_SELECT) \
                and not z3.is_app_of(x, z3.Z3_OP_ITE):
            d = canon(z3.simplify(x - k))
            if _mentions(d, name):
                acc.append(None)
                continue
            acc.append(d)
            continue
        todo.extend(x.children())


def _base_shift(atoms, k):
    """the shift d under which the summand is normalised (k + d -> k): independent of how the range is presented"""
    all_ = []
    for a in atoms:
        t = ATOMS[a]
        sh = []
        _shifts(t, k, sh)
        if any(x is None for x in sh):
            return z3.IntVal(0)
        nm = t.arg(0).sexpr() if z3.is_app_of(t, z3.Z3_OP_SELECT) else t.decl().name()
        all_.append((nm, sh))
    if not all_:
        return z3.IntVal(0)
    first = min(n for n, sh in all_)
    c = [x for n, sh in all_ if n == first for x in sh]
    if not c:
        return z3.IntVal(0)
    diffs = [canon(x - c[0]) for x in c]
    if all(z3.is_int_value(x) for x in diffs):
        return c[min(range(len(c)), key=lambda i: diffs[i].as_long())]
    return sorted(c, key=lambda x: (len(x.sexpr()), x.sexpr()))[0]


def ssum(fn, lo, hi):
    """sum over lo <= r < hi of fn(r), as a real term; linear, canonical"""
    k = z3.FreshConst(I, "sum")
    name = k.decl().name()
    p = poly(real(wrap(fn(k))))
    lo, hi = canon(num_term(lo)), canon(num_term(hi))
    total = {}
    if z3.is_int_value(lo) and z3.is_int_value(hi) and 0 <= hi.as_long() - lo.as_long() <= 4:
        for q in range(lo.as_long(), hi.as_long()):
            total = _padd(total, poly(real(wrap(z3.simplify(fn(z3.IntVal(q)))))))
        return render(total, R)
    for m, c in p.items():
        inside = [a for a in m if _mentions(ATOMS[a], name)]
        outside = tuple(a for a in m if a not in inside)
        if not inside:
            s = poly(z3.ToReal(hi - lo))
        else:
            body = render({tuple(sorted(inside)): F(1)}, R)
            d = _base_shift(inside, k)
            body = canon(z3.substitute(body, (k, k - d)))
            S = prefix_sum(body, k)
            s = _padd(poly(S(canon(hi + d))), poly(S(canon(lo + d))), F(-1))
        total = _padd(total, _pmul({outside: c}, s))
    return render(total, R)


def _cterm(k):
    return z3.IntVal(k) if isinstance(k, int) else num_term(k)


def dim_eq(a, b):
    return z3.simplify(_cterm(a) == _cterm(b))


def decide_eq(a, b):
    c = dim_eq(a, b)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return P().branch(c)


class SArr(Sym):
    """fn: idx terms -> element term (owner) or view of `base` through `vmap`"""
    def __init__(self, shape, fn, sort=R, dt=None, base=None, vmap=None, vinv=None):
        o = object.__setattr__
        o(self, "_shape", tuple(wrap(s) if z3.is_expr(s) else s for s in shape))
        o(self, "fn", fn)
        o(self, "zs", sort)
        o(self, "dt", dt)
        o(self, "base", base)
        o(self, "vmap", vmap)
        o(self, "vinv", vinv)
        o(self, "_ro", False)
        o(self, "bound", None)      # all elements are known to lie in [0, bound)
        if base is None and Path.cur is not None:
            P().heap.append(HArr(self))

    # ---- contents
    def at(self, *idx):
        idx = tuple(z3.simplify(_cterm(i)) for i in idx)
        if self.base is not None:
            return self.base.at(*self.vmap(*idx))
        return self.fn(*idx)

    def snap(self):
        """the present contents, as an immutable function"""
        if self.base is not None:
            f, vm = self.base.snap(), self.vmap
            return lambda *i: f(*vm(*i))
        return self.fn

    def _vc_isa(self, cls):
        return cls in (np.ndarray, object)

    def _vc_type(self):
        return np.ndarray

    def _vc_hasattr(self, n):
        return hasattr(np.ndarray, n)

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array given to a numpy function without a contract")

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        """in place; a one-dimensional array can be given rows"""
        s = tuple(s) if isinstance(s, (tuple, list)) else (s,)
        if self.base is not None or self.ndim != 1 or len(s) > 2:
            raise Unsupported("new shape")
        n = 1
        for d in s:
            n = n * d
        if not P().branch(num_term(wrap(n)) == _cterm(self._shape[0])):
            raise ValueError("cannot reshape array")
        o = object.__setattr__
        if len(s) == 2:
            f, C1 = self.fn, _cterm(s[1])
            o(self, "fn", lambda i, j: f(i * C1 + j))
        o(self, "_shape", s)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self.dt

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = r * s
        return r

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    def take(self, idx, axis=None, *a, **k):
        if a or k or (axis is None and self.ndim != 1):
            raise Unsupported("take")
        return self[(slice(None),) * (axis or 0) + (idx,)]

    def min(self, axis=None):
        return rt.handlers[np.min](self, axis)

    def max(self, axis=None):
        return rt.handlers[np.max](self, axis)

    def searchsorted(self, v, *a, **k):
        """the first position whose element is not less than v, in a sorted array (obliged)"""
        if a or k or self.ndim != 1 or not is_num(v):
            raise Unsupported("searchsorted")
        f, n, p, v = self.snap(), _cterm(self._shape[0]), P(), real(wrap(num_term(v)))
        i = p.fresh("next", I)
        rt.oblige("searchsorted: the array is sorted", z3.Implies(z3.And(i >= 0, i + 1 < n), real(wrap(f(i))) <= real(wrap(f(i + 1)))))
        s, q = p.fresh("position", I), z3.FreshConst(I, "q")
        p.assume(z3.And(s >= 0, s <= n))
        p.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < s), real(wrap(f(q))) < v)), quantified=True)
        p.assume(z3.Implies(s < n, real(wrap(f(s))) >= v))
        p.globals.setdefault("searches", []).append((f, n, v, s))
        return wrap(s)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = self.ndim
        axes = tuple(axes) if axes else tuple(range(n))[::-1]
        inv = [axes.index(d) for d in range(n)]
        return self._view([self._shape[a] for a in axes], lambda *i: tuple(i[inv[d]] for d in range(n)),
                          lambda *i: (z3.BoolVal(True), tuple(i[a] for a in axes)))

    def _view(self, shape, vmap, vinv):
        return SArr(shape, None, self.zs, self.dt, base=self, vmap=vmap, vinv=vinv)

    def vc_len(self):
        return self._shape[0]

    def vc_segs(self):
        """iteration over the first axis"""
        def item(j):
            return self[wrap(j)]
        return [span(_cterm(self._shape[0]), item)]

    def reshape(self, *shape):
        """two-dimensional, row-major; the result is read-only here (it may or may not share memory)"""
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if self.ndim == 1 and len(shape) == 2:
            for d in (0, 1):
                if type(shape[d]) is int and shape[d] == 1 and ((type(shape[1 - d]) is int and shape[1 - d] == -1) or decide_eq(shape[1 - d], self._shape[0])):
                    return self[(None, slice(None))] if d == 0 else self[(slice(None), None)]
        if self.ndim != 2 or len(shape) != 2:
            raise Unsupported("reshape")
        R2, C2 = num_term(shape[0]), num_term(shape[1])
        R1, C1 = [_cterm(s) for s in self._shape]
        if not prove_bool(z3.And(R2 >= 0, C2 >= 0)):
            raise Unsupported("reshape with sizes that may be negative")
        if not P().branch(R2 * C2 == R1 * C1):
            raise ValueError("cannot reshape array")
        f = self.snap()
        out = SArr((wrap(R2), wrap(C2)), lambda i, j: f((i * C2 + j) / C1, (i * C2 + j) % C1), self.zs, self.dt)
        object.__setattr__(out, "_ro", True)
        return out

    def copy(self, *a):
        return SArr(self._shape, self.snap(), self.zs, self.dt)

    __copy__ = copy

    def vc_deepcopy(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, *a, **k):
        f = self.snap()
        return SArr(self._shape, f, self.zs, _dt(t))

    def fill(self, v):
        self[...] = v

    def put_all(self, fn):
        """overwrite everything"""
        if self.base is None:
            if self._ro:
                raise Unsupported("writing into a reshaped array")
            object.__setattr__(self, "bound", None)
            object.__setattr__(self, "fn", fn)
        else:
            inv = self.vinv
            old = self.base.snap()

            def new(*i):
                c, j = inv(*i)
                c = z3.simplify(c)
                if z3.is_true(c):
                    return fn(*j)
                if z3.is_false(c):
                    return old(*i)
                return z3.If(c, fn(*j), old(*i))
            self.base.put_all(new)

    # ---- indexing
    def _axes(self, key):
        """-> per base axis: ('int', t) | ('slice', start, step, count) | ('arr', SArr); plus newaxis positions"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            e = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[e:e + 1] = [slice(None)] * (self.ndim - n)
        else:
            key += [slice(None)] * (self.ndim - n)
        if sum(1 for k in key if k is not None) > self.ndim:
            raise IndexError("too many indices for array")
        out = []
        d = 0
        for k in key:
            if k is None:
                out.append(("new",))
                continue
            m = _cterm(self._shape[d])
            d += 1
            if isinstance(k, slice):
                out.append(self._slice(k, m))
            elif isinstance(k, SArr):
                out.append(("arr", self._chosen(k, m) if k.zs == B else k))
            elif isinstance(k, (list, tuple, VTuple)):
                out.append(("arr", as_array(k, I)))
            elif isinstance(k, np.ndarray):
                out.append(("arr", from_numpy(k)))
            elif is_num(k):
                t = num_term(k)
                p = P()
                if p.branch(t < 0):
                    t = t + m
                if p.branch(z3.Or(t < 0, t >= m)):
                    raise IndexError("index out of bounds")
                out.append(("int", z3.simplify(t)))
            else:
                raise Unsupported("array index %r" % (k,))
        return out

    def _chosen(self, mask, m):
        """the positions at which a boolean mask is true, in increasing order"""
        if mask.ndim != 1:
            raise Unsupported("boolean mask of rank %d" % mask.ndim)
        if not decide_eq(mask.shape[0], wrap(m)):
            raise IndexError("boolean index did not match")
        p = P()
        f = mask.snap()
        n = p.fresh("chosen", I)
        if p.globals.get("prefix_masks"):
            # a mask that is true on an initial part only (proved here) selects exactly this part
            i, j = p.fresh("earlier", I), p.fresh("later", I)
            if prove_bool(z3.Implies(z3.And(i >= 0, i < j, j < m, f(j)), f(i))):
                p.assume(z3.And(n >= 0, n <= m))
                q = z3.FreshConst(I, "q")
                p.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q))), quantified=True)
                p.assume(z3.Implies(n < m, z3.Not(f(n))))
                p.globals.setdefault("prefixes", []).append((f, m, n))
                r = SArr((wrap(n),), lambda i: i, I)
                object.__setattr__(r, "bound", wrap(m))
                return r
        pos, rank = [z3.Function(p.fresh_name(q), I, I) for q in ("pos", "rank")]
        p.assume(z3.And(n >= 0, n <= m))
        i, j = z3.Ints("qi qj")
        inside = lambda i: z3.And(i >= 0, i < n)
        p.assume(z3.ForAll([i], z3.Implies(inside(i), z3.And(pos(i) >= 0, pos(i) < m, f(pos(i)), rank(pos(i)) == i)), patterns=[pos(i)]),
                 quantified=True)
        p.assume(z3.ForAll([i, j], z3.Implies(z3.And(inside(i), inside(j), i < j), pos(i) < pos(j)),
                           patterns=[z3.MultiPattern(pos(i), pos(j))]), quantified=True)
        p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m, f(i)), z3.And(inside(rank(i)), pos(rank(i)) == i)), patterns=[rank(i)]),
                 quantified=True)
        p.globals.setdefault("chosen", []).append((f, m, n, pos, rank))
        r = SArr((wrap(n),), lambda i: pos(i), I)
        object.__setattr__(r, "bound", wrap(m))
        return r

    def _slice(self, s, m):
        step = 1 if s.step is None else s.step
        if is_sym(step):
            st = num_term(step)
            if not prove_bool(st > 0):
                raise Unsupported("symbolic stride")
            a, b = engine.slice_bounds(m, slice(s.start, s.stop))
            a, b = _simp(a), _simp(b)
            n = _simp(z3.If(b > a, (b - a + st - 1) / st, z3.IntVal(0)))
            return ("slice", a, st, n)
        if step == 1:
            a, b = engine.slice_bounds(m, slice(s.start, s.stop))
            a, b = _simp(a), _simp(b)
            return ("slice", a, z3.IntVal(1), _simp(z3.If(b > a, b - a, z3.IntVal(0))))
        if step > 0:
            a, b = engine.slice_bounds(m, slice(s.start, s.stop))
            a, b = _simp(a), _simp(b)
            return ("slice", a, z3.IntVal(step), _simp(z3.If(b > a, (b - a + step - 1) / step, z3.IntVal(0))))
        if step == -1 and s.start is None and s.stop is None:
            return ("slice", z3.simplify(m - 1), z3.IntVal(-1), m)
        raise Unsupported("negative stride")

    def __getitem__(self, key):
        ax = self._axes(key)
        arrs = [a for a in ax if a[0] == "arr"]
        if arrs:
            return self._gather(ax, arrs)
        if all(a[0] == "int" for a in ax):
            return wrap(self.at(*[a[1] for a in ax]))
        shape = [1 if a[0] == "new" else wrap(a[3]) for a in ax if a[0] != "int"]
        dims = list(self._shape)

        def vmap(*i):
            i = list(i)
            out = []
            for a in ax:
                if a[0] == "int":
                    out.append(a[1])
                elif a[0] == "new":
                    i.pop(0)
                else:
                    out.append(z3.simplify(a[1] + a[2] * i.pop(0)))
            return tuple(out)

        def vinv(*i):
            c, out = [], []
            i = list(i)
            for a in ax:
                if a[0] == "new":
                    out.append(z3.IntVal(0))
                    continue
                t = i.pop(0)
                if a[0] == "int":
                    c.append(t == a[1])
                elif _whole(a, dims[len(dims) - len(i) - 1]):
                    out.append(t)
                else:
                    cc, j = _in_slice(t, a)
                    c += cc
                    out.append(j)
            return (z3.And(*c) if c else z3.BoolVal(True)), tuple(out)
        return self._view(shape, vmap, vinv)

    def _gather(self, ax, arrs):
        if len(arrs) != 1 or arrs[0][1].ndim != 1 or any(a[0] == "new" for a in ax):
            raise Unsupported("advanced indexing")
        ia = arrs[0][1]
        f, g = self.snap(), ia.snap()
        n = _cterm(ia.shape[0])
        d = [i for i, a in enumerate(ax) if a[0] == "arr"][0]
        m = _cterm(self._shape[d])
        # index range is a precondition
        root = ia
        while root.base is not None:
            root = root.base
        known = root.bound is not None and prove_bool(dim_eq(root.bound, m))
        j = P().fresh("gi", I)
        ok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(g(j) >= -m, g(j) < m)))
        if not known and not prove_bool(ok):
            if not P().branch(P().fresh("indices_ok", B)):
                raise IndexError("index out of bounds")
            P().assume(ok, quantified=True)
        if not known and prove_bool(z3.Implies(z3.And(j >= 0, j < n), g(j) >= 0)):
            known = True
        shape = [wrap(n) if a[0] == "arr" else wrap(a[3]) for a in ax if a[0] != "int"]

        def fn(*i):
            i = list(i)
            out = []
            for a in ax:
                if a[0] == "int":
                    out.append(a[1])
                elif a[0] == "arr":
                    t = g(i.pop(0))
                    out.append(t if known else z3.simplify(z3.If(t < 0, t + m, t)))
                else:
                    out.append(z3.simplify(a[1] + a[2] * i.pop(0)))
            return f(*out)
        return SArr(shape, fn, self.zs, self.dt)

    def __setitem__(self, key, v):
        ax = self._axes(key)
        if any(a[0] == "arr" for a in ax):
            raise Unsupported("assignment through index arrays")
        shape = [1 if a[0] == "new" else wrap(a[3]) for a in ax if a[0] != "int"]
        val = broadcast_to(v, shape, self.zs, strict=True)
        old = self.snap()

        dims = list(self._shape)

        def new(*i):
            c, j = [], []
            i2 = list(i)
            for a in ax:
                if a[0] == "new":
                    j.append(z3.IntVal(0))
                    continue
                t = i2.pop(0)
                if a[0] == "int":
                    c.append(t == a[1])
                elif _whole(a, dims[len(i) - len(i2) - 1]):
                    j.append(t)
                else:
                    cc, jj = _in_slice(t, a)
                    c += cc
                    j.append(jj)
            c = z3.simplify(z3.And(*c)) if c else z3.BoolVal(True)
            if z3.is_true(c):
                return val(*j)
            if z3.is_false(c):
                return old(*i)
            return z3.If(c, val(*j), old(*i))
        self.put_all(new)

    # ---- arithmetic
    def _bin(self, o, f, sort=None, div_=False):
        if isinstance(o, (list, tuple)) and not isinstance(o, VList):
            o = from_numpy(np.array(o))
        if not (is_num(o) or isinstance(o, (SArr, np.ndarray))):
            return NotImplemented
        shape, a, b, s = broadcast(self, o)
        if div_:
            s = R
        return SArr(shape, lambda *i: f(_to(a(*i), s), _to(b(*i), s)), s if sort is None else sort, _join(self, o))

    def _ibin(self, o, f):
        if not (is_num(o) or isinstance(o, (SArr, np.ndarray))):
            return NotImplemented
        val = broadcast_to(o, self._shape, self.zs, strict=True)
        old = self.snap()
        self.put_all(lambda *i: f(old(*i), val(*i)))
        return self

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: div(a, b), R, True)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: div(b, a), R, True)

    def __neg__(self):
        f = self.snap()
        return SArr(self._shape, lambda *i: -f(*i), self.zs, self.dt)

    def __pos__(self):
        return self.copy()

    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == int(o) and 0 <= o <= 8:
            f = self.snap()

            def g(*i):
                v = f(*i)
                r = None
                for _ in range(int(o)):
                    r = v if r is None else r * v
                return r if r is not None else (z3.RealVal(1) if self.zs == R else z3.IntVal(1))
            return SArr(self._shape, g, self.zs, self.dt)
        raise Unsupported("power")

    def __iadd__(self, o):
        return self._ibin(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._ibin(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._ibin(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._ibin(o, lambda a, b: div(a, b))

    def _cmp(self, o, f):
        if o is None:
            return False
        if not (is_num(o) or isinstance(o, (SArr, np.ndarray))):
            return NotImplemented
        shape, a, b, s = broadcast(self, o)
        return SArr(shape, lambda *i: f(_to(a(*i), s), _to(b(*i), s)), B, None)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is False else r

    def __bool__(self):
        if self.size == 1:
            v = wrap(self.at(*[0] * self.ndim))
            return bool(v)
        raise Unsupported("truth value of an array")

    def all(self, axis=None):
        if axis is not None or self.zs != B:
            raise Unsupported("all")
        idx = [P().fresh("al", I) for _ in self._shape]
        rng = z3.And(*[z3.And(i >= 0, i < _cterm(s)) for i, s in zip(idx, self._shape)])
        body = z3.ForAll(idx, z3.Implies(rng, self.at(*idx)))
        if P().branch(P().fresh("all", B)):
            P().assume(body, quantified=True)
            return True
        w = [P().fresh("wit", I) for _ in self._shape]
        P().assume(z3.And(*[z3.And(i >= 0, i < _cterm(s)) for i, s in zip(w, self._shape)]))
        P().assume(z3.Not(self.at(*w)))
        return False

    def any(self, axis=None):
        return not (~self).all(axis)

    def __invert__(self):
        f = self.snap()
        return SArr(self._shape, lambda *i: z3.Not(f(*i)), B, None)

    def __and__(self, o):
        shape, a, b, s = broadcast(self, o)
        return SArr(shape, lambda *i: z3.And(a(*i), b(*i)), B, None)

    def __or__(self, o):
        shape, a, b, s = broadcast(self, o)
        return SArr(shape, lambda *i: z3.Or(a(*i), b(*i)), B, None)

    # ---- reductions
    def diagonal(self, offset=0, axis1=0, axis2=1):
        if self.ndim != 2 or offset != 0 or (axis1, axis2) != (0, 1):
            raise Unsupported("diagonal(%r)" % (offset,))
        return _diag(self)

    def trace(self):
        return self.diagonal().sum()

    def sum(self, axis=None, *a, **k):
        f = self.snap()
        s = self.zs
        if axis is None:
            if self.ndim == 1:
                return wrap(ssum(lambda r: _to(f(r), R), 0, self._shape[0]))
            if self.ndim == 2:
                return wrap(ssum(lambda r: ssum(lambda c: _to(f(r, c), R), 0, self._shape[1]), 0, self._shape[0]))
            raise Unsupported("sum")
        if axis < 0:
            axis += self.ndim
        n = self._shape[axis]
        shape = self._shape[:axis] + self._shape[axis + 1:]

        def fn(*i):
            return ssum(lambda r: _to(f(*(i[:axis] + (r,) + i[axis:])), R), 0, n)
        if not shape:
            return wrap(fn())
        return SArr(shape, fn, R, self.dt)

    def sort(self, axis=-1, *a, **k):
        """in place: every column becomes its non-decreasing rearrangement"""
        if self.ndim != 2 or axis != 0 or a or k:
            raise Unsupported("sort")
        old = self.snap()
        g = z3.Function(P().fresh_name("sorted"), I, I, self.zs)
        perm = z3.Function(P().fresh_name("order"), I, I, I)
        n = _cterm(self._shape[0])
        P().globals.setdefault("sorts", []).append((old, g, perm, n))
        q, r, c = z3.Ints("qi qr qc")
        P().assume(z3.ForAll([q, r, c], z3.Implies(z3.And(0 <= q, q <= r, r < n), g(q, c) <= g(r, c)),
                             patterns=[z3.MultiPattern(g(q, c), g(r, c))]), quantified=True)
        self.put_all(lambda i, j: g(i, j))

    def cumsum(self, axis=None, *a, **k):
        """prefix sums: a new array c with c[0] = a[0], c[j+1] = c[j] + a[j+1]; a contract of the running unit may
        give their value, which is then proved by induction"""
        if self.ndim != 1:
            raise Unsupported("cumsum of more than one dimension")
        f, n = self.snap(), _cterm(self._shape[0])
        spec = P().globals.get("cumsum")
        if spec is None:
            return SArr(self._shape, lambda i: _to(ssum(f, z3.IntVal(0), i + 1), self.zs), self.zs, self.dt)
        g = spec(self)
        j = P().fresh("cumsum", I)
        rt.oblige("prefix sums: base", z3.Implies(n > 0, g(z3.IntVal(0)) == f(z3.IntVal(0))))
        rt.oblige("prefix sums: step", z3.Implies(z3.And(j >= 0, j + 1 < n), g(j + 1) == g(j) + f(j + 1)))
        return SArr(self._shape, g, self.zs, self.dt)

    def mean(self, axis=None, *a, **k):
        n = self.size if axis is None else self._shape[axis]
        return self.sum(axis) / n

    def argsort(self, *a, **k):
        if a or k or self.ndim != 1:
            raise Unsupported("argsort")
        return _argsort(self)

    def _argext(self, le):
        """the first position of an extreme element"""
        if self.ndim != 1:
            raise Unsupported("argmin of rank %d" % self.ndim)
        f, n, p = self.snap(), _cterm(self._shape[0]), P()
        if p.branch(n <= 0):
            raise ValueError("attempt to get argmin of an empty sequence")
        w, j = p.fresh("extreme", I), z3.FreshConst(I, "j")
        p.assume(z3.And(w >= 0, w < n))
        e = f(w)
        p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(le(e, f(j)), z3.Implies(f(j) == e, w <= j)))), quantified=True)
        p.globals.setdefault("extremes", []).append((w, f, n, le))
        return wrap(w)

    def argmin(self, axis=None):
        if axis not in (None, 0):
            raise Unsupported("argmin")
        return self._argext(lambda a, b: a <= b)

    def argmax(self, axis=None):
        if axis not in (None, 0):
            raise Unsupported("argmax")
        return self._argext(lambda a, b: a >= b)

    def dot(self, o):
        return _dot(self, o)

    def ravel(self, *a, **k):
        """row by row (the result is read-only here: it may or may not share memory)"""
        if a or k:
            raise Unsupported("ravel with an order")
        if self.ndim == 1:
            return self
        if self.ndim != 2:
            raise Unsupported("ravel")
        f, C1 = self.snap(), _cterm(self._shape[1])
        out = SArr((wrap(z3.simplify(_cterm(self._shape[0]) * C1)),), lambda i: f(i / C1, i % C1), self.zs, self.dt)
        object.__setattr__(out, "_ro", True)
        return out

    flatten = ravel

    def tolist(self):
        if self.ndim != 1:
            raise Unsupported("tolist")
        f = self.snap()
        return VList.of([span(_cterm(self._shape[0]), lambda i: wrap(f(i)))])

    def __repr__(self):
        try:
            idx = [z3.Int("i%d" % d) for d in range(self.ndim)]
            return "<array %s: %s>" % (self._shape, str(z3.simplify(self.at(*idx)))[:160])
        except BaseException:
            return "<array %s>" % (self._shape,)

    # ---- loop summaries (values are immutable snapshots)
    def vc_eq(self, o):
        if isinstance(o, np.ndarray):
            o = from_numpy(o)
        if not isinstance(o, SArr) or o.ndim != self.ndim:
            return False
        return arr_eq(self.snap(), self._shape, o.snap(), o.shape)


def arr_eq(f, s1, g, s2):
    """equal shapes and contents, as a formula"""
    cs = [dim_eq(a, b) for a, b in zip(s1, s2)]
    idx = [z3.FreshConst(I, "e") for _ in s1]
    a, b = f(*idx), g(*idx)
    if a.sort() != b.sort() and B not in (a.sort(), b.sort()):
        a, b = _to(a, R), _to(b, R)
    if a.sort() in (R, I):
        a, b = canon(a), canon(b)
    e = z3.simplify(a == b)
    if not z3.is_true(e):
        rng = z3.And(*[z3.And(i >= 0, i < _cterm(s)) for i, s in zip(idx, s1)])
        e = z3.ForAll(idx, z3.Implies(rng, e)) if idx else e
    return z3.simplify(z3.And(*(cs + [e])))


class HArr(engine.HObj):
    def get(self):
        return {"": AVal(self.ref._shape, self.ref.fn, self.ref.zs)}

    def set(self, slot, v):
        if isinstance(v, AVal):
            object.__setattr__(self.ref, "fn", v.fn)
        elif isinstance(v, SArr):
            object.__setattr__(self.ref, "fn", v.snap())
        else:
            def bad(*i):
                v._no()
            object.__setattr__(self.ref, "fn", bad)


class AVal(Sym):
    """immutable contents of an array, as a loop location"""
    def __init__(self, shape, fn, sort):
        o = object.__setattr__
        o(self, "shape", shape)
        o(self, "fn", fn)
        o(self, "zs", sort)
        o(self, "const", None)

    def vc_kind(self):
        return ("sarr", AVal.fresh, len(self.shape), self.zs, tuple(str(s) for s in self.shape), _Shape(self.shape))

    @staticmethod
    def fresh(kind, base):
        n, sort, shape = kind[2], kind[3], kind[5].shape
        A = P().fresh(base, z3.ArraySort(*([I] * n + [sort])) if n else sort)
        v = AVal(shape, (lambda *i: z3.Select(A, *i)) if n else (lambda: A), sort)
        object.__setattr__(v, "const", A)
        return v

    def _probe(self):
        idx = [z3.FreshConst(I, "p") for _ in self.shape]
        return idx, self.fn(*idx)

    def vc_consts(self, acc):
        idx, t = self._probe()
        a = {}
        core._consts_of(t, a, set())
        for i in idx:
            a.pop(i.decl().name(), None)
        acc.update(a)

    def vc_subst(self, sub):
        f = self.fn

        def g(*i):
            hs = [z3.FreshConst(I, "q") for _ in i]
            t = z3.substitute(f(*hs), *sub)
            return z3.simplify(z3.substitute(t, *list(zip(hs, i)))) if hs else z3.simplify(t)
        return AVal(self.shape, g, self.zs)

    def vc_pairs(self, val):
        if self.const is None:
            return []
        if not self.shape:
            return [(self.const, val.fn())]
        q = [z3.FreshConst(I, "l") for _ in self.shape]
        return [(self.const, z3.Lambda(q, _to(val.fn(*q), self.zs)))]

    def vc_eq(self, o):
        if isinstance(o, SArr):
            o = AVal(o._shape, o.snap(), o.zs)
        if not isinstance(o, AVal) or len(o.shape) != len(self.shape):
            return False
        if o.fn is self.fn:
            return True
        return arr_eq(self.fn, self.shape, o.fn, o.shape)

    def vc_merge(self, alts):
        def g(*i):
            r = alts[-1][1].fn(*i)
            for c, v in reversed(alts[:-1]):
                r = z3.If(c, v.fn(*i), r)
            return r
        return AVal(self.shape, g, self.zs)

    def __repr__(self):
        idx = [z3.Int("i%d" % d) for d in range(len(self.shape))]
        return "<contents %s>" % str(z3.simplify(self.fn(*idx)))[:160]


class _Shape(object):
    """shape carried by a kind without taking part in its comparison"""
    def __init__(self, shape):
        self.shape = shape

    def __eq__(self, o):
        return isinstance(o, _Shape)

    def __hash__(self):
        return 0


def _whole(a, dim):
    """the slice selects the whole axis (indices inside the array always satisfy it)"""
    s, st = z3.simplify(a[1]), z3.simplify(a[2])
    return z3.is_int_value(s) and s.as_long() == 0 and z3.is_int_value(st) and st.as_long() == 1 and z3.is_true(dim_eq(a[3], dim))


def _in_slice(t, a):
    start, step, n = a[1], a[2], a[3]
    s = z3.simplify(step)
    if z3.is_int_value(s) and s.as_long() == 1:
        j = z3.simplify(t - start)
        return [j >= 0, j < n], j
    if z3.is_int_value(s) and s.as_long() == -1:
        j = z3.simplify(start - t)
        return [j >= 0, j < n], j
    j = (t - start) / step
    return [t >= start, (t - start) % step == 0, j < n], j


def _to(t, sort):
    if t.sort() == sort:
        return t
    if sort == R:
        if t.sort() == B:
            return z3.If(t, z3.RealVal(1), z3.RealVal(0))
        return z3.ToReal(t)
    if sort == I and t.sort() == B:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if sort == I and t.sort() == R:
        raise Unsupported("real value stored in an integer array")
    raise Unsupported("sort conversion")


def _dt(t):
    return t


def _join(a, b):
    return a.dt if isinstance(a, SArr) else getattr(b, "dt", None)


def from_numpy(x):
    x = np.asarray(x)
    if x.ndim == 0:
        t = term(x.item())
        return SArr((), lambda: t, t.sort())
    flat = {i: term(x[i].item()) for i in np.ndindex(*x.shape)}
    sort = I if x.dtype.kind in "iu" else B if x.dtype.kind == "b" else R

    def fn(*idx):
        r = None
        cs = [z3.simplify(i) for i in idx]
        if all(z3.is_int_value(c) for c in cs):
            return flat[tuple(c.as_long() for c in cs)]
        for i, v in flat.items():
            c = z3.And(*[a == b for a, b in zip(cs, i)])
            r = v if r is None else z3.If(c, v, r)
        return r
    return SArr(x.shape, fn, sort, x.dtype)


def as_array(v, sort=None):
    """1-D (or n-D) array from numbers, sequences or arrays"""
    if isinstance(v, SArr):
        return v
    if isinstance(v, np.ndarray):
        return from_numpy(v)
    if is_num(v):
        t = num_term(v)
        return SArr((), lambda: t, t.sort())
    segs = core._norm(seq_segs(v))
    n = core.segs_len(segs)
    if not segs:
        return SArr((0,), lambda i: z3.RealVal(0), sort or R)
    from .engine import seq_at

    def val(i):
        return seq_at(segs, i)
    h = z3.FreshConst(I, "ai")
    first = segs[0].v if isinstance(segs[0], Item) else val(h)
    if isinstance(first, SArr):
        items = [s.v for s in segs if isinstance(s, Item)]
        if len(items) != len(segs):
            raise Unsupported("array of symbolic number of arrays")
        fs = [x.snap() for x in items]

        def fn(i, *r):
            t = fs[-1](*r)
            for j in range(len(fs) - 2, -1, -1):
                t = z3.If(i == j, fs[j](*r), t)
            return z3.simplify(t)
        return SArr((len(items),) + tuple(first.shape), fn, first.zs, first.dt)
    if all(isinstance(s, Item) for s in segs):
        ts = [num_term(s.v) for s in segs]
        sort = R if any(t.sort() == R for t in ts) else I
        ts = [_to(t, sort) for t in ts]

        def fn(i):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return ts[i.as_long()]
            t = ts[-1]
            for j in range(len(ts) - 2, -1, -1):
                t = z3.If(i == j, ts[j], t)
            return t
        return SArr((len(ts),), fn, sort)
    t0 = num_term(val(h))
    return SArr((wrap(n),), lambda i: num_term(val(i)), t0.sort())


def _scal(o):
    t = num_term(o)
    return lambda *i: t


def broadcast(*xs):
    """-> shape, element functions..., sort"""
    arrs = [x if isinstance(x, SArr) else from_numpy(x) if isinstance(x, np.ndarray) and x.ndim else x for x in xs]
    nd = max(a.ndim for a in arrs if isinstance(a, SArr))
    shape = [1] * nd
    for a in arrs:
        if not isinstance(a, SArr):
            continue
        off = nd - a.ndim
        for d, s in enumerate(a.shape):
            cur = shape[off + d]
            if type(cur) is int and cur == 1:
                shape[off + d] = s
            elif type(s) is int and s == 1:
                pass
            elif not decide_eq(cur, s):
                if decide_eq(s, 1) or decide_eq(cur, 1):
                    raise Unsupported("broadcast of a symbolic dimension that may be one")
                raise ValueError("operands could not be broadcast together")
    fns = []
    sorts = []
    for a in arrs:
        if not isinstance(a, SArr):
            fns.append(_scal(a))
            sorts.append(num_term(a).sort())
            continue
        fns.append(_bc(a, nd))
        sorts.append(a.zs)
    s = R if R in sorts else I if I in sorts else B
    return (tuple(shape),) + tuple(fns) + (s,)


def _bc(a, nd):
    f, off, sh = a.snap(), nd - a.ndim, a.shape

    def g(*i):
        return f(*[z3.IntVal(0) if type(sh[d]) is int and sh[d] == 1 else i[off + d] for d in range(len(sh))])
    return g


def broadcast_to(v, shape, sort, strict=False):
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        v = as_array(v)
    if not isinstance(v, SArr):
        t = _to(num_term(v), sort)
        return lambda *i: t
    if v.ndim > len(shape):
        if all(type(s) is int and s == 1 for s in v.shape[:v.ndim - len(shape)]):
            f = v.snap()
            k = v.ndim - len(shape)
            return broadcast_to(SArr(v.shape[k:], lambda *i: f(*([z3.IntVal(0)] * k + list(i))), v.zs, v.dt), shape, sort, strict)
        raise ValueError("could not broadcast input array")
    off = len(shape) - v.ndim
    for d, s in enumerate(v.shape):
        if type(s) is int and s == 1:
            continue
        if not decide_eq(s, shape[off + d]):
            raise ValueError("could not broadcast input array")
    f = _bc(v, len(shape))
    return lambda *i: _to(f(*i), sort)


def new_array(name, shape, sort=R, dt=None):
    """an arbitrary array: (array, element function)"""
    f = z3.Function(P().fresh_name(name), *([I] * len(shape) + [sort]))
    return SArr(shape, lambda *i: f(*i), sort, dt), f


# ---------------------------------------------------------------- numpy functions
H = rt.handler


def _hasarr(*a):
    return any(isinstance(x, SArr) for x in a)


def _shape_of(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


def _is_int_dtype(t):
    try:
        return np.dtype(t).kind in "iu"
    except TypeError:
        return False


def _full(v):
    def h(shape, dtype=None, *a, **k):
        sh = _shape_of(shape)
        sym = any(is_sym(s) for s in sh)
        if not sym and not is_sym(dtype):
            return NotImplemented
        for s in sh:
            if is_sym(s) and P().branch(num_term(s) < 0):
                raise ValueError("negative dimensions are not allowed")
        if v is None:
            f = z3.Function(P().fresh_name("empty"), *([I] * len(sh) + [R]))
            return SArr(sh, lambda *i: f(*i), R, dtype)
        if dtype is not None and not is_sym(dtype) and _is_int_dtype(dtype):
            return SArr(sh, lambda *i: z3.IntVal(v), I, dtype)
        t = z3.RealVal(v)
        return SArr(sh, lambda *i: t, R, dtype)
    return h


rt.handlers[np.zeros] = _full(0)
rt.handlers[np.ones] = _full(1)
rt.handlers[np.empty] = _full(None)


@H(np.where)
def _where(c, a=None, b=None):
    if not _hasarr(c, a, b):
        return NotImplemented
    if a is None or not isinstance(c, SArr) or c.zs != B:
        raise Unsupported("where")
    wrapped = [x if isinstance(x, (SArr, np.ndarray)) or is_num(x) else None for x in (a, b)]
    if any(x is None for x in wrapped):
        raise Unsupported("where of %r, %r" % (a, b))
    shape, fc, fa, fb, _ = broadcast(c, *wrapped)
    s = R if any(f(*[z3.IntVal(0)] * len(shape)).sort() == R for f in (fa, fb)) else I
    return SArr(shape, lambda *i: z3.If(fc(*i), _to(fa(*i), s), _to(fb(*i), s)), s, _join(a if isinstance(a, SArr) else c, b))


@H(np.zeros_like)
def _zeros_like(x, *a, **k):
    if not _hasarr(x):
        return NotImplemented
    return SArr(x.shape, lambda *i: z3.RealVal(0) if x.zs == R else z3.IntVal(0), x.zs, x.dt)


@H(np.empty_like)
def _empty_like(x, *a, **k):
    if not _hasarr(x):
        return NotImplemented
    return new_array("empty", x.shape, x.zs, x.dt)[0]


@H(np.eye)
def _eye(n, *a, **k):
    if not is_sym(n):
        return NotImplemented
    return SArr((n, n), lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)), R)


@H(np.array, np.asarray)
def _array(x, *a, **k):
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, (VList, VTuple, VIter)) and _is_symbolic_iterable(x):
        return as_array(x)
    if isinstance(x, (list, tuple)) and any(is_sym(v) for v in x):
        return as_array(x)
    return NotImplemented


@H(np.arange)
def _arange(*a, **k):
    if not any(is_sym(x) for x in a):
        return NotImplemented
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    lo, hi = num_term(lo), num_term(hi)
    if is_sym(st) or st != 1:
        raise Unsupported("arange with a step")
    return SArr((wrap(_simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))),), lambda i: z3.simplify(lo + i), I)


def _dot(a, b, out=None):
    if not _hasarr(a, b):
        return NotImplemented
    if is_num(a) or is_num(b):
        return a * b
    a, b = as_array(a), as_array(b)
    f, g = a.snap(), b.snap()
    if not decide_eq(a.shape[-1], b.shape[0]):
        raise ValueError("shapes not aligned")
    n = a.shape[-1]
    if a.ndim == 1 and b.ndim == 1:
        return wrap(ssum(lambda r: _to(f(r), R) * _to(g(r), R), 0, n))
    if b.ndim > 2 or a.ndim > 2:
        raise Unsupported("dot of higher rank")
    sh = a.shape[:-1] + b.shape[1:]
    na = a.ndim - 1

    def fn(*i):
        return ssum(lambda r: _to(f(*(i[:na] + (r,))), R) * _to(g(*((r,) + i[na:])), R), 0, n)
    return SArr(sh, fn, R, a.dt)


rt.handlers[np.dot] = _dot


@H(np.outer)
def _outer(a, b):
    if not _hasarr(a, b):
        return NotImplemented
    f, g = a.snap(), b.snap()
    return SArr((a.shape[0], b.shape[0]), lambda i, j: f(i) * g(j), R, a.dt)


def _ufunc(op):
    def h(a, b, out=None, *r, **k):
        if not _hasarr(a, b):
            return NotImplemented if not (is_sym(a) or is_sym(b)) else op(a, b)
        res = op(a, b)
        if out is not None:
            out[...] = res
            return out
        return res
    return h


rt.handlers[np.multiply] = _ufunc(lambda a, b: a * b)
rt.handlers[np.add] = _ufunc(lambda a, b: a + b)
rt.handlers[np.subtract] = _ufunc(lambda a, b: a - b)
rt.handlers[np.divide] = _ufunc(lambda a, b: a / b)


@H(np.sqrt)
def _sqrt(x, *a, **k):
    if isinstance(x, SArr):
        f = x.snap()
        return SArr(x.shape, lambda *i: sq(_to(f(*i), R)), R, x.dt)
    if is_sym(x):
        return wrap(sq(real(x)))
    return NotImplemented


def sq(t):
    return f_sqrt(canon(t))


@H(np.take)
def _take(x, idx, *a, **k):
    return x.take(idx, *a, **k) if _hasarr(x) else NotImplemented


@H(np.sum)
def _npsum(x, axis=None, *a, **k):
    return x.sum(axis) if _hasarr(x) else NotImplemented


@H(np.mean)
def _npmean(x, axis=None, *a, **k):
    return x.mean(axis) if _hasarr(x) else NotImplemented


@H(np.transpose)
def _nptranspose(x, *a):
    return x.transpose(*a) if _hasarr(x) else NotImplemented


@H(np.diag)
def _diag(x, *a):
    if not _hasarr(x):
        return NotImplemented
    f = x.snap()
    if x.ndim == 2:
        return SArr((x.shape[0],), lambda i: f(i, i), x.zs, x.dt)
    return SArr((x.shape[0], x.shape[0]), lambda i, j: z3.If(i == j, f(i), z3.RealVal(0)), x.zs, x.dt)


@H(np.diagonal)
def _npdiagonal(x, *a, **k):
    return x.diagonal(*a, **k) if _hasarr(x) else NotImplemented


@H(np.trace)
def _nptrace(x, *a, **k):
    return x.trace(*a, **k) if _hasarr(x) else NotImplemented


def _concat(axis):
    def h(arrs, *a, **k):
        if _is_symbolic_iterable(arrs):
            raise Unsupported("concatenation of a symbolic number of arrays")
        arrs = list(arrs)
        if not _hasarr(*arrs):
            return NotImplemented
        ax = axis
        if axis is None:
            ax = k.get("axis", a[0] if a else 0)
        arrs = [as_array(x) for x in arrs]
        nd = arrs[0].ndim
        if axis == 1 and nd == 1:
            ax = 0
        if ax < 0:
            ax += nd
        for x in arrs[1:]:
            for d in range(nd):
                if d != ax and not decide_eq(x.shape[d], arrs[0].shape[d]):
                    raise ValueError("dimensions must match exactly")
        offs = [z3.IntVal(0)]
        for x in arrs:
            offs.append(z3.simplify(offs[-1] + _cterm(x.shape[ax])))
        fs = [x.snap() for x in arrs]
        s = R if any(x.zs == R for x in arrs) else arrs[0].zs

        def fn(*i):
            t = i[ax]

            def el(j):
                ii = list(i)
                ii[ax] = z3.simplify(t - offs[j])
                return _to(fs[j](*ii), s)
            r = el(len(fs) - 1)
            for j in range(len(fs) - 2, -1, -1):
                r = z3.If(t < offs[j + 1], el(j), r)
            return z3.simplify(r)
        sh = list(arrs[0].shape)
        sh[ax] = wrap(offs[-1])
        return SArr(sh, fn, s, arrs[0].dt)
    return h


rt.handlers[np.concatenate] = _concat(None)
rt.handlers[np.vstack] = lambda arrs, *a, **k: _concat(0)(
    [x[(None, slice(None))] if isinstance(x, SArr) and x.ndim == 1 else x for x in arrs] if isinstance(arrs, (list, tuple)) and
    not _is_symbolic_iterable(arrs) else arrs, *a, **k)
rt.handlers[np.hstack] = _concat(1)

def _extreme(up):
    def h(x, axis=None, *a, **k):
        if not (_hasarr(x) or _is_symbolic_iterable(x)) or axis is not None:
            return NotImplemented
        x = as_array(x)
        if x.ndim != 1:
            raise Unsupported("extreme of an array of rank %d" % x.ndim)
        f, n, p = x.snap(), _cterm(x.shape[0]), P()
        if p.branch(n <= 0):
            raise ValueError("zero-size array to reduction operation")
        m, w, j = p.fresh("ext", x.zs), p.fresh("at", I), z3.FreshConst(I, "j")
        p.assume(z3.And(w >= 0, w < n, f(w) == m))
        p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f(j) <= m if up else f(j) >= m)), quantified=True)
        return wrap(m)
    return h


for _f in (np.nanmax, np.max, np.amax):
    rt.handlers[_f] = _extreme(True)
for _f in (np.nanmin, np.min, np.amin):
    rt.handlers[_f] = _extreme(False)


class Distinct(Sym):
    """result of unique(): only its length"""
    def __init__(self, n):
        object.__setattr__(self, "n", n)

    def vc_len(self):
        return wrap(self.n)

    @property
    def shape(self):
        return (wrap(self.n),)

    size = property(vc_len)


@H(np.unique)
def _unique(x, *a, **k):
    if not (_hasarr(x) or _is_symbolic_iterable(x)):
        return NotImplemented
    if a or k:
        raise Unsupported("unique with options")
    x = as_array(x)
    f, n, p = x.snap(), _cterm(x.shape[0]), P()
    u = p.fresh("nuniq", I)
    if p.branch(p.fresh("distinct", B)):
        p.assume(injective(f, n), quantified=True)
        p.assume(u == n)
    else:
        i, j = p.fresh("dupa", I), p.fresh("dupb", I)
        p.assume(z3.And(i >= 0, i < j, j < n, f(i) == f(j), u >= 0, u < n))
    return Distinct(u)


def injective(f, n):
    i, j = z3.Ints("ii jj")
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) != f(j)))


ARGSORTS = {}


@H(np.argsort)
def _argsort(x, *a, **k):
    if not (_hasarr(x) or _is_symbolic_iterable(x)):
        return NotImplemented
    x = as_array(x)
    f, n, p = x.snap(), _cterm(x.shape[0]), P()
    g = z3.Function(p.fresh_name("argsort"), I, I)
    i, j = z3.Ints("ii jj")
    p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(g(i) >= 0, g(i) < n)), patterns=[g(i)]), quantified=True)
    p.assume(injective(g, n), quantified=True)
    p.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(g(i)) <= f(g(j))), patterns=[z3.MultiPattern(g(i), g(j))]),
             quantified=True)
    ARGSORTS[g.name()] = (f, n)
    p.globals.setdefault("argsorts", []).append(g)
    r = SArr((wrap(n),), lambda t: g(t), I)
    object.__setattr__(r, "bound", wrap(n))
    return r


trusted("numpy.unique (length), argsort, nanmax/nanmin: axiomatised on symbolic arrays")
trusted("numpy arrays on symbolic shapes (pyvc/sarr.py): indexing, slicing, views, assignment, elementwise arithmetic, sums, dot, "
        "outer, concatenation; elements are mathematical integers or reals; polynomial normal form")
