"""Contracts (models) of builtins and library functions on symbolic arguments.

Each handler returns NotImplemented when no argument is symbolic, in which case the
real function runs.  These are the trusted external contracts."""
import builtins
import copy
import numbers
import warnings

import z3

from .core import *
from . import core
from .engine import *
from .engine import rt, VList, VTuple, VIter, VDict, seq_segs, sorted_segs, _is_symbolic_iterable, _z

TRUSTED = []


def trusted(text):
    TRUSTED.append(text)


H = rt.handler


@H(len)
def _len(x):
    if hasattr(type(x), "vc_len"):
        return x.vc_len()
    f = getattr(type(x), "__len__", None)
    if f is not None and "__vc__" in getattr(f, "__globals__", {}):
        return x.__len__()      # avoids the native conversion to an index
    return NotImplemented


_INT = (int, numbers.Number, numbers.Real, numbers.Integral, numbers.Rational, numbers.Complex, object)


def isa(x, cls):
    if isinstance(cls, tuple):
        return any(isa(x, c) for c in cls)
    if hasattr(type(x), "_vc_isa"):
        return x._vc_isa(cls)
    if isinstance(x, SBool):
        return cls in _INT or cls is bool
    if isinstance(x, SInt):
        return cls in _INT
    if isinstance(x, SReal):
        return cls in (float, numbers.Number, numbers.Real, numbers.Complex, object)
    if isinstance(x, VTuple):
        return cls in (tuple, object)
    if isinstance(x, Poison):
        x._no()
    if is_sym(x):
        raise Unsupported("isinstance(%r, %r)" % (x, cls))
    return isinstance(x, cls)


@H(isinstance)
def _isinstance(x, cls):
    if is_sym(x):
        return isa(x, cls)
    return NotImplemented


@H(type)
def _type(*a):
    if len(a) != 1:
        return NotImplemented
    x = a[0]
    if type(x) is VList:
        return list
    if type(x) is VDict:
        return dict
    if isinstance(x, VTuple):
        return tuple
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SInt):
        return int
    if isinstance(x, SReal):
        return float
    if hasattr(type(x), "_vc_type"):
        return x._vc_type()
    if is_sym(x):
        raise Unsupported("type(%r)" % (x,))
    return NotImplemented


def sym_range(lo, hi):
    lo, hi = num_term(lo), num_term(hi)
    return VIter([span(z3.simplify(hi - lo), lambda j: wrap(lo + j))], "range")


@H(range)
def _range(*a):
    if not any(is_sym(x) for x in a):
        return NotImplemented
    if len(a) == 1:
        return sym_range(0, a[0])
    if len(a) == 2:
        return sym_range(a[0], a[1])
    lo, hi, st = a
    if is_sym(st):
        lo, hi, st = num_term(lo), num_term(hi), num_term(st)
        if P().branch(st == 0):
            raise ValueError("range() arg 3 must not be zero")
        if P().branch(st > 0):
            n = z3.If(hi > lo, pydivmod(hi - lo + st - 1, st)[0], z3.IntVal(0))
        else:
            n = z3.If(hi < lo, pydivmod(lo - hi - st - 1, -st)[0], z3.IntVal(0))
        return VIter([span(z3.simplify(n), lambda j: wrap(lo + j * st))], "range")
    lo, hi = num_term(lo), num_term(hi)
    if st == 1:
        return sym_range(wrap(lo), wrap(hi))
    if st == -1:
        return VIter([span(z3.simplify(lo - hi), lambda j: wrap(lo - j))], "range")
    if st > 0:
        n = z3.If(hi > lo, (hi - lo + (st - 1)) / st, z3.IntVal(0))
    else:
        n = z3.If(hi < lo, (lo - hi + (-st - 1)) / (-st), z3.IntVal(0))
    return VIter([span(z3.simplify(n), lambda j: wrap(lo + j * st))], "range")


def map_segs(segs, fn, pos=None):
    """elementwise map; fn(value, index term)"""
    out = []
    pos = z3.IntVal(0) if pos is None else pos
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(fn(s.v, z3.simplify(pos))))
        elif isinstance(s, Rep):
            h = z3.FreshConst(z3.IntSort(), "mj")
            inner = core._norm(s.seg(h))
            if len(inner) == 1 and isinstance(inner[0], Item):
                out.append(Rep(s.count, (lambda s, p: (lambda j: [Item(fn(core._norm(s.seg(j))[0].v, z3.simplify(p + j)))]))(s, pos)))
            else:
                raise Unsupported("map over a compound repetition")
        else:
            raise Unsupported("map over a guarded segment")
        pos = pos + core.seg_len(s)
    return out


@H(enumerate)
def _enumerate(it, start=0):
    if not _is_symbolic_iterable(it):
        return NotImplemented
    st = num_term(start)
    return VIter(map_segs(core._norm(seq_segs(it)), lambda v, i: (wrap(st + i), v)), "enumerate")


@H(zip)
def _zip(*its):
    if not any(_is_symbolic_iterable(i) for i in its):
        return NotImplemented
    segl = [core._norm(seq_segs(i)) for i in its]
    # all of equal provable length and alignable: split at common boundaries
    lens = [core.segs_len(s) for s in segl]
    n = lens[0]
    for m in lens[1:]:
        n = z3.If(m < n, m, n)
    n = z3.simplify(n)
    from .engine import _simp, seq_at
    n = _simp(n)
    # if all first sequences have a single segment, build directly
    return VIter([span(n, lambda j: tuple(seq_at(s, j) for s in segl))], "zip")


class LazyMap(Sym):
    """map(f, symbolic iterable), not evaluated yet"""
    def __init__(self, f, it):
        object.__setattr__(self, "f", f)
        object.__setattr__(self, "it", it)


@H(map)
def _map(f, *its):
    if not any(_is_symbolic_iterable(i) for i in its):
        return NotImplemented
    if len(its) != 1:
        raise Unsupported("map over several symbolic iterables")
    return LazyMap(f, its[0])


@H(list)
def _list(*a):
    if not a:
        return VList()
    if isinstance(a[0], LazyMap):
        f = a[0].f
        return rt.comp("list", a[0].it, lambda x: rt.call(f, x), None, True, False, "map")
    if _is_symbolic_iterable(a[0]):
        return VList.of(list(seq_segs(a[0])))
    if is_sym(a[0]):
        raise Unsupported("list(%r)" % (a[0],))
    return VList(a[0])


@H(dict)
def _dict(*a, **k):
    return VDict(*a, **k)


@H(tuple)
def _tuple(*a):
    if a and _is_symbolic_iterable(a[0]):
        return VTuple(list(seq_segs(a[0])))
    if a and is_sym(a[0]):
        raise Unsupported("tuple(%r)" % (a[0],))
    return NotImplemented


@H(iter)
def _iter(*a):
    if a and _is_symbolic_iterable(a[0]):
        return VIter(list(seq_segs(a[0])), "iter")
    return NotImplemented


@H(reversed)
def _reversed(x):
    if _is_symbolic_iterable(x):
        from .engine import rev_segs
        return VIter(rev_segs(seq_segs(x)), "reversed")
    return NotImplemented


def _extreme(name, gt, it):
    """the largest/smallest element of a symbolic sequence: a bound of all that is one of them"""
    segs = core._norm(seq_segs(it))
    from .engine import segs_len
    if not P().branch(segs_len(segs) > 0):
        raise ValueError("%s() of an empty sequence" % name)
    items, sort = [], z3.IntSort()
    for s in segs:
        if isinstance(s, Rep):
            h = P().fresh("sk", z3.IntSort())
            inner = core._norm(s.seg(h))
            if len(inner) != 1 or not isinstance(inner[0], Item):
                raise Unsupported("%s over compound repetition" % name)
            items.append((h, s.count, num_term(inner[0].v)))
        elif isinstance(s, Item):
            items.append((None, None, num_term(s.v)))
        else:
            raise Unsupported("%s over guarded segment" % name)
    if any(d.sort() == z3.RealSort() for h, c, d in items):
        sort = z3.RealSort()
    m = P().fresh(name, sort)
    rel = (lambda d: m >= d) if gt else (lambda d: m <= d)
    some = []
    for h, c, d in items:
        if h is None:
            P().assume(rel(d))
            some.append(m == d)
        else:
            P().assume(z3.ForAll([h], z3.Implies(z3.And(h >= 0, h < c), rel(d))), quantified=True)
            i = P().fresh("where", z3.IntSort())
            some.append(z3.And(i >= 0, i < c, m == z3.substitute(d, (h, i))))
    P().assume(z3.Or(some))
    return wrap(m)


def _minmax(name, gt):
    def h(*a, **k):
        if k:
            if any(is_sym(x) for x in a) or (len(a) == 1 and _is_symbolic_iterable(a[0])):
                raise Unsupported("%s with key" % name)
            return NotImplemented
        if len(a) == 1:
            if _is_symbolic_iterable(a[0]):
                return _extreme(name, gt, a[0])
            if isinstance(a[0], (list, tuple)) and any(is_sym(x) for x in a[0]):
                a = tuple(a[0])
            else:
                return NotImplemented
        if not any(is_sym(x) for x in a):
            return NotImplemented
        r = a[0]
        for x in a[1:]:
            p, q = core._coerce(r, x)
            r = wrap(z3.If((q > p) if gt else (q < p), q, p))
        return r
    return h


rt.handlers[min] = _minmax("min", False)
rt.handlers[max] = _minmax("max", True)


@H(abs)
def _abs(x):
    return x.__abs__() if is_sym(x) else NotImplemented


@H(int)
def _int(*a):
    if a and isinstance(a[0], SInt):
        return a[0]
    if a and isinstance(a[0], SBool):
        return wrap(num_term(a[0]))
    if a and isinstance(a[0], SReal):
        t = a[0].t
        return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if a and is_sym(a[0]):
        raise Unsupported("int(%r)" % (a[0],))
    return NotImplemented


@H(float)
def _float(*a):
    if a and isinstance(a[0], SReal):
        return a[0]
    if a and isinstance(a[0], (SInt, SBool)):
        return wrap(z3.ToReal(num_term(a[0])))
    if a and is_sym(a[0]):
        raise Unsupported("float(%r)" % (a[0],))
    return NotImplemented


@H(bool)
def _bool(*a):
    return NotImplemented


@H(str)
def _str(*a):
    if a and is_sym(a[0]):
        return show(a[0])
    return NotImplemented


@H(repr)
def _repr(x):
    if is_sym(x):
        return show(x)
    return NotImplemented


@H(print)
def _print(*a, **k):
    return None


@H(warnings.warn)
def _warn(*a, **k):
    return None


@H(sum)
def _sum(it, start=0):
    if _is_symbolic_iterable(it):
        segs = core._norm(seq_segs(it))
        t = num_term(start)
        from .engine import prefix_sum
        for s in segs:
            if isinstance(s, Item):
                t = num_term(wrap(t) + s.v)
            elif isinstance(s, Rep):
                h = P().fresh("sk", z3.IntSort())
                inner = core._norm(s.seg(h))
                if len(inner) != 1 or not isinstance(inner[0], Item):
                    raise Unsupported("sum over compound repetition")
                d = num_term(inner[0].v)
                names = {}
                core._consts_of(d, names, set())
                n = z3.If(s.count > 0, s.count, z3.IntVal(0))
                from .engine import _simp
                n = _simp(n)
                if h.decl().name() not in names:
                    nn = z3.ToReal(n) if d.sort() == z3.RealSort() else n
                    t = num_term(wrap(t) + wrap(nn * d))
                else:
                    t = num_term(wrap(t) + wrap(prefix_sum(d, h)(n)))
            else:
                raise Unsupported("sum over guarded segment")
        return wrap(t)
    if isinstance(it, (list, tuple)):
        r = start
        for x in it:
            r = r + x
        return r
    return NotImplemented


def _forall_segs(segs, fn):
    """conjunction over all elements of fn(value) (z3 Bool)"""
    cs = []
    for s in core._norm(segs):
        if isinstance(s, Item):
            cs.append(fn(s.v))
        elif isinstance(s, Rep):
            j = P().fresh("q", z3.IntSort())
            cs.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.count), _forall_segs(s.seg(j), fn))))
        else:
            cs.append(z3.Implies(s.cond, _forall_segs(s.segs, fn)))
    return z3.And(*cs) if cs else z3.BoolVal(True)


def truth(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, (SInt, SReal)):
        return v.t != 0
    if is_sym(v):
        raise Unsupported("truth of %r" % (v,))
    return z3.BoolVal(bool(v))


def _allany(all_):
    def h(it):
        if not _is_symbolic_iterable(it):
            return NotImplemented
        segs = seq_segs(it)
        c = _forall_segs(segs, lambda v: truth(v) if all_ else z3.Not(truth(v)))
        # decide: either the universal statement holds, or there is a witness
        p = P()
        holds = p.branch(p.fresh("all", z3.BoolSort()))
        if holds:
            p.assume(c, quantified=core._has_quant(c))
        else:
            w = p.fresh("wit", z3.IntSort())
            from .engine import seq_at
            n = core.segs_len(segs)
            p.assume(z3.And(w >= 0, w < n))
            v = truth(seq_at(core._norm(segs), w))
            p.assume(z3.Not(v) if all_ else v)
        return holds if all_ else not holds
    return h


rt.handlers[all] = _allany(True)
rt.handlers[any] = _allany(False)


@H(sorted)
def _sorted(it, **k):
    if _is_symbolic_iterable(it):
        return VList.of(sorted_segs(seq_segs(it), **k))
    return NotImplemented


@H(hasattr)
def _hasattr(o, n):
    if hasattr(type(o), "_vc_hasattr"):
        return o._vc_hasattr(n)
    if isinstance(o, (VIter, VTuple)):
        return n in ("__iter__", "__getitem__") if isinstance(o, VTuple) else n == "__iter__"
    if is_sym(o):
        if isinstance(o, (SInt, SReal, SBool)):
            return n in ("__add__",)
        raise Unsupported("hasattr(%r, %s)" % (o, n))
    return NotImplemented


@H(getattr)
def _getattr(o, n, *d):
    if hasattr(type(o), "_vc_hasattr") and d:
        return getattr(o, n) if o._vc_hasattr(n) else d[0]
    return NotImplemented


@H(copy.deepcopy)
def _deepcopy(x, *a):
    if hasattr(type(x), "vc_deepcopy"):
        return x.vc_deepcopy()
    return NotImplemented


def install_package_models():
    """models of helper libraries used by mdp (call after mdp is importable)"""
    from past.utils import old_div

    @H(old_div)
    def _old_div(a, b):
        if not (is_sym(a) or is_sym(b)):
            return NotImplemented
        if v_kind(a) in ("int", "bool") and v_kind(b) in ("int", "bool"):
            return a // b
        return a / b
