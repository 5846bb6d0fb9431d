"""Path exploration, loop summaries, runtime hooks of the instrumented code."""
import builtins
import collections
import sys
import time
import traceback
import re
import types

import z3

from .core import *
from . import core
from .core import _consts_of, _Forked


MISSING = object()
UNBOUND = object()


def _absent(v):
    return v is MISSING or v is UNBOUND


# ================================================================= tracked heap
class HObj(object):
    """A tracked mutable object: slots -> values."""
    def __init__(self, ref):
        self.ref = ref

    def get(self):
        raise NotImplementedError

    def set(self, slot, v):
        raise NotImplementedError


class HInst(HObj):
    def __init__(self, ref):
        self.ref = ref
        if Path.cur is not None:
            # replayed paths create the same objects in the same order: a summary made on an earlier
            # path refers to the object at the same position of the heap
            core.TAGS[id(ref)] = (ref, len(P().heap))

    def get(self):
        return dict(self.ref.__dict__)

    def set(self, slot, v):
        if v is MISSING:
            self.ref.__dict__.pop(slot, None)
        else:
            self.ref.__dict__[slot] = v


class HList(HObj):
    def get(self):
        return {"": SSeq(list(self.ref.segs()))}

    def set(self, slot, v):
        self.ref.set_segs(v.segs if isinstance(v, SSeq) else [Item(v)])


class HDict(HObj):
    def get(self):
        d = {k: v for k, v in dict.items(self.ref)}
        if self.ref._mem is not None:
            d[MEM] = self.ref._mem
        return d

    def set(self, slot, v):
        if slot is MEM:
            self.ref._mem = None if v is MISSING else v
        elif v is MISSING:
            dict.pop(self.ref, slot, None)
        else:
            dict.__setitem__(self.ref, slot, v)


class HCell(HObj):
    """ghost cell"""
    def get(self):
        return {"": self.ref.v}

    def set(self, slot, v):
        self.ref.v = v


class Cell(object):
    """Mutable ghost location."""
    def __init__(self, v):
        self.v = v
        P().heap.append(HCell(self))


def track(obj):
    p = P()
    for h in p.heap:
        if h.ref is obj:
            return obj
    p.heap.append(HInst(obj))
    return obj


class _PoisonItem(object):
    def __repr__(self):
        return "<symbolic list>"


class VList(list):
    """list whose contents may be symbolic"""
    def __init__(self, it=()):
        list.__init__(self, it)
        self._s = None
        if Path.cur is not None:
            P().heap.append(HList(self))

    # -- representation
    def vc_eq(self, o):
        """same contents (specifications only)"""
        return core.seqs_equal(self.segs(), seq_segs(o)) if isinstance(o, (list, SSeq)) else False

    def segs(self):
        if self._s is not None:
            return self._s
        return [Item(v) for v in list.__iter__(self)]

    def set_segs(self, segs):
        segs = core._norm(segs)
        if all(isinstance(s, Item) for s in segs):
            self._s = None
            list.__init__(self, [s.v for s in segs])
        else:
            list.__init__(self, [_PoisonItem()])
            self._s = list(segs)

    @staticmethod
    def of(segs):
        r = VList()
        r.set_segs(segs)
        return r

    @property
    def sym(self):
        return self._s is not None

    def vc_len(self):
        if self._s is None:
            return list.__len__(self)
        return wrap(segs_len(self._s))

    def __len__(self):
        if self._s is None:
            return list.__len__(self)
        raise Unsupported("native len of a symbolic list")

    def __bool__(self):
        if self._s is None:
            return list.__len__(self) > 0
        if _varying(self._s):
            r = split_last(self._s)
            self.set_segs([] if r is None else r[0] + [Item(r[1])])
            return r is not None
        return P().branch(segs_len(self._s) > 0)

    def _open_end(self):
        """bring the last element to the end as a single item (same contents)"""
        if self._s is not None and _varying(self._s):
            r = split_last(self._s)
            self.set_segs([] if r is None else r[0] + [Item(r[1])])

    def __iter__(self):
        if self._s is None:
            return list.__iter__(self)
        return VIter(list(self._s), "list")

    def append(self, v):
        if self._s is None:
            list.append(self, v)
        else:
            self._s = self._s + [Item(v)]

    def extend(self, it):
        segs = seq_segs(it)
        if self._s is None and all(isinstance(s, Item) for s in segs):
            list.extend(self, [s.v for s in segs])
        else:
            self.set_segs(self.segs() + segs)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return VList.of(self.segs() + seq_segs(o))

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return VList.of(seq_segs(o) + self.segs())

    def __mul__(self, n):
        if isinstance(n, SInt):
            cnt = z3.If(n.t > 0, n.t, z3.IntVal(0))
            segs = self.segs()
            return VList.of([Rep(cnt, lambda j: list(segs))])
        if self._s is None:
            return VList(list.__mul__(self, n))
        return VList.of(self.segs() * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        if self._s is None and not isinstance(o, VList):
            return list.__eq__(self, o)
        if not isinstance(o, list):
            return False
        if self._s is None and o._s is None:
            return list.__eq__(self, o)
        raise Unsupported("comparison of symbolic lists")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __contains__(self, v):
        if self._s is None:
            return list.__contains__(self, v)
        return sym_contains(self.segs(), v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self._s is None and not any(is_sym(x) for x in (i.start, i.stop, i.step)):
                return VList(list.__getitem__(self, i))
            return VList.of(slice_segs(self.segs(), i))
        if self._s is None and not is_sym(i):
            return list.__getitem__(self, i)
        if type(i) is int and i == -1:
            self._open_end()
        return seq_get(self.segs(), i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if self._s is None and not any(is_sym(x) for x in (i.start, i.stop, i.step)):
                segs = seq_segs(v)
                if all(isinstance(s, Item) for s in segs):
                    return list.__setitem__(self, i, [s.v for s in segs])
            a, b = slice_bounds(segs_len(self.segs()), i)
            b = z3.simplify(z3.If(b < a, a, b))
            pre = cut(self.segs(), z3.IntVal(0), a)
            post = cut(self.segs(), b, segs_len(self.segs()))
            self.set_segs(pre + seq_segs(v) + post)
            return
        if type(i) is int and i == -1:
            self._open_end()
            if self._s is not None and isinstance(self._s[-1], Item):
                return self.set_segs(self._s[:-1] + [Item(v)])
        if self._s is None and not is_sym(i):
            return list.__setitem__(self, i, v)
        n = segs_len(self.segs())
        k = norm_index(i, n, "list assignment index out of range")
        self.set_segs(cut(self.segs(), z3.IntVal(0), k) + [Item(v)] + cut(self.segs(), k + 1, n))

    def __delitem__(self, i):
        if self._s is None and not is_sym(i) and not (
                isinstance(i, slice) and any(is_sym(x) for x in (i.start, i.stop, i.step))):
            return list.__delitem__(self, i)
        n = segs_len(self.segs())
        if isinstance(i, slice):
            a, b = slice_bounds(n, i)
            b = z3.simplify(z3.If(b < a, a, b))
            self.set_segs(cut(self.segs(), z3.IntVal(0), a) + cut(self.segs(), b, n))
            return
        k = norm_index(i, n, "list assignment index out of range")
        self.set_segs(cut(self.segs(), z3.IntVal(0), k) + cut(self.segs(), k + 1, n))

    def insert(self, i, v):
        self[i:i] = [v]

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def copy(self):
        return VList.of(self.segs())

    def index(self, *a):
        if self._s is None and not any(is_sym(x) for x in a):
            return list.index(self, *a)
        if len(a) > 1:
            raise Unsupported("index() of symbolic list within bounds")
        m = first_match(self.segs(), a[0])
        if m is None:
            raise ValueError("not in list")
        return wrap(m)

    def remove(self, v):
        if self._s is None and not is_sym(v):
            return list.remove(self, v)
        m = first_match(self.segs(), v)
        if m is None:
            raise ValueError("list.remove(x): x not in list")
        n = segs_len(self.segs())
        self.set_segs(cut(self.segs(), z3.IntVal(0), m) + cut(self.segs(), m + 1, n))

    def sort(self, *a, **k):
        if self._s is None:
            return list.sort(self, *a, **k)
        self.set_segs(sorted_segs(self.segs(), **k))

    def reverse(self):
        if self._s is None:
            return list.reverse(self)
        raise Unsupported("reverse() of symbolic list")

    def count(self, v):
        if self._s is None:
            return list.count(self, v)
        raise Unsupported("count() of symbolic list")

    def clear(self):
        self.set_segs([])

    def __deepcopy__(self, memo):
        import copy
        if self._s is None:
            return VList([copy.deepcopy(x, memo) for x in list.__iter__(self)])
        return VList.of(self.segs())

    def __reduce_ex__(self, proto):
        if self._s is None:
            return (list, (list(list.__iter__(self)),))
        raise Unsupported("pickling of a symbolic list")

    def __repr__(self):
        if self._s is None:
            return list.__repr__(self)
        return "[" + show_segs(self._s) + "]"

    __str__ = __repr__


class Mem(object):
    """contents of a dictionary with symbolic keys: has(key term), value(key term)"""
    def __init__(self, has, value, wrapkey):
        self.has, self.value, self.wrapkey = has, value, wrapkey


class _MemSlot(object):
    def __repr__(self):
        return "contents"


MEM = _MemSlot()


class VDict(dict):
    """dictionary; with keys from an indexed family its contents are functions of the key"""
    _mem = None

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        if Path.cur is not None:
            P().heap.append(HDict(self))
            if any(isinstance(q, Ind) for q in dict.keys(self)):
                items = list(dict.items(self))
                dict.clear(self)
                for q, v in items:
                    self[q] = v

    @staticmethod
    def _key(q):
        if not isinstance(q, Ind):
            raise Unsupported("key %r of a dictionary with symbolic keys" % (q,))
        return q.idx

    def __contains__(self, q):
        if self._mem is None:
            if isinstance(q, Ind) and not dict.__len__(self):
                return False
            return dict.__contains__(self, q)
        return P().branch(self._mem.has(self._key(q)))

    def __setitem__(self, q, v):
        if self._mem is None and not (isinstance(q, Ind) and not dict.__len__(self)):
            return dict.__setitem__(self, q, v)
        t = self._key(q)
        m = self._mem or Mem(lambda x: z3.BoolVal(False), None, q.rewrap)
        old = m.value

        def value(x):
            if old is None:
                return v
            o = old(x)
            return o if o is v else core.v_merge([(x == t, v), (x != t, o)])
        self._mem = Mem(lambda x: z3.Or(x == t, m.has(x)), value, m.wrapkey)

    def __getitem__(self, q):
        if self._mem is None:
            return dict.__getitem__(self, q)
        t = self._key(q)
        if not P().branch(self._mem.has(t)):
            raise KeyError(q)
        return self._mem.value(t)

    def get(self, q, default=None):
        if self._mem is None:
            return dict.get(self, q, default)
        return self[q] if q in self else default

    def setdefault(self, q, v=None):
        if self._mem is None and not isinstance(q, Ind):
            return dict.setdefault(self, q, v)
        if q not in self:
            self[q] = v
        return self[q]

    def __len__(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("__len__ of a dictionary with symbolic keys")
        return dict.__len__(self, *a, **k)

    def __iter__(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("__iter__ of a dictionary with symbolic keys")
        return dict.__iter__(self, *a, **k)

    def keys(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("keys of a dictionary with symbolic keys")
        return dict.keys(self, *a, **k)

    def values(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("values of a dictionary with symbolic keys")
        return dict.values(self, *a, **k)

    def items(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("items of a dictionary with symbolic keys")
        return dict.items(self, *a, **k)

    def pop(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("pop of a dictionary with symbolic keys")
        return dict.pop(self, *a, **k)

    def popitem(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("popitem of a dictionary with symbolic keys")
        return dict.popitem(self, *a, **k)

    def update(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("update of a dictionary with symbolic keys")
        return dict.update(self, *a, **k)

    def clear(self, *a, **k):
        self._mem = None
        return dict.clear(self, *a, **k)

    def __delitem__(self, *a, **k):
        if self._mem is not None:
            raise Unsupported("__delitem__ of a dictionary with symbolic keys")
        return dict.__delitem__(self, *a, **k)

    def __deepcopy__(self, memo):
        import copy
        return VDict({copy.deepcopy(k, memo): copy.deepcopy(v, memo) for k, v in self.items()})

    def copy(self):
        r = VDict(dict.items(self))
        r._mem = self._mem
        return r

    def __reduce_ex__(self, proto):
        return (dict, (dict(self),))


class VTuple(Sym):
    """tuple of symbolic length (result of tuple()/slices of symbolic sequences)"""
    def __init__(self, segs):
        object.__setattr__(self, "_segs", segs)

    def segs(self):
        return self._segs

    def vc_len(self):
        return wrap(segs_len(self._segs))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return VTuple(slice_segs(self._segs, i))
        return seq_get(self._segs, i)

    def __bool__(self):
        return P().branch(segs_len(self._segs) > 0)

    def __repr__(self):
        return "(%s)" % show_segs(self._segs)


def _seq_repeat(o, n):
    cnt = z3.If(n.t > 0, n.t, z3.IntVal(0))
    items = [Item(x) for x in o]
    segs = [Rep(cnt, lambda j: list(items))]
    return VTuple(segs) if isinstance(o, tuple) else VList.of(segs)


core.SEQ_REPEAT[0] = _seq_repeat


class VIter(Sym):
    """Any symbolic iterable: its elements are `segs`."""
    def __init__(self, segs, name="iter", oneshot=False):
        object.__setattr__(self, "_segs", segs)
        object.__setattr__(self, "name", name)

    def segs(self):
        return self._segs

    def vc_len(self):
        return wrap(segs_len(self._segs))

    def __iter__(self):
        return self

    def __next__(self):
        raise Unsupported("native iteration over symbolic iterable")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return VIter(slice_segs(self._segs, i))
        return seq_get(self._segs, i)

    def __bool__(self):
        return P().branch(segs_len(self._segs) > 0)

    def __repr__(self):
        return "<iter %s>" % self.name


def seq_segs(v):
    if isinstance(v, VList):
        return list(v.segs())
    if isinstance(v, (VTuple, VIter)):
        return list(v.segs())
    if isinstance(v, SSeq):
        return list(v.segs)
    if isinstance(v, (list, tuple)):
        return [Item(x) for x in v]
    if hasattr(type(v), "vc_segs"):
        return v.vc_segs()
    if is_sym(v):
        raise Unsupported("iteration over %r" % (v,))
    f = getattr(type(v), "__iter__", None)
    if f is not None and "__vc__" in getattr(f, "__globals__", {}):
        # an iterator method of the verified code: run it (it may delegate to a symbolic list)
        it = v.__iter__()
        return seq_segs(it) if not isinstance(it, types.GeneratorType) else [Item(x) for x in it]
    return [Item(x) for x in v]


def has_symbolic_segs(v):
    if isinstance(v, VList):
        return v.sym
    if isinstance(v, (VTuple, VIter)):
        return not all(isinstance(s, Item) for s in core._norm(v.segs()))
    return hasattr(type(v), "vc_segs")


def norm_index(i, n, msg):
    p = P()
    it = num_term(i)
    if p.branch(it < 0):
        it = it + n
    if p.branch(z3.Or(it < 0, it >= n)):
        raise IndexError(msg)
    return z3.simplify(it)


def slice_bounds(n, s):
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        raise Unsupported("symbolic slice with a step")

    def bound(x, default):
        if x is None:
            return default
        t = num_term(x)
        return z3.simplify(z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t)))
    n = n if z3.is_expr(n) else z3.IntVal(n)
    a = bound(s.start, z3.IntVal(0))
    b = bound(s.stop, n)
    return a, b


def cut(segs, a, b):
    """sub-sequence [a,b) (0<=a<=b<=len assumed) as segments; forks where needed."""
    p = P()
    out = []
    pos = z3.IntVal(0)
    a, b = z3.simplify(a), z3.simplify(b)
    for s in segs:
        ln = seg_len(s)
        end = z3.simplify(pos + ln)
        if isinstance(s, Item):
            inside = z3.And(a <= pos, pos < b)
            if prove_bool(inside):
                out.append(s)
            elif prove_bool(z3.Not(inside)):
                pass
            else:
                out.append(Guard(z3.simplify(inside), [s]))
        elif isinstance(s, Rep):
            j = z3.FreshConst(z3.IntSort(), "cutj")
            one = len(core._norm(s.seg(j))) == 1 and isinstance(core._norm(s.seg(j))[0], Item)
            if one:
                lo = z3.If(a > pos, a - pos, z3.IntVal(0))
                hi = z3.If(b < end, b - pos, s.count)
                lo, hi = _simp(lo), _simp(hi)
                cnt = _simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
                if not (z3.is_int_value(cnt) and cnt.as_long() == 0):
                    out.append(Rep(cnt, (lambda seg, lo: (lambda j: seg(j + lo)))(s.seg, lo)))
            else:
                if prove_bool(z3.And(a <= pos, end <= b)):
                    out.append(s)
                elif prove_bool(z3.Or(b <= pos, end <= a)):
                    pass
                else:
                    raise Unsupported("slice through a compound repetition")
        else:
            if prove_bool(z3.And(a <= pos, end <= b)):
                out.append(s)
            elif prove_bool(z3.Or(b <= pos, end <= a)):
                pass
            else:
                raise Unsupported("slice through a guarded segment")
        pos = end
    return out


def first_match(segs, v):
    """index of the first element equal to v (None: there is none)"""
    p = P()
    off = z3.IntVal(0)
    for s in core._norm(segs):
        if isinstance(s, Item):
            if s.v is v or p.branch(_z(v_eq(s.v, v))):
                return z3.simplify(off)
            off = off + 1
            continue
        n = segs_len([s])
        j = z3.FreshConst(z3.IntSort(), "fj")
        try:
            known = p.globals.get("member", {}).get((str(n), show(seq_at([s], z3.Int("vc_member_j"))), show(v)))
        except (Unsupported, CannotMerge):
            known = None
        if known if known is not None else p.branch(p.fresh("found", z3.BoolSort())):
            m = p.fresh("first", z3.IntSort())
            p.assume(z3.And(m >= 0, m < n))
            p.assume(_z(v_eq(seq_at([s], m), v)))
            p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Not(_z(v_eq(seq_at([s], j), v))))), quantified=True)
            if not p.feasible():
                raise PathEnd()
            return z3.simplify(off + m)
        p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(_z(v_eq(seq_at([s], j), v))))), quantified=True)
        if not p.feasible():
            raise PathEnd()
        off = off + n
    return None


def sym_contains(segs, v):
    """decide membership: a witness index, or the universal negation"""
    p = P()
    segs = core._norm(segs)
    rest = []
    for s in segs:
        if isinstance(s, Item):
            if s.v is v or (s.v == v):
                return True
        else:
            rest.append(s)
    if not rest:
        return False
    n = segs_len(rest)
    hj = z3.Int("vc_member_j")
    memo = p.globals.setdefault("member", {})
    try:
        mkey = (str(n), show(seq_at(rest, hj)), show(v))
    except (Unsupported, CannotMerge):
        mkey = None
    if mkey in memo:
        return memo[mkey]
    inside = p.branch(p.fresh("member", z3.BoolSort()))
    if mkey is not None:
        memo[mkey] = inside
    if inside:
        w = p.fresh("wit", z3.IntSort())
        p.assume(z3.And(w >= 0, w < n))
        p.assume(_z(v_eq(seq_at(rest, w), v)))
        if not p.feasible():
            raise PathEnd()
        return True
    j = p.fresh("q", z3.IntSort())
    p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(_z(v_eq(seq_at(rest, j), v))))), quantified=True)
    return False


def _simp(t):
    """Resolve if-then-else whose condition is decided on the current path."""
    t = z3.simplify(t)
    n = 0
    while z3.is_app_of(t, z3.Z3_OP_ITE) and n < 4:
        c, x, y = t.children()
        if prove_bool(c):
            t = z3.simplify(x)
        elif prove_bool(z3.Not(c)):
            t = z3.simplify(y)
        elif x.sort() == z3.IntSort() and not z3.is_app_of(y, z3.Z3_OP_ITE) and prove_bool(z3.Implies(c, x == y)):
            t = z3.simplify(y)
        elif x.sort() == z3.IntSort() and not z3.is_app_of(x, z3.Z3_OP_ITE) and prove_bool(z3.Implies(z3.Not(c), x == y)):
            t = z3.simplify(x)
        else:
            break
        n += 1
    return t


def slice_segs(segs, s):
    n = segs_len(segs)
    if s.step is not None and isinstance(s.step, int) and s.step == -1 and s.start is None and s.stop is None:
        return rev_segs(segs)
    a, b = slice_bounds(n, s)
    b = z3.simplify(z3.If(b < a, a, b))
    return cut(segs, a, b)


def rev_segs(segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, Item):
            out.append(s)
        elif isinstance(s, Guard):
            out.append(Guard(s.cond, rev_segs(s.segs)))
        else:
            out.append(Rep(s.count, (lambda s: (lambda j: rev_segs(s.seg(s.count - 1 - j))))(s)))
    return out


def seq_get(segs, i):
    """element i; forks on which segment it falls in"""
    p = P()
    if type(i) is int and i < 0 and len(segs) >= -i and all(isinstance(x, Item) for x in segs[i:]):
        return segs[i].v
    if type(i) is int and 0 <= i < len(segs) and all(isinstance(x, Item) for x in segs[:i + 1]):
        return segs[i].v
    n = segs_len(segs)
    k = norm_index(i, n, "list index out of range")
    pos = z3.IntVal(0)
    for s in segs:
        end = z3.simplify(pos + seg_len(s))
        if p.branch(k < end):
            if isinstance(s, Item):
                return s.v
            if isinstance(s, Guard):
                return seq_get(s.segs, wrap(k - pos))
            j = z3.simplify(k - pos)
            inner = core._norm(s.seg(j))
            if len(inner) == 1 and isinstance(inner[0], Item):
                return inner[0].v
            # constant-size compound repetition
            h = z3.FreshConst(z3.IntSort(), "gj")
            size = segs_len(s.seg(h))
            if z3.is_int_value(size):
                q, r = pydivmod(j, size)
                return seq_get(s.seg(z3.simplify(q)), wrap(r))
            raise Unsupported("indexing a compound repetition")
        pos = end
    raise PathEnd()


def _varying(segs):
    try:
        segs_len(segs)
        return False
    except Unsupported:
        return True


def nonempty(segs):
    """the sequence has an element (a formula)"""
    cs = []
    for s in segs:
        if isinstance(s, Item):
            return z3.BoolVal(True)
        if isinstance(s, Guard):
            cs.append(z3.And(s.cond, nonempty(s.segs)))
        elif isinstance(s, Rep):
            j = P().fresh("ne", z3.IntSort())
            c = z3.simplify(nonempty(s.seg(j)))
            if z3.is_true(c):
                cs.append(s.count > 0)
            else:
                cs.append(z3.Exists([j], z3.And(j >= 0, j < s.count, c)))
        else:
            raise Unsupported("emptiness of a loop-carried list")
    return z3.simplify(z3.Or(*cs)) if cs else z3.BoolVal(False)


def split_last(segs):
    """-> (segments before, last element), or None if empty; forks"""
    p = P()
    segs = list(core._norm(segs))
    while segs:
        s = segs.pop()
        if isinstance(s, Item):
            return segs, s.v
        if isinstance(s, Guard):
            if p.branch(s.cond):
                segs += core._norm(s.segs)
            continue
        if not isinstance(s, Rep):
            raise Unsupported("end of a loop-carried list")
        j = p.fresh("ne", z3.IntSort())
        c = z3.simplify(nonempty(s.seg(j)))
        if z3.is_true(c):
            if p.branch(s.count > 0):
                last = z3.simplify(s.count - 1)
                segs += [Rep(last, s.seg)] + list(core._norm(s.seg(last)))
            continue
        none_after = lambda lo: z3.ForAll([j], z3.Implies(z3.And(j > lo, j < s.count), z3.Not(c)))
        if p.branch(p.fresh("some", z3.BoolSort())):
            w = p.fresh("lastwit", z3.IntSort())
            p.assume(z3.And(w >= 0, w < s.count, z3.substitute(c, (j, w))))
            p.assume(none_after(w), quantified=True)
            segs += [Rep(w, s.seg)] + list(core._norm(s.seg(w)))
        else:
            p.assume(none_after(z3.IntVal(-1)), quantified=True)
    return None


def seq_at(segs, k):
    """element at (in-range) index term k without forking (ite-merged)"""
    pos = z3.IntVal(0)
    alts = []
    for s in segs:
        end = z3.simplify(pos + seg_len(s))
        if isinstance(s, Item):
            alts.append((k < end, s.v))
        elif isinstance(s, Guard):
            alts.append((z3.And(s.cond, k < end), seq_at(s.segs, k - pos)))
        else:
            inner = core._norm(s.seg(z3.simplify(k - pos)))
            if len(inner) != 1 or not isinstance(inner[0], Item):
                raise Unsupported("element of a compound repetition")
            alts.append((k < end, inner[0].v))
        pos = end
    if not alts:
        raise PathEnd()
    return v_merge(alts)


def sorted_segs(segs, key=None, reverse=False):
    """a stable permutation of the elements with ordered keys (contract of list.sort)"""
    p = P()
    segs = list(segs)
    j = z3.Int(p.fresh_name("sort_j"))
    i = z3.Int(p.fresh_name("sort_i"))
    cond = None
    if len(segs) == 1 and isinstance(segs[0], Rep):
        inner = core._norm(segs[0].seg(j))
        if len(inner) == 1 and isinstance(inner[0], Guard) and len(inner[0].segs) == 1 and isinstance(inner[0].segs[0], Item):
            # a selection of the elements
            cond, x = inner[0].cond, inner[0].segs[0].v
            n = segs[0].count
            m = p.fresh("selected", z3.IntSort())
            p.assume(z3.And(m >= 0, m <= n))
            elem = lambda t: core._norm(segs[0].seg(t))[0].segs[0].v
    if cond is None:
        n = m = segs_len(segs)
        x = seq_at(segs, j)
        elem = lambda t: seq_at(segs, t)
    n0 = len(p.pc)
    K = term(rt.call(key, x) if key is not None else x)
    if len(p.pc) != n0:
        raise Unsupported("sort key that depends on a condition")
    if K.sort() not in (z3.IntSort(), z3.RealSort()):
        raise Unsupported("sort by keys of type %s" % K.sort())
    perm = z3.Function(p.fresh_name("perm"), z3.IntSort(), z3.IntSort())
    inv = z3.Function(p.fresh_name("perm_inv"), z3.IntSort(), z3.IntSort())
    at = lambda t: z3.substitute(K, (j, t))
    rng = z3.And(0 <= j, j < m)
    sel = (lambda t: z3.BoolVal(True)) if cond is None else (lambda t: z3.substitute(cond, (j, t)))
    p.assume(z3.ForAll([j], z3.Implies(rng, z3.And(0 <= perm(j), perm(j) < n, inv(perm(j)) == j, sel(perm(j)))), patterns=[perm(j)]), quantified=True)
    p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, sel(j)), z3.And(0 <= inv(j), inv(j) < m, perm(inv(j)) == j)), patterns=[inv(j)]), quantified=True)
    a, b = at(perm(i)), at(perm(j))
    order = z3.Or(a > b if reverse else a < b, z3.And(a == b, perm(i) < perm(j)))
    p.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), order), patterns=[z3.MultiPattern(perm(i), perm(j))]), quantified=True)
    rt.last_sort = (perm, inv)
    return [Rep(m, lambda t: [Item(elem(perm(t)))])]


# ================================================================= loops
class LoopState(object):
    """Summarisation of one loop instance."""
    def __init__(self, key):
        self.key = key
        self.mod = []            # ordered locs
        self.round = 0
        self.nonuniform = False
        self.kinds = {}
        self.lazy = set()        # locals unbound before the loop, assigned in the body before any read
        self.nolazy = set()
        self.folded = set()      # locs described by uninterpreted folds only
        self.trylazy = set()     # locals bound before the loop, tried as overwritten before any read
        self.reset()

    def reset(self):
        self.results = []        # (cond, post)
        self.entry = None
        self.k = None
        self.hv = {}
        self.declared = {}       # loc -> fn(k): closed form given by the contract
        self.n_at_head = None


class Summary(object):
    def __init__(self):
        self.closed = {}         # loc -> fn(k) -> value | None (poison)
        self.mod = []
        self.nonuniform = False
        self.normal = None       # fn(k) -> z3 Bool or None
        self.lazy = set()
        self.split_iter = False
        self.needs_pos = set()   # locs whose closed form holds only for k>0


def _snapshot(locals_, mods, roots_extra=()):
    """All locations: locals modified by the loop + the tracked heap."""
    snap = {}
    for m in mods:
        snap[("L", m)] = locals_.get(m, UNBOUND)
    p = P()
    for i, h in enumerate(p.heap):
        for s, v in h.get().items():
            snap[("H", i, s)] = v
    return snap


_SKIP_MOD = ("numpy", "scipy", "z3", "builtins", "pyvc")


def _autotrack(locals_):
    """Track every object of the verified packages reachable from the locals; collect raw containers."""
    p = P()
    known = {id(h.ref) for h in p.heap}
    seen = set()
    raw = []
    todo = list(locals_.values()) + [h.ref for h in p.heap]
    while todo:
        v = todo.pop()
        if id(v) in seen or v is None or isinstance(v, (str, int, float, type, types.FunctionType, types.ModuleType)):
            continue
        seen.add(id(v))
        if isinstance(v, VList):
            if not v.sym:
                todo.extend(list.__iter__(v))
            continue
        if isinstance(v, VDict):
            todo.extend(dict.values(v))
            continue
        if isinstance(v, Cell):
            continue
        if is_sym(v):
            continue
        if isinstance(v, (tuple,)):
            todo.extend(v)
            continue
        if isinstance(v, types.MethodType):
            todo.append(v.__self__)
            continue
        if isinstance(v, list):
            raw.append((v, list(v)))
            todo.extend(v)
            continue
        if isinstance(v, dict):
            raw.append((v, dict(v)))
            todo.extend(v.values())
            continue
        if isinstance(v, set):
            raw.append((v, set(v)))
            continue
        mod = type(v).__module__ or ""
        if mod.split(".")[0] in ("mdp", "bimdp", "contracts", "__main__"):
            d = getattr(v, "__dict__", None)
            if isinstance(d, dict):
                if id(v) not in known and not getattr(type(v), "_vc_ghost", False):
                    p.heap.append(HInst(v))
                    known.add(id(v))
                todo.extend(d.values())
    return raw


def _raw_changed(raw):
    for obj, copy_ in raw:
        try:
            if type(copy_) is list:
                if len(obj) != len(copy_) or any(a is not b for a, b in zip(obj, copy_)):
                    return True
            elif type(copy_) is dict:
                if set(map(id, obj.keys())) != set(map(id, copy_.keys())) or any(obj[k] is not copy_[k] for k in copy_):
                    return True
            elif obj != copy_:
                return True
        except Exception:
            return True
    return False


def _same(a, b):
    """syntactic identity (for frame detection)"""
    if a is b:
        return True
    if a is UNBOUND or b is UNBOUND or a is MISSING or b is MISSING:
        return False
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        if len(a.segs) != len(b.segs):
            return False
        for x, y in zip(a.segs, b.segs):
            if x is y:
                continue
            if isinstance(x, Item) and isinstance(y, Item) and _same(x.v, y.v):
                continue
            if isinstance(x, Hole) and isinstance(y, Hole) and x.loc == y.loc and x.key == y.key:
                continue
            return False
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        e = v_eq(a, b)
        if e is True:
            return True
        return z3.is_expr(e) and z3.is_true(z3.simplify(e))
    if isinstance(a, (int, float, str, bool, type(None))) and type(a) is type(b):
        return a == b
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a.__self__ is b.__self__ and a.__func__ is b.__func__
    return False


def _restore(loc, v, hv, heap):
    if loc[0] == "L":
        hv[loc[1]] = v if v is not UNBOUND else Poison("unbound local " + loc[1])
    else:
        heap[loc[1]].set(loc[2], v)


_HOLE = "vc_hole"


def _spec_error(f):
    """an error in a specification is no exception of the program"""
    def g(*a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            raise Unsupported("error in a loop invariant: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-800:]))
    return g


class BaseLoop(object):
    def __init__(self, rt, site, mods):
        self.rt, self.site, self.mods = rt, site, mods
        self.hv = {}
        self.item = None
        self.phase = None

    def leave(self):
        if self.phase == "sum":
            raise PathEnd()

    # ---- loops with an invariant stated in the contract
    @_spec_error
    def _find_spec(self, locals_):
        for mk in (() if getattr(self, "comprehension", False) else self.rt.hoare):
            spec = mk(self, locals_)
            if spec is not None:
                return spec
        return None

    @_spec_error
    def _hoare_enter(self, spec, locals_, count):
        """initiation, then an arbitrary state satisfying the invariant; -> False after the last element"""
        p = P()
        if p.ctx:
            raise Unsupported("a loop with a declared invariant inside a summarised loop")
        self.raw = _autotrack(locals_)
        self.base_heap = len(p.heap)
        self.spec, self.count = spec, count
        self._spec_locals("initially", locals_)
        spec.check("initially", z3.IntVal(0))
        more = True
        if count is None:
            k = None
        elif p.choose(2, "loop") == 0:
            k = p.fresh("k", z3.IntSort())
            p.assume(z3.And(k >= 0, k < count))
        else:
            k, more = count, False
        self.k = k
        spec.havoc(k)
        self.hv = {}
        for m in self.mods:
            if m in locals_:
                self.hv[m] = Poison("local %s after an iteration of the loop at %s" % (m, self.site))
        if hasattr(spec, "havoc_locals"):
            self.hv.update(spec.havoc_locals({m: locals_[m] for m in self.mods if m in locals_}))
        self.cur_head = _snapshot({}, ())
        self.phase = "hoare" if more else None
        return more

    def _spec_locals(self, when, locals_):
        if hasattr(self.spec, "check_locals"):
            self.spec.check_locals(when, {m: locals_[m] for m in self.mods if m in locals_})

    @_spec_error
    def _hoare_back(self, locals_):
        """second arrival at the loop head"""
        p = P()
        spec = self.spec
        if hasattr(spec, "resume") and spec.resume():
            self.phase = None       # simply unrolled
            return True
        self._spec_locals("preserved", locals_)
        if _raw_changed(self.raw):
            raise Unsupported("loop at %s mutates an untracked container" % self.site)
        spec.check("preserved", None if self.k is None else self.k + 1)
        mod = {id(o) for o in spec.objects}
        for loc, v in _snapshot({}, ()).items():
            if loc[1] >= self.base_heap or id(p.heap[loc[1]].ref) in mod:
                continue
            h = self.cur_head.get(loc, MISSING)
            if not _same(h, v):
                self.rt.oblige_eq("loop frame [%s]" % _locname(loc), v, h)
        raise PathEnd()

    # ---- symbolic driver shared by for and while
    def _begin(self, locals_, count):
        """count: z3 term or None (while)."""
        p = P()
        ex = p.explorer
        self.raw = _autotrack(locals_)
        self.key = (tuple(p.decisions), p.nloops, self.site)
        p.nloops += 1
        self.base_heap = len(p.heap)
        self.head = _snapshot(locals_, self.mods)
        st = ex.active.get(self.key)
        self.count = count
        self.head_counts = dict(p.counts)
        k = p.fresh("k", z3.IntSort())
        self.k = k
        if st is not None:
            return self._begin_sum(st, k, count, locals_)
        summ = ex.summaries.get((p.ctx, self.key))
        if summ is None:
            raise NeedSummary((p.ctx, self.key), list(p.decisions))
        self.summ = summ
        self.phase = "main"
        nexit = 0 if count is None else p.choose(2, "loop")
        entry_pc = len(p.pc)
        if nexit == 0:
            # arbitrary iteration k
            p.assume(k >= 0)
            if count is not None:
                p.assume(k < count)
            self._assume_normal(k)
            at_zero = False
            if summ.split_iter and p.branch(k == 0):
                at_zero = True
            # initiation obligations
            self._init_obligations()
            self._set_state(None if at_zero else k, summ.lazy)
            self.mode = "iter"
            return True
        n = z3.simplify(count)
        if not z3.is_int_value(n) and p.feasible(n < 0):
            n = z3.simplify(z3.If(count > 0, count, z3.IntVal(0)))
        elif z3.is_int_value(n) and n.as_long() < 0:
            n = z3.IntVal(0)
        p.assume(z3.BoolVal(True))
        self._assume_normal(n)
        if summ.nonuniform and p.branch(n == 0):
            self._set_state(None)
        else:
            self._set_state(n)
        self.mode = "exit"
        return False

    def _assume_normal(self, k):
        p = P()
        f = self.summ.normal
        if f is None:
            return
        j = z3.FreshConst(z3.IntSort(), "nj")
        body = f(j)
        if body is None:
            return
        p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), body)), quantified=True)
        for inst in (k - 1, z3.IntVal(0)):
            b = f(inst)
            p.assume(z3.Implies(z3.And(inst >= 0, inst < k), b))

    def _init_obligations(self):
        p = P()
        for loc in self.summ.mod:
            c = self.summ.closed.get(loc)
            if c is None or loc in self.summ.needs_pos:
                continue
            try:
                v = c(z3.IntVal(0))
            except CannotMerge:
                continue
            self.rt.oblige_eq("loop invariant initially [%s]" % _locname(loc), self.head.get(loc, MISSING), v)

    def _set_state(self, k, lazy=()):
        """state after k iterations (k None: entry state)"""
        p = P()
        self.hv = {}
        self.cur_head = dict(self.head)
        if k is None:
            return
        for loc in self.summ.mod:
            c = self.summ.closed.get(loc)
            if c is None or loc in lazy:
                v = Poison("%s after loop at %s" % (_locname(loc), self.site))
            else:
                v = c(k)
            self.cur_head[loc] = v
            _restore(loc, v, self.hv, p.heap)

    def _begin_sum(self, st, k, count, locals_):
        p = P()
        self.phase = "sum"
        self.st = st
        p.ctx = p.ctx + ((self.key, st.round),)
        p.suppress += 1
        p.assume(k >= 0)
        if count is not None:
            p.assume(k < count)
        st.entry = dict(self.head)
        st.k = k
        st.count = count
        st.entry_pc = list(p.pc)
        st.head_counts = self.head_counts
        st.entry_facts = list(p.facts)
        st.axioms = list(p.axioms)
        self.pc0 = len(p.pc)
        self.dec0 = len(p.decisions)
        self.hv = {}
        self.cur_head = dict(self.head)
        st.zero_possible = False
        # havoc symbols are created before the k==0 split so that all paths share them
        syms = {}
        for loc in st.mod:
            fn = self._declared(st, loc)
            syms[loc] = self._havoc_value(st, loc) if fn is None else fn(k)
        st.hv = syms
        at_zero = False
        if st.nonuniform:
            at_zero = p.branch(k == 0)
        for loc in st.mod:
            if at_zero:
                # at the first iteration a location holds its entry value: keep the same symbol where
                # the entry value has the kind of the later ones, so that all paths share one form
                v0 = st.entry.get(loc, MISSING)
                if _absent(v0) or isinstance(v0, Poison) or isinstance(syms[loc], Poison):
                    continue
                if not isinstance(syms[loc], SSeq):
                    if v_kind(v0) != v_kind(syms[loc]):
                        continue
                    e = v_eq(syms[loc], v0)
                    if e is False:
                        continue
                    if e is not True:
                        p.assume(e)
            self.cur_head[loc] = syms[loc]
            _restore(loc, syms[loc], self.hv, p.heap)
        self.at_zero = at_zero
        self.name_counts = dict(p.counts)
        return True

    def _declared(self, st, loc):
        """closed form declared in the contract for this location (checked like any other: initially, preserved)"""
        v0 = st.entry.get(loc, MISSING)
        if _absent(v0) or isinstance(v0, Poison):
            return None
        for pred, fn in self.rt.invariants:
            if pred(loc, v0):
                st.declared[loc] = lambda j, fn=fn, v0=v0: fn(j if z3.is_expr(j) else z3.IntVal(j), v0)
                return st.declared[loc]
        return None

    def _havoc_value(self, st, loc):
        kind = st.kinds.get(loc)
        if loc in st.lazy:
            return Poison("lazy %s" % _locname(loc), (st.key, loc))
        if kind == "seq":
            e = st.entry.get(loc)
            # unknown prefix: one opaque repetition of length `hole`
            return SSeq([Hole(loc, st.key)])
        v = v_fresh(kind, "hv_" + _locname(loc)) if kind is not None else None
        if v is None:
            return Poison("loop-carried %s" % _locname(loc))
        return v

    def _record(self, locals_):
        p = P()
        st = self.st
        if _raw_changed(self.raw):
            raise Unsupported("loop at %s mutates an untracked container" % self.site)
        post = _snapshot(locals_, self.mods)
        changed = []
        for loc, v in post.items():
            if loc[0] == "H" and loc[1] >= self.base_heap:
                continue
            h = self.cur_head.get(loc, MISSING)
            if not _same(h, v):
                changed.append((loc, h, v))
        for loc in self.cur_head:
            if loc not in post:
                changed.append((loc, self.cur_head[loc], MISSING))
        cond = [c for c in p.pc[self.pc0:]]
        st.axioms = st.axioms + p.axioms
        st.results.append((cond, post, dict(self.cur_head), changed, self.at_zero, len(p.counts)))
        raise PathEnd()

    def _preserve(self, locals_):
        """second arrival at the loop head on the arbitrary-iteration path"""
        p = P()
        if _raw_changed(self.raw):
            raise Unsupported("loop at %s mutates an untracked container" % self.site)
        post = _snapshot(locals_, self.mods)
        mod = set(self.summ.mod)
        for loc, v in post.items():
            if loc[0] == "H" and loc[1] >= self.base_heap:
                continue
            if loc in mod:
                c = self.summ.closed.get(loc)
                if c is None:
                    continue
                want = c(self.k + 1)
                self.rt.oblige_eq("loop invariant preserved [%s]" % _locname(loc), v, want)
            else:
                h = self.cur_head.get(loc, MISSING)
                if not _same(h, v):
                    self.rt.oblige_eq("loop frame [%s]" % _locname(loc), v, h)
        raise PathEnd()


class Hole(object):
    """Opaque prefix of a list in a loop summary (segment)."""
    def __init__(self, loc, key):
        self.loc, self.key = loc, key


def _locname(loc):
    return loc[1] if loc[0] == "L" else "heap%d.%s" % (loc[1], loc[2])


class ForLoop(BaseLoop):
    def __init__(self, rt, it, site, mods):
        BaseLoop.__init__(self, rt, site, mods)
        self.sym = False
        if Path.cur is not None and _is_symbolic_iterable(it):
            segs = core._norm(seq_segs(it))
            if not all(isinstance(s, Item) for s in segs):
                self.sym = True
                self.segs = segs
                self.started = False
                # leading/trailing concrete items are peeled, the middle is one repetition
                self.queue = list(segs)
            else:
                it = [s.v for s in segs]
        if not self.sym:
            self.it = iter(it)

    def next(self, locals_):
        self.hv = {}
        if not self.sym:
            try:
                self.item = next(self.it)
            except StopIteration:
                return False
            return True
        return self._next_sym(locals_)

    def _next_sym(self, locals_):
        if self.phase == "hoare":
            self._hoare_back(locals_)
        if self.phase == "sum":
            self._record(locals_)
        if self.phase == "main":
            if self.mode == "iter":
                self._preserve(locals_)
        while True:
            if not self.queue:
                return False
            s = self.queue[0]
            if isinstance(s, Item):
                self.queue.pop(0)
                self.phase = None
                self.item = s.v
                return True
            if isinstance(s, Guard):
                self.queue.pop(0)
                if P().branch(s.cond):
                    self.queue = list(s.segs) + self.queue
                continue
            # repetition
            self.queue.pop(0)
            self.rounds = s.count
            spec = self._find_spec(locals_)
            if spec is not None:
                r = self._hoare_enter(spec, locals_, s.count)
            else:
                r = self._begin(self._with_hv(locals_), s.count)
            if r:
                inner = core._norm(s.seg(self.k))
                if len(inner) != 1 or not isinstance(inner[0], Item):
                    raise Unsupported("iteration over a compound repetition")
                self.item = inner[0].v
                return True
            # exit of this repetition: continue with the rest, the state was set to closed(n)
            self.phase = None
            self._carried = dict(getattr(self, "_carried", {}))
            self._carried.update(self.hv)

    def _with_hv(self, locals_):
        c = getattr(self, "_carried", None)
        if c:
            locals_ = dict(locals_)
            locals_.update(c)
            self._carried = {}
        return locals_


class WhileLoop(BaseLoop):
    LIMIT = 4

    def __init__(self, rt, site, mods):
        BaseLoop.__init__(self, rt, site, mods)
        self.n = 0
        self.d0 = len(P().decisions) if Path.cur is not None else 0
        self.sym = Path.cur is not None and (site in P().explorer.sym_while or rt.all_while)

    def next(self, locals_):
        self.hv = {}
        self.item = None
        if Path.cur is None:
            return True
        if self.phase == "hoare":
            self._hoare_back(locals_)
            self.n += 1
            return True
        if self.n == 0 and self.phase is None:
            spec = self._find_spec(locals_)
            if spec is not None:
                return self._hoare_enter(spec, locals_, None)
        if not self.sym:
            self.n += 1
            if self.n > self.LIMIT and len(P().decisions) - self.d0 >= self.LIMIT:
                P().explorer.sym_while.add(self.site)
                raise RestartUnit()
            if self.n > 5000:
                raise Unsupported("while loop at %s does not terminate in 5000 iterations" % self.site)
            return True
        if self.phase == "sum":
            self._record(locals_)
        if self.phase == "main":
            self._preserve(locals_)
        return self._begin(locals_, None)


def _is_symbolic_iterable(it):
    if isinstance(it, VList):
        return it.sym
    if isinstance(it, (VTuple, VIter)):
        return True
    if isinstance(it, (SSeq,)):
        return True
    if hasattr(type(it), "vc_segs"):
        return True
    f = getattr(type(it), "__iter__", None)
    if f is not None and "__vc__" in getattr(f, "__globals__", {}) and not isinstance(it, types.GeneratorType):
        inner = it.__iter__()
        if inner is it:
            return False
        return _is_symbolic_iterable(inner) if isinstance(inner, (VIter, VList, VTuple)) else False
    return False


# ================================================================= explorer
class Obligation(object):
    __slots__ = ("unit", "name", "status", "backend", "detail", "time", "path")

    def __init__(self, unit, name, status, backend, detail, t, path):
        self.unit, self.name, self.status, self.backend = unit, name, status, backend
        self.detail, self.time, self.path = detail, t, path


class Explorer(object):
    def __init__(self, name, fn, max_paths=4000, max_time=300):
        self.name, self.fn = name, fn
        self.sym_while = set()
        self.max_paths, self.max_time = max_paths, max_time
        self.obligations = []
        self.outcomes = collections.Counter()
        self.notes = []

    def push(self, prefix):
        self.work.append(prefix)

    def run(self):
        t0 = time.time()
        self.deadline = t0 + self.max_time
        for attempt in range(12):
            self.obligations = []
            self.outcomes = collections.Counter()
            self.summaries = {}
            self.active = {}
            self.paths = 0
            self.work = []
            try:
                self._explore([], record=True)
                break
            except RestartUnit:
                continue
        else:
            raise Unsupported("too many restarts")
        self.wall = time.time() - t0

    def _explore(self, prefix, record):
        """explore all paths extending prefix"""
        saved = self.work
        self.work = [list(prefix)]
        try:
            while self.work:
                pre = self.work.pop()
                if time.time() > self.deadline:
                    raise Unsupported("unit %s: time budget exhausted after %d paths" % (self.name, self.paths))
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported("unit %s: more than %d paths" % (self.name, self.max_paths))
                mark_work = list(self.work)
                mark_obl = len(self.obligations)
                try:
                    self._run_path(pre, record)
                except NeedSummary as e:
                    self.work = mark_work
                    del self.obligations[mark_obl:]
                    self._summarise(e.key, e.prefix)
                    self.work.append(pre)
        finally:
            self.work = saved

    def _run_path(self, pre, record):
        prev = Path.cur
        p = Path(pre, self)
        Path.cur = p
        rt.unit = self
        try:
            try:
                self.fn(rt)
            finally:
                if p.pending is not None:
                    raise p.pending
            if record and not p.suppress:
                self.outcomes["complete"] += 1
        except PathEnd:
            if record and (not p.suppress or p.pending is not None):
                self.outcomes["cut"] += 1
        finally:
            Path.cur = prev
        return p

    # ---- loop summaries
    def _summarise(self, ctxkey, prefix):
        key = ctxkey[1]
        st = LoopState(key)
        for rnd in range(24):
            st.reset()
            st.round = rnd
            self.active[key] = st
            grown = False
            try:
                self._explore(prefix, record=False)
            except LazyRead as e:
                if e.key != key:
                    raise
                st.nolazy.add(e.loc)
                st.lazy.discard(e.loc)
                if e.loc not in st.trylazy:
                    st.nonuniform = True
                continue
            finally:
                self.active.pop(key, None)
            for cond, post, head, changed, at_zero, _ in st.results:
                for loc, h, v in changed:
                    if loc not in st.mod:
                        st.mod.append(loc)
                        grown = True
            for loc in st.mod:
                kinds = [v_kind(_u(st.entry.get(loc, MISSING)))]
                kinds += [v_kind(_u(r[1].get(loc, MISSING))) for r in st.results]
                kinds = [x for x in kinds]
                k0 = kinds[0]
                if (loc[0] == "L" and st.entry is not None
                        and (st.entry.get(loc, MISSING) is UNBOUND or isinstance(st.entry.get(loc, MISSING), Poison))
                        and loc not in st.nolazy):
                    if loc not in st.lazy:
                        st.lazy.add(loc)
                        grown = True
                rest = set(_hk(x) for x in kinds[1:])
                old = st.kinds.get(loc)
                if len(rest) == 0:
                    nk = k0
                elif len(rest) == 1:
                    nk = kinds[1]
                elif rest <= {"int", "real", "bool"}:
                    nk = "real" if "real" in rest else "int"
                else:
                    nk = None
                if nk == "poison":
                    nk = None
                if isinstance(nk, tuple) and nk[0] == "ref":
                    # same object in all paths and at entry: not really modified
                    nk = nk if k0 == nk else None
                if nk is not None and nk != k0:
                    if {nk, k0} <= {"int", "real"}:
                        nk = "real"
                    elif not st.nonuniform and loc not in st.lazy:
                        st.nonuniform = True
                        grown = True
                if old != nk and loc in st.kinds and old is None:
                    nk = None
                if old != nk or loc not in st.kinds:
                    if loc in st.kinds and old is not None and nk != old:
                        # unstable kind
                        if {nk, old} <= {"int", "real"}:
                            nk = "real"
                    if st.kinds.get(loc, MISSING) != nk:
                        grown = True
                    st.kinds[loc] = nk
            if not grown:
                st.folded = set()
                summ = solve(st, self)
                dead = set(l for l in st.folded if l[0] == "L" and l not in st.nolazy and l not in st.lazy)
                if not dead:
                    break
                # variables left over from earlier loops may just be overwritten before they are read
                st.lazy |= dead
                st.trylazy |= dead
        else:
            raise Unsupported("loop summary at %s does not stabilise" % (key[2],))
        self.summaries[ctxkey] = summ


def _u(v):
    return None if _absent(v) else v if not isinstance(v, (list,)) or True else v


def _hk(k):
    return k if not isinstance(k, list) else tuple(k)


# ================================================================= summary solving
def solve(st, ex):
    s = Summary()
    s.mod = list(st.mod)
    s.nonuniform = s.split_iter = st.nonuniform
    s.lazy = set(st.lazy)
    k = st.k
    if st.entry is None:
        # loop head never reached feasibly
        return s
    res = st.results
    prev = Path.cur
    p = Path([], ex)
    p.suppress = 1
    Path.cur = p
    try:
        for c in st.entry_pc:
            p.assume(c)
        for f in st.entry_facts:
            p.facts.append(f)
        for a in st.axioms:
            p.axiom(a)
        _solve(st, s, p)
        s.split_iter = st.nonuniform or bool(s.needs_pos - s.lazy)
    except PathEnd:
        s.split_iter = s.nonuniform
    finally:
        Path.cur = prev
    return s


def _sub_value(v, sub):
    return v_subst(v, sub) if sub else v


def _hv_consts(st):
    m = {}
    for loc, v in st.hv.items():
        if loc in st.declared:
            continue
        acc = v_consts(v) if not isinstance(v, SSeq) else {}
        for nm in acc:
            m[nm] = loc
    return m


def _solve(st, s, p):
    k = st.k
    kname = k.decl().name()
    entry = st.entry
    res = st.results
    s.closed = {}
    if not res:
        # no path returns to the head
        for loc in s.mod:
            s.closed[loc] = None
        s.normal = lambda j: z3.BoolVal(False)
        return
    hvn = _hv_consts(st)
    base_consts = {}
    for c in st.entry_pc:
        _consts_of(c, base_consts, set())
    for v in entry.values():
        try:
            v_consts(v, base_consts)
        except Unsupported:
            pass
    # merged posts
    conds = [z3.And(*r[0]) if r[0] else z3.BoolVal(True) for r in res]
    merged = {}
    for loc in s.mod:
        alts = []
        for c, r in zip(conds, res):
            v = r[1].get(loc, MISSING)
            for i, (c2, v2) in enumerate(alts):
                if _same(v, v2):
                    alts[i] = (z3.Or(c2, c), v2)
                    break
            else:
                alts.append((c, v))
        merged[loc] = alts
    _weaken(st, s, merged, conds, hvn, base_consts)
    solved = dict((l, f) for l, f in st.declared.items() if l in s.mod)      # loc -> fn(k)

    def known_sub(upto=None):
        """substitution replacing solved havoc constants by their closed form at k"""
        sub = []
        for loc, fn in solved.items():
            if loc in st.declared:
                continue
            hv = st.hv[loc]
            sub += _pairs(hv, fn(k))
        return sub

    def unsolved_in(v):
        names = v_consts(v)
        return {hvn[n] for n in names if n in hvn and hvn[n] not in solved}

    def inner_fresh(v):
        """constants created inside the body (not known at loop entry, not k, not havoc)"""
        names = v_consts(v)
        return [n for n in names if n != kname and n not in hvn and not known_at_head(n)]

    def known_at_head(n):
        if n in base_consts or "!" not in n:
            return True
        base, _, i = n.rpartition("!")
        return i.isdigit() and int(i) < st.head_counts.get(base, 0)

    cand = ex_candidates(st)
    progress = True
    pending = [l for l in s.mod if l not in solved]
    while progress and pending:
        progress = False
        for loc in list(pending):
            _refine(merged, conds, loc, known_sub())
            fn = _try_solve(st, s, p, loc, merged[loc], conds, solved, known_sub, unsolved_in, inner_fresh, cand)
            if fn is not None:
                solved[loc] = fn
                pending.remove(loc)
                progress = True
    # joint folds for the remaining scalar locations
    if pending:
        pending = _joint_fold(st, s, p, pending, merged, conds, solved, known_sub, unsolved_in, inner_fresh)
    for loc in s.mod:
        s.closed[loc] = solved.get(loc)
    # facts: earlier iterations ended normally
    sub = known_sub()

    def usable(c):
        names = {}
        _consts_of(c, names, set())
        return not any((n in hvn and hvn[n] not in solved) or (n != kname and n not in hvn and not known_at_head(n))
                       for n in names)
    parts = []
    for r in res:
        # conjuncts about things invisible outside the body are dropped (a weaker, still true fact)
        cs = [c for c in r[0] if usable(c)]
        parts.append(z3.And(*cs) if cs else z3.BoolVal(True))
    allc = z3.Or(*parts) if len(parts) > 1 else parts[0]
    allc = z3.simplify(z3.substitute(allc, *sub)) if sub else z3.simplify(allc)
    bad = not usable(allc)
    if z3.is_true(z3.simplify(allc)) or bad:
        s.normal = None
    else:
        with assuming(k >= 0):
            if prove_bool(allc):
                s.normal = None
            else:
                s.normal = lambda j: z3.substitute(allc, (k, j if z3.is_expr(j) else z3.IntVal(j)))


def _weaken(st, s, merged, conds, hvn, base_consts):
    """Exactly one alternative holds.  Conjuncts over things invisible outside the body are dropped from the
    alternatives' conditions as long as these still exclude each other."""
    kname = st.k.decl().name()

    def visible(c):
        names = {}
        _consts_of(c, names, set())
        for n in names:
            if n == kname or n in hvn or n in base_consts or "!" not in n:
                continue
            base, _, i = n.rpartition("!")
            if not (i.isdigit() and int(i) < st.head_counts.get(base, 0)):
                return False
        return True

    def weak(c):
        if visible(c):
            return c
        if z3.is_and(c):
            return z3.And(*[weak(x) for x in c.children()])
        if z3.is_or(c):
            return z3.Or(*[weak(x) for x in c.children()])
        return z3.BoolVal(True)
    for loc, alts in merged.items():
        if len(alts) < 2 or all(visible(c) for c, _ in alts):
            continue
        ws = [z3.simplify(weak(c)) for c, _ in alts]
        if any(P().feasible(z3.And(ws[i], ws[j])) for i in range(len(ws)) for j in range(i)):
            continue
        merged[loc] = [(w, v) for w, (_, v) in zip(ws, alts)]


def _refine(merged, conds, loc, sub):
    """insert what is known about other locations and drop the alternatives that became infeasible"""
    if not sub or len(merged[loc]) < 2:
        return
    alts = []
    for c, v in merged[loc]:
        c2 = z3.simplify(z3.substitute(c, *sub))
        if z3.is_false(c2) or not P().feasible(c2):
            continue
        if not _absent(v) and not isinstance(v, Poison):
            v = v_subst(v, sub)
        alts.append((c2, v))
    if alts:
        merged[loc] = alts


def _pairs(hv, val):
    if isinstance(hv, (SInt, SReal, SBool, SVal, ZT)):
        t = val.t if isinstance(val, (SVal, ZT)) else term(val)
        if t.sort() != hv.t.sort():
            if hv.t.sort() == z3.RealSort():
                t = z3.ToReal(num_term(val))
            else:
                t = num_term(val)
        return [(hv.t, t)]
    if isinstance(hv, Ind):
        return [(hv.idx, val.idx)]
    if type(hv) is tuple:
        r = []
        for a, b in zip(hv, val):
            r += _pairs(a, b)
        return r
    if hasattr(type(hv), "vc_pairs"):
        return hv.vc_pairs(val)
    return []


def ex_candidates(st):
    return list(rt.candidates)


def _at(template, k):
    """value template (containing constant k) -> function of the index"""
    def fn(j):
        j = j if z3.is_expr(j) else z3.IntVal(j)
        return v_subst(template, [(k, j)])
    return fn


def _try_solve(st, s, p, loc, alts, conds, solved, known_sub, unsolved_in, inner_fresh, cand):
    k = st.k
    v0 = st.entry.get(loc, MISSING)
    hv = st.hv[loc]
    if isinstance(hv, SSeq):
        return _solve_list(st, s, p, loc, alts, solved, known_sub, unsolved_in, inner_fresh)
    if any(a[1] is MISSING or a[1] is UNBOUND for a in alts):
        return None
    try:
        post = v_merge(alts)
    except CannotMerge:
        return None
    kind = st.kinds.get(loc)
    if isinstance(kind, tuple) and kind[0] == "ref" or kind is None:
        return None
    sub = known_sub()
    postk = _sub_value(post, sub)
    un = unsolved_in(postk)
    fresh = inner_fresh(postk)
    # 0. contract-supplied candidates
    for name, c in cand:
        if c.__code__.co_argcount == 2:
            # candidate that starts from the location's own value before the loop
            if _absent(v0) or isinstance(v0, Poison):
                continue
            c = (lambda c: lambda j: c(j, v0))(c)
        try:
            ck = c(k)
        except CannotMerge:
            continue
        if v_kind(ck) != v_kind(post) and not {v_kind(ck), v_kind(post)} <= {"int", "real"}:
            continue

        if un - {loc} or fresh:
            continue
        e0 = v_eq(v0, c(z3.IntVal(0))) if not _absent(v0) and not isinstance(v0, Poison) else False
        own = _pairs(hv, ck)
        nxt = _sub_value(postk, own)
        if e0 is False or not prove_bool(e0):
            continue
        with assuming(k >= 0, *( [k < st.count] if st.count is not None else [])):
            # under the invariant itself, the paths' conditions are discharged by the merge
            cc = z3.Or(*[z3.substitute(c_, *(own + sub)) for c_ in conds])
            with assuming(cc):
                if prove_bool(v_eq(nxt, c(k + 1))):
                    return lambda j, c=c: c(j if z3.is_expr(j) else z3.IntVal(j))
    if un == {loc} and not fresh and not st.nonuniform:
        f = _counter(st, k, v0, hv, postk, constant=True)
        if f is not None:
            return f
    # 1b. stable after the first iteration
    postnz = postk
    if st.nonuniform:
        try:
            nz = []
            for c, r in zip(conds, st.results):
                if r[4]:
                    continue
                v = r[1].get(loc, MISSING)
                for i, (c2, v2) in enumerate(nz):
                    if _same(v, v2):
                        nz[i] = (z3.Or(c2, c), v2)
                        break
                else:
                    nz.append((c, v))
            postnz = _sub_value(v_merge(nz), sub) if nz else postk
        except CannotMerge:
            pass
    if unsolved_in(postnz) <= {loc}:
        f = _solve_stable(st, s, p, loc, alts, conds, sub, v0, hv, postnz, hvset=None, inner_fresh=inner_fresh)
        if f is not None:
            return f
    if fresh:
        return None
    # 1. overwritten: independent of its previous value
    if not un:
        f = _at(postk, k)
        # constant?
        if not st.nonuniform:
            try:
                e = v_eq(v0, postk)
                if e is True or (z3.is_expr(e) and prove_bool(e)):
                    if kname_free(postk, k):
                        return lambda j: v0
            except Exception:
                pass
        compatible = v_kind(v0) == v_kind(postk) or {v_kind(v0), v_kind(postk)} <= {"int", "real"}
        if compatible and not _absent(v0):
            def fn(j, f=f, v0=v0):
                j = j if z3.is_expr(j) else z3.IntVal(j)
                return v_merge([(j == 0, v0), (j != 0, f(j - 1))])
            return fn
        if st.nonuniform or True:
            s.nonuniform = True
            s.needs_pos.add(loc)
            return lambda j, f=f: f((j if z3.is_expr(j) else z3.IntVal(j)) - 1)
    # 2. counters
    if un == {loc}:
        f = _counter(st, k, v0, hv, postk)
        if f is not None:
            return f
    # 2b. array stores at k
    if un == {loc} and isinstance(hv, ZT) and z3.is_array(hv.t):
        t = z3.simplify(postk.t)
        f = _solve_store(st, hv, v0, postk)
        if f is not None:
            return f
    return None


def _counter(st, k, v0, hv, postk, constant=False):
    if v_kind(hv) not in ("int", "real") or v_kind(postk) not in ("int", "real"):
        return None
    d = z3.simplify(num_term(postk) - num_term(hv))
    names = {}
    _consts_of(d, names, set())
    if hv.t.decl().name() in names or _absent(v0) or v_kind(v0) not in ("int", "real"):
        return None
    if k.decl().name() not in names:
        kk = (lambda j: j) if d.sort() == z3.IntSort() else (lambda j: z3.ToReal(j))
        return lambda j: wrap(num_term(v0) + kk(j if z3.is_expr(j) else z3.IntVal(j)) * d)
    if constant:
        return None
    PS = prefix_sum(d, k)
    return lambda j: wrap(num_term(v0) + PS(j if z3.is_expr(j) else z3.IntVal(j)))


def _solve_stable(st, s, p, loc, alts, conds, sub, v0, hv, postk, hvset, inner_fresh):
    k = st.k
    zero = [(k, z3.IntVal(0))]
    uniform = not _absent(v0) and v_kind(v0) == st.kinds.get(loc) and not isinstance(v0, Poison)
    try:
        if st.nonuniform:
            za = []
            for c, r in zip(conds, st.results):
                v = r[1].get(loc, MISSING)
                if r[4] and not any(_same(v, v2) for _, v2 in za):
                    za.append((c, v))
            if not za:
                return None
            v1 = v_subst(_sub_value(v_merge(za), sub), zero)
        else:
            if not uniform:
                return None
            v1 = v_subst(v_subst(postk, _pairs(hv, v0)), zero)
    except CannotMerge:
        return None
    if v_kind(v1) != v_kind(postk) or inner_fresh(v1):
        return None
    acc = v_consts(v1)
    hvn = _hv_consts(st)
    if any(n in hvn for n in acc):
        return None
    own = _pairs(hv, v1)
    with assuming(k > 0, *([k < st.count] if st.count is not None else [])):
        cc = z3.Or(*[z3.substitute(c_, *(own + sub)) if own + sub else c_ for c_ in conds])
        with assuming(cc) as a:
            e = v_eq(v_subst(postk, own), v1)
            if not a.dead and not prove_bool(e):
                return None
    if uniform:
        def fn(j):
            j = j if z3.is_expr(j) else z3.IntVal(j)
            return v_merge([(j <= 0, v0), (j > 0, v1)])
        return fn
    s.nonuniform = True
    s.needs_pos.add(loc)
    return lambda j: v1


def kname_free(v, k):
    return k.decl().name() not in v_consts(v)


def _solve_store(st, hv, v0, postk):
    """A_{k+1} = Store(A_k, k, val(k)) with val independent of A except possibly A_k[k] = A_0[k]"""
    k = st.k
    j = z3.FreshConst(z3.IntSort(), "aj")
    # pointwise: post[j] for j != k must be hv[j]; post[k] = g(k)
    pj = z3.simplify(z3.Select(postk.t, j))
    with assuming(j != k):
        if not prove_bool(z3.Select(postk.t, j) == z3.Select(hv.t, j)):
            return None
    g = z3.simplify(z3.Select(postk.t, k))
    # A_k[k] is still A_0[k]
    g = z3.simplify(z3.substitute(g, (z3.Select(hv.t, k), z3.Select(v0.t, k))))
    names = {}
    _consts_of(g, names, set())
    if hv.t.decl().name() in names:
        return None

    def fn(n):
        n = n if z3.is_expr(n) else z3.IntVal(n)
        q = z3.Const("aq", z3.IntSort())
        return ZT(z3.Lambda([q], z3.If(z3.And(q >= 0, q < n), z3.substitute(g, (k, q)), z3.Select(v0.t, q))))
    return fn


_PS = {}


def prefix_sum(d, k):
    """sum_{i<n} d(i) as a canonical uninterpreted function of (parameters, n), with step axioms as facts"""
    names = {}
    _consts_of(d, names, set())
    names.pop(k.decl().name(), None)
    params = [names[n] for n in sorted(names) if "!" in n]
    kk = z3.Int("ps_k")
    canon = z3.substitute(d, (k, kk))
    pv = [z3.Const("ps_p%d_%s" % (i, x.sort()), x.sort()) for i, x in enumerate(params)]
    canon = z3.simplify(z3.substitute(canon, *list(zip(params, pv))) if params else canon)
    key = canon.sexpr() + "|" + ",".join(str(x.sort()) for x in params)
    if key not in _PS:
        _PS[key] = z3.Function("PS%d" % len(_PS), *([x.sort() for x in params] + [z3.IntSort(), d.sort()]))
    F = _PS[key]

    def at(n):
        p = P()
        n = n if z3.is_expr(n) else z3.IntVal(n)
        # definitional axioms, instantiated at the arguments used
        zero = z3.IntVal(0) if d.sort() == z3.IntSort() else z3.RealVal(0)

        def inst(m):
            ax = [F(*(params + [z3.IntVal(0)])) == zero,
                  z3.Implies(m >= 1, F(*(params + [m])) == F(*(params + [m - 1])) + z3.substitute(d, (k, m - 1))),
                  z3.Implies(m >= 0, F(*(params + [m + 1])) == F(*(params + [m])) + z3.substitute(d, (k, m)))]
            for a in ax:
                p.axiom(a)
        inst(z3.simplify(n))
        return F(*(params + [z3.simplify(n)]))
    return at


def _solve_list(st, s, p, loc, alts, solved, known_sub, unsolved_in, inner_fresh):
    """content_{k+1} = content_k ++ seg(k)"""
    k = st.k
    v0 = st.entry.get(loc, MISSING)
    segs = []
    sub = known_sub()
    overwrite = True
    tails = []
    for cond, v in alts:
        if not isinstance(v, SSeq):
            return None
        if v.segs and isinstance(v.segs[0], Hole):
            if any(isinstance(x, Hole) for x in v.segs[1:]):
                return None
            tails.append((cond, v.segs[1:]))
            overwrite = False
        else:
            tails.append((cond, None))
    if overwrite:
        return None
    if any(t is None for _, t in tails):
        # paths at k==0 start from the entry content
        fixed = []
        for (cond, t), (c2, v) in zip(tails, alts):
            if t is None:
                n0 = len(v0.segs)
                if len(v.segs) >= n0 and all(x is y or _same_seg(x, y) for x, y in zip(v.segs[:n0], v0.segs)):
                    t = v.segs[n0:]
                else:
                    return None
            fixed.append((cond, t))
        tails = fixed
    if any(isinstance(x, Hole) for _, t in tails for x in t):
        return None
    if len(tails) == 1:
        body = tails[0][1]
    elif all(len(t) == 0 for _, t in tails):
        body = []
    else:
        # same number of plain items: merge itemwise, else guard
        try:
            if all(len(t) == len(tails[0][1]) and all(isinstance(x, Item) for x in t) for _, t in tails):
                body = [Item(v_merge([(c, t[i].v) for c, t in tails])) for i in range(len(tails[0][1]))]
            else:
                raise CannotMerge()
        except CannotMerge:
            body = [Guard(c, t) for c, t in tails if t]
    body = [seg_subst(x, sub) if sub else x for x in body]
    acc = {}
    for x in body:
        seg_consts(x, acc)
    hvn = _hv_consts(st)
    if any(n in hvn and hvn[n] not in solved for n in acc):
        return None
    v = SSeq(body)
    if inner_fresh(v):
        return None

    def segfn(j):
        return [seg_subst(x, [(k, j)]) for x in body]

    def fn(n):
        n = n if z3.is_expr(n) else z3.IntVal(n)
        return SSeq(list(v0.segs) + [Rep(n, segfn)])
    return fn


def _same_seg(x, y):
    return isinstance(x, Item) and isinstance(y, Item) and _same(x.v, y.v)


_FOLD = {}


def _joint_fold(st, s, p, pending, merged, conds, solved, known_sub, unsolved_in, inner_fresh):
    """state_{k+1} = h(k, state_k) for scalar locations: uninterpreted functions with step axioms"""
    k = st.k
    ok = []
    posts = {}
    for loc in pending:
        kind = st.kinds.get(loc)
        scal = kind in ("int", "real", "bool") or (isinstance(kind, tuple) and kind[0] in ("val", "zt", "ind"))
        v0 = st.entry.get(loc, MISSING)
        if not scal or _absent(v0) or isinstance(st.hv[loc], (Poison, SSeq)):
            continue
        if v_kind(v0) != kind and not {v_kind(v0), kind} <= {"int", "real"}:
            continue
        try:
            posts[loc] = _sub_value(v_merge(merged[loc]), known_sub())
        except CannotMerge:
            continue
        if inner_fresh(posts[loc]):
            continue
        ok.append(loc)
    # drop those depending on locations that cannot be described
    changed = True
    while changed:
        changed = False
        for loc in list(ok):
            if unsolved_in(posts[loc]) - set(ok):
                ok.remove(loc)
                changed = True
    if not ok:
        return pending
    names = {}
    for loc in ok:
        v_consts(posts[loc], names)
        v_consts(st.entry[loc], names)
    hvn = _hv_consts(st)
    names.pop(k.decl().name(), None)
    params = [names[n] for n in sorted(names) if n not in hvn and "!" in n]
    Fs = {}
    for loc in ok:
        hv = st.hv[loc]
        t = hv.idx if isinstance(hv, Ind) else hv.t
        Fs[loc] = z3.Function("fold_%s_%d" % (_locname(loc), len(_FOLD)), *([x.sort() for x in params] + [z3.IntSort(), t.sort()]))
        _FOLD[len(_FOLD)] = Fs[loc]

    def value(loc, n):
        t = Fs[loc](*(params + [n]))
        hv = st.hv[loc]
        if isinstance(hv, (Ind, SVal)):
            return hv.rewrap(t)
        if isinstance(hv, ZT):
            return ZT(t)
        return wrap(t)

    def inst(m):
        """axioms of the step m -> m+1 and of 0"""
        pp = P()
        sub = [(k, m)]
        for loc in ok:
            sub += _pairs(st.hv[loc], value(loc, m))
        for loc in ok:
            nxt = v_subst(v_subst(posts[loc], sub), [])  if False else v_subst(posts[loc], sub)
            a = z3.Implies(m >= 0, _z(v_eq(value(loc, m + 1), nxt)))
            b = _z(v_eq(value(loc, z3.IntVal(0)), st.entry[loc]))
            pp.axiom(a)
            pp.axiom(b)

    for loc in ok:
        def fn(n, loc=loc):
            n = z3.simplify(n) if z3.is_expr(n) else z3.IntVal(n)
            inst(n)
            inst(z3.simplify(n - 1))
            return value(loc, n)
        solved[loc] = fn
        st.folded.add(loc)
    return [l for l in pending if l not in solved]


def _z(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


# holes must survive normalisation / substitution
_old_norm = core._norm


def _seg_len_hole(s):
    raise Unsupported("length of a loop-carried list used inside the loop")


def _patch_core():
    old_len, old_sub, old_consts = core.seg_len, core.seg_subst, core.seg_consts

    def seg_len_(s):
        if isinstance(s, Hole):
            return _hole_len(s)
        return old_len(s)

    def seg_subst_(s, sub):
        if isinstance(s, Hole):
            return s
        return old_sub(s, sub)

    def seg_consts_(s, acc):
        if isinstance(s, Hole):
            return
        return old_consts(s, acc)
    core.seg_len = seg_len_
    core.seg_subst = seg_subst_
    core.seg_consts = seg_consts_
    globals()["seg_len"] = seg_len_
    globals()["seg_subst"] = seg_subst_
    globals()["seg_consts"] = seg_consts_


def _hole_len(h):
    raise Unsupported("length of a loop-carried list used inside the loop")


_patch_core()


# ================================================================= runtime
def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class RaisedSymbol(Exception):
    """a symbolic exception object that was raised"""
    def __init__(self, failure):
        Exception.__init__(self, "raised: %r" % (failure,))
        self.failure = failure


class Runtime(object):
    def __init__(self):
        self.handlers = {}
        self.candidates = []
        self.hoare = []             # loop invariants: f(loop, locals) -> spec or None
        self.invariants = []        # (pred(location, entry value), fn(k, entry value)): declared closed forms
        self.all_while = False      # while loops are summarised at once, without trying to unroll them
        self.unit = None
        self.externals = set()

    # ---- hooks used by instrumented code
    def loop(self, it, site, mods):
        return ForLoop(self, it, site, mods)

    def whileloop(self, site, mods):
        return WhileLoop(self, site, mods)

    # ---- counted while loops (transform._counted)
    def count_bound(self, lo, bound, incl):
        for v in (lo, bound):
            if isinstance(v, bool) or not (isinstance(v, (int, SInt)) or hasattr(v, "__index__") and not is_sym(v)):
                raise Unsupported("while loop counting with %r" % (v,))
        return bound + 1 if incl else bound

    def count_range(self, lo, hi, step):
        return self.call(range, lo, hi, step)

    def same_bound(self, hi, bound, incl):
        now = self.count_bound(0, bound, incl)
        if now is hi or (P().branch(num_term(now) == num_term(hi)) if is_sym(now) or is_sym(hi) else now == hi):
            return
        raise Unsupported("while loop whose bound changes")

    def count_end(self, lo, hi, step):
        if not (is_sym(lo) or is_sym(hi)):
            return lo if lo >= hi else lo - (lo - hi) // step * step
        if lo >= hi:
            return lo
        return lo + (hi - lo if step == 1 else (hi - lo + (step - 1)) // step * step)

    def mklist(self, l):
        return VList(l) if Path.cur is not None else l

    def mkdict(self, d):
        if not d and Path.cur is not None and Path.cur.globals.get("mkdict"):
            return Path.cur.globals["mkdict"]()      # the unit's own maps
        return VDict(d) if Path.cur is not None else d

    def mod(self, a, b):
        if isinstance(a, str) and Path.cur is not None:
            try:
                return a % b
            except (Unsupported, TypeError, ValueError):
                pass
            # symbolic arguments: formatted as their terms, whatever the conversion
            args = list(b) if isinstance(b, tuple) else [b]
            try:
                conv = iter(args)
                out = []

                def one(m):
                    if m.group(1) == "%":
                        return "%%"
                    return "%s" if is_sym(next(conv)) else m.group(0)
                fmt = re.sub(r"%[-+ #0]*[0-9]*(?:\.[0-9]+)?([a-zA-Z%])", one, a)
                return fmt % tuple(show(x) if is_sym(x) else x for x in args)
            except Exception:
                return a + "%" + show(b)
        return a % b

    def call(self, f, *a, **k):
        if Path.cur is None:
            return f(*a, **k)
        try:
            h = self.handlers.get(f)
        except TypeError:
            h = None
        if h is not None:
            r = h(*a, **k)
            if r is not NotImplemented:
                return r
        return f(*a, **k)

    def comp(self, kind, it, elt, cond, single, flat, site):
        if Path.cur is None or not (_is_symbolic_iterable(it)):
            def gen():
                for x in it:
                    args = (x,) if single else tuple(x)
                    if cond is None or cond(*args):
                        r = elt(*args)
                        if flat:
                            for y in r:
                                yield y
                        else:
                            yield r
            if kind == "gen":
                return gen()
            out = []                # (not a generator: a StopIteration of an element passes)
            for x in it:
                args = (x,) if single else tuple(x)
                if cond is None or cond(*args):
                    r = elt(*args)
                    out.extend(r) if flat else out.append(r)
            if kind == "inner":
                return out
            if kind == "list":
                return self.mklist(out)
            if kind == "set":
                return set(out)
            return self.mkdict(dict(out))
        if kind in ("set", "dict") or flat:
            raise Unsupported("symbolic %s comprehension" % kind)
        if not isinstance(it, (VList, VTuple, VIter)):
            it = VIter(list(seq_segs(it)))          # iterated once
        if cond is None:
            r = self._pure_map(it, elt, single)
            if r is not None:
                return r
        res = VList()
        lp = ForLoop(self, it, site, ())
        lp.comprehension = True         # no loop invariants of contracts
        while True:
            if not lp.next({}):
                break
            x = lp.item
            try:
                args = (x,) if single else _unpack(x)
                if cond is None or cond(*args):
                    res.append(elt(*args))
            except Exception:
                # an exception leaving the loop ends a loop-summary run
                lp.leave()
                raise
        return res

    def _pure_map(self, it, elt, single):
        """[elt(x) for x in it] with an elt that neither branches nor changes anything: an elementwise map"""
        p = P()
        segs = core._norm(seq_segs(it))
        out = []
        for s in segs:
            if not isinstance(s, (Item, Rep)):
                return None
            if isinstance(s, Rep):
                k = p.fresh("mk", z3.IntSort())
                inner = core._norm(s.seg(k))
                if len(inner) != 1 or not isinstance(inner[0], Item):
                    return None
                x = inner[0].v
            else:
                k, x = None, s.v
            raw = _autotrack({"x": x, "f": elt, "c": tuple(c.cell_contents for c in (getattr(elt, "__closure__", None) or ())
                                                          if _filled(c))})
            snap = _snapshot({}, ())
            nheap, known = len(p.heap), {id(h.ref) for h in p.heap}
            nd, npc, nf = len(p.decisions), len(p.pc), len(p.facts)
            nax = len(p.axioms)
            if k is None:
                # executed for real: effects are allowed, order is preserved
                out.append(Item(elt(*((x,) if single else _unpack(x)))))
                continue
            p.solver.push()
            nwork = len(p.explorer.work)
            p.nofork = getattr(p, "nofork", 0) + 1
            try:
                v = elt(*((x,) if single else _unpack(x)))
            except _Forked:
                v = None
            except Exception:
                v = None
            finally:
                p.nofork -= 1
            # definitional assumptions about the generic element stay valid for it only: drop them
            extra = p.pc[npc:]
            axs = p.axioms[nax:]
            post = _snapshot({}, ())
            clean = (v is not None and len(p.decisions) == nd and len(p.facts) == nf
                     and not _raw_changed(raw) and all(_same(snap[l], post.get(l, MISSING)) for l in snap))
            p.solver.pop()
            del p.pc[npc:]
            del p.facts[nf:]
            for c in axs:
                if not core._has_quant(c):
                    p.solver.add(c)
            if not clean:
                if len(p.decisions) != nd:
                    raise Unsupported("internal: fork inside a map")
                if _raw_changed(raw):
                    raise Unsupported("a comprehension that changes an untracked container")
                # undo the trial execution
                for l in set(snap) | set(post):
                    a, b = snap.get(l, MISSING), post.get(l, MISSING)
                    if l[1] < nheap and not _same(a, b):
                        p.heap[l[1]].set(l[2], a)
                del p.heap[nheap:]
                return None
            if (getattr(type(v), "__module__", "") or "").split(".")[0] in ("mdp", "bimdp") and not isinstance(v, Sym) \
                    and id(v) not in known:
                raise Unsupported("objects created by a comprehension over a symbolic sequence")
            defs = [c for c in extra]

            def seg(j, v=v, k=k, defs=defs):
                if Path.cur is not None:
                    for c in defs:
                        Path.cur.assume(z3.substitute(c, (k, j)))
                return [Item(v_subst(v, [(k, j)]))]
            out.append(Rep(s.count, seg))
        return VList.of(out)

    def handler(self, *fs):
        def deco(h):
            for f in fs:
                self.handlers[f] = h
            return h
        return deco

    # ---- exceptions of the program and signals of the verifier
    ANY = (Exception, KeyboardInterrupt, SystemExit, GeneratorExit)
    CONTROL = (Unsupported, PathEnd, NeedSummary, RestartUnit)

    def exc(self, e):
        """operand of raise"""
        if isinstance(e, Ind) and hasattr(e, "_vc_isa") and e._vc_isa(Exception):
            return RaisedSymbol(e)
        return e

    def ended(self, signal):
        p = Path.cur
        if p is not None and p.pending is None:
            p.pending = signal
            p.suppress += 1

    # ---- specification interface
    def fresh_int(self, name, lo=None, hi=None):
        t = P().fresh(name, z3.IntSort())
        if lo is not None:
            P().assume(t >= lo)
        if hi is not None:
            P().assume(t < hi)
        return SInt(t)

    def fresh_real(self, name):
        return SReal(P().fresh(name, z3.RealSort()))

    def fresh_bool(self, name):
        return SBool(P().fresh(name, z3.BoolSort()))

    def case(self, name):
        """nondeterministic concrete boolean (forks)"""
        return P().branch(P().fresh(name, z3.BoolSort()))

    def choose(self, options):
        return options[P().choose(len(options))]

    def assume(self, c):
        P().assume(_z(term(c) if not z3.is_expr(c) else c) if not isinstance(c, bool) else c)

    def oblige(self, name, goal, hint=None):
        p = P()
        if p.suppress:
            return True
        t = time.time()
        g = goal
        if not z3.is_expr(g):
            if isinstance(g, Sym):
                g = term(g)
            else:
                g = z3.BoolVal(bool(g))
        status, be, model = check_valid(p.hyps(), g)
        if status != "proved" and status == "failed" and not p.facts and z3.is_false(z3.simplify(g)) and not p.feasible():
            status = "proved"
        detail = None
        if status != "proved":
            detail = {"goal": str(z3.simplify(g))[:600], "path": [str(c)[:200] for c in p.pc[-12:]]}
            if model is not None and status == "failed":
                detail["model"] = {str(d): str(model[d])[:120] for d in list(model.decls())[:40]}
            else:
                detail["reason"] = str(model)
        self.unit.obligations.append(Obligation(self.unit.name, name, status, be, detail, time.time() - t, None))
        return status == "proved"

    def oblige_eq(self, name, a, b):
        p = P()
        if p.suppress:
            return True
        if a is b:
            return self.oblige(name, True)
        sa = a.segs() if isinstance(a, VList) else a.segs if isinstance(a, SSeq) else None
        sb = b.segs() if isinstance(b, VList) else b.segs if isinstance(b, SSeq) else None
        if sa is None and sb is not None and isinstance(a, (list, tuple)):
            sa = [Item(x) for x in a]
        if sb is None and sa is not None and isinstance(b, (list, tuple)):
            sb = [Item(x) for x in b]
        if sa is not None and sb is not None:
            t = time.time()
            why = []
            ok = seqs_equal(sa, sb, 0, why)
            if not ok and check_valid(p.hyps(), z3.BoolVal(False))[0] == "proved":
                raise PathEnd()
            self.unit.obligations.append(Obligation(
                self.unit.name, name, "proved" if ok else "failed", "structural+z3",
                None if ok else {"lhs": show_segs(sa)[:800], "rhs": show_segs(sb)[:800], "why": [w[:300] for w in why[:3]],
                                 "path": [str(c)[:200] for c in p.pc[-12:]]}, time.time() - t, None))
            return ok
        if _absent(a) or _absent(b):
            return self.oblige(name, False)
        e = v_eq(a, b)
        ok = self.oblige(name, _z(e) if isinstance(e, bool) else e)
        if not ok:
            d = self.unit.obligations[-1].detail
            if d is not None:
                d["lhs"], d["rhs"] = show(a)[:300], show(b)[:300]
        return ok


def _unpack(x):
    if isinstance(x, tuple):
        return x
    raise Unsupported("unpacking %r" % (x,))


rt = Runtime()
