"""Symbolic values, paths, solver interface."""
import sys
import time
import os
import subprocess
import tempfile
import types

import z3

# ---------------------------------------------------------------- control
class Unsupported(BaseException):
    """The code left the verifier's subset: the unit's obligation fails (undecided)."""


class _Forked(BaseException):
    """A fork was needed where none is allowed."""


class PathEnd(BaseException):
    """This path is finished (infeasible or cut)."""


class NeedSummary(BaseException):
    def __init__(self, key, prefix):
        self.key, self.prefix = key, prefix


class RestartUnit(BaseException):
    pass


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.by = {}


STATS = Stats()
SLOW = os.environ.get("PYVC_SLOW")
TIMEOUT_FEAS = 2000
TIMEOUT_PROVE = 8000
TIMEOUT_BOOL = 1200


class Path(object):
    """State of the path being executed."""
    cur = None

    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.decisions = []
        self.pc = []            # quantifier-free path condition
        self.facts = []         # quantified facts, used for proofs only
        self.axioms = []        # definitional axioms (valid everywhere), never part of a merged condition
        self.axiom_ids = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", TIMEOUT_FEAS)
        self.counts = {}
        self.explorer = explorer
        self.heap = []          # tracked mutable objects, in creation order
        self.nloops = 0
        self.loopstack = []
        self.pending = None     # signal of the verifier on its way through "finally" blocks
        self.suppress = 0       # >0: obligations not generated (loop summaries)
        self.log = []
        self.nofork = 0
        self.globals = {}
        self.ctx = ()           # loops being summarised around the current point

    def fresh_name(self, base):
        n = self.counts.get(base, 0)
        self.counts[base] = n + 1
        return "%s!%d" % (base, n)

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def assume(self, c, quantified=False):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if quantified or _has_quant(c):
            self.facts.append(c)
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c):
            raise PathEnd()

    def axiom(self, c):
        """a fact that holds for every interpretation intended (definitions, sign of a count)"""
        c = z3.simplify(c)
        if z3.is_true(c) or c.get_id() in self.axiom_ids:
            return
        self.axiom_ids.add(c.get_id())
        self.axioms.append(c)
        if not _has_quant(c):
            self.solver.add(c)

    def hyps(self):
        return self.pc + self.facts + self.axioms

    def feasible(self, c=None):
        STATS.queries += 1
        t = time.time()
        r = self.solver.check(c) if c is not None else self.solver.check()
        STATS.solver_time += time.time() - t
        return r != z3.unsat

    def branch(self, c):
        """Decide a symbolic condition; forks the exploration."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.nofork:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if t and f:
                raise _Forked()
            if not t and not f:
                raise _Forked()
            return t
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.explorer.push(self.decisions + [False])
                d = True
            else:
                d = t
        self.decisions.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n, what="choice"):
        if self.nofork:
            raise _Forked()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for j in range(n - 1, 0, -1):
                self.explorer.push(self.decisions + [j])
            d = 0
        self.decisions.append(d)
        return d


def _has_quant(e):
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                return True
            todo.append(x.body())
            continue
        todo.extend(x.children())
    return False


def P():
    if Path.cur is None:
        raise Unsupported("symbolic value used outside a verification path")
    return Path.cur


def check_valid(hyps, goal, timeout=None):
    """-> ('proved', backend, None) | ('failed', backend, model) | ('unknown', backend, reason)"""
    timeout = timeout or TIMEOUT_PROVE
    g = z3.simplify(goal) if z3.is_expr(goal) else z3.BoolVal(bool(goal))
    if z3.is_true(g):
        STATS.by["simplifier"] = STATS.by.get("simplifier", 0) + 1
        return "proved", "simplifier", None
    STATS.queries += 1
    t = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*hyps)
    s.add(z3.Not(g))
    # both back ends briefly, then both at length
    quick = min(timeout, 1200)
    s.set("timeout", quick)
    r = s.check()
    if r == z3.unknown:
        a = _abstracted(list(hyps) + [z3.Not(g)])
        if a is not None:
            # the same with products as unknown values: a weaker set of facts, so "unsat" carries over
            s2 = z3.Solver()
            s2.set("timeout", timeout)
            s2.add(*a)
            if s2.check() == z3.unsat:
                STATS.solver_time += time.time() - t
                STATS.by["z3"] = STATS.by.get("z3", 0) + 1
                return "proved", "z3", None
        r2 = _cvc5(s, quick)
        if r2 != "unsat" and timeout > quick:
            s.set("timeout", timeout)
            r = s.check()
            if r == z3.unknown:
                r2 = _cvc5(s, timeout)
    if r == z3.unknown:
        if SLOW:
            print("UNKNOWN %.1f %s %s" % (time.time() - t, r2, str(g)[:1500]), [str(h)[:300] for h in hyps])
        STATS.solver_time += time.time() - t
        if r2 == "unsat":
            STATS.by["cvc5"] = STATS.by.get("cvc5", 0) + 1
            return "proved", "cvc5", None
        return "unknown", "z3+cvc5", s.reason_unknown()
    STATS.solver_time += time.time() - t
    if SLOW and time.time() - t > 3:
        print("SLOW %.1f %s" % (time.time() - t, str(g)[:1500]), [str(h)[:100] for h in hyps if _has_quant(h)])
    if r == z3.unsat:
        STATS.by["z3"] = STATS.by.get("z3", 0) + 1
        return "proved", "z3", None
    return "failed", "z3", s.model()


_MUL = {}


def _abstracted(fs):
    """the formulas with sums distributed and every product of two unknowns replaced by an uninterpreted function of
    them (in a fixed order); None if there is no such product"""
    found = [False]
    cache = {}

    def is_num(e):
        return z3.is_int_value(e) or z3.is_rational_value(e)

    def walk(e):
        k = e.get_id()
        if k in cache:
            return cache[k][0]
        if z3.is_quantifier(e):
            if e.is_lambda():
                r = e
            else:
                vs = [z3.Const("%s!b%d" % (e.var_name(i), i), e.var_sort(i)) for i in range(e.num_vars())]
                sub = list(reversed(vs))
                body = z3.substitute_vars(walk(e.body()), *sub)
                pats = [z3.MultiPattern(*[z3.substitute_vars(walk(c), *sub) for c in e.pattern(i).children()])
                        for i in range(e.num_patterns())]
                r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=pats)
        elif z3.is_app(e) and e.num_args():
            ch = [walk(c) for c in e.children()]
            if z3.is_mul(e):
                nums = [c for c in ch if is_num(c)]
                rest = sorted([c for c in ch if not is_num(c)], key=lambda c: c.sexpr())
                if len(rest) > 1:
                    found[0] = True
                    so = e.sort()
                    if so not in _MUL:
                        _MUL[so] = z3.Function("mul_%s" % so, so, so, so)
                    r = rest[0]
                    for c in rest[1:]:
                        r = _MUL[so](r, c)
                    for c in nums:
                        r = c * r
                else:
                    r = e.decl()(*ch)
            elif e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not is_num(ch[1]):
                found[0] = True
                so = e.decl().name()
                if so not in _MUL:
                    _MUL[so] = z3.Function("un_" + so, z3.IntSort(), z3.IntSort(), z3.IntSort())
                r = _MUL[so](*ch)
            else:
                r = e.decl()(*ch)
        else:
            r = e
        cache[k] = (r, e)
        return r
    out = [walk(z3.simplify(f, som=True)) for f in fs]
    return out if found[0] else None


def _cvc5(solver, timeout):
    try:
        txt = solver.to_smt2()
        if "lambda" in txt:
            return "unknown"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + txt)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True,
                               timeout=timeout / 1000.0 + 5)
            out = p.stdout.strip().splitlines()
            return out[0] if out else "unknown"
        finally:
            os.unlink(f.name)
    except Exception:
        return "unknown"


# ---------------------------------------------------------------- values
def is_sym(v):
    return isinstance(v, Sym)


class Sym(object):
    """Base of all symbolic values."""
    __slots__ = ()
    __array_ufunc__ = None
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise Unsupported("attribute %r of symbolic %s" % (name, type(self).__name__))

    def __index__(self):
        raise Unsupported("symbolic value used as a native index")

    def __int__(self):
        raise Unsupported("symbolic value converted to native int")

    def __float__(self):
        raise Unsupported("symbolic value converted to native float")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic value")

    def __len__(self):
        raise Unsupported("native len of a symbolic value")


def term(v):
    """z3 term of a scalar value (python or symbolic)."""
    if isinstance(v, (SInt, SReal, SBool, SVal)):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant in a symbolic term")
        return z3.RealVal(repr(v)) if 'e' not in repr(v) else z3.RealVal("%.30f" % v)
    try:
        import numpy
        if isinstance(v, numpy.bool_):
            return z3.BoolVal(bool(v))
        if isinstance(v, numpy.integer):
            return z3.IntVal(int(v))
        if isinstance(v, numpy.floating):
            return term(float(v))
    except ImportError:
        pass
    if z3.is_expr(v):
        return v
    raise Unsupported("no term for %r" % (type(v),))


def is_num(v):
    import numpy
    return isinstance(v, (int, float, SInt, SReal, SBool, numpy.number, numpy.bool_))


def num_term(v):
    t = term(v)
    if z3.is_bool(t):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def wrap(t):
    if not z3.is_expr(t):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    s = t.sort()
    if s == z3.IntSort():
        return SInt(t)
    if s == z3.RealSort():
        return SReal(t)
    if s == z3.BoolSort():
        return SBool(t)
    return SVal(t)


def _coerce(a, b):
    a, b = num_term(a), num_term(b)
    if a.sort() != b.sort():
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        if b.sort() == z3.IntSort():
            b = z3.ToReal(b)
    return a, b


def _arith(name):
    def op(self, o):
        if not is_num(o):
            return NotImplemented
        a, b = _coerce(self, o)
        return wrap(getattr(a, name)(b))
    return op


SEQ_REPEAT = [None]     # set by the engine: a sequence literal times a symbolic count


def pydivmod(a, b):
    """Python's floor division and modulo on integer terms (b != 0)."""
    if not z3.is_int_value(b) and Path.cur is not None and not Path.cur.feasible(b <= 0):
        q = a / b
    else:
        q = z3.If(b > 0, a / b, (-a) / (-b))
    return q, a - b * q


class SNum(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __add__ = _arith("__add__")
    __sub__ = _arith("__sub__")
    __mul__ = _arith("__mul__")

    def __radd__(self, o):
        if not is_num(o):
            return NotImplemented
        a, b = _coerce(o, self)
        return wrap(a + b)

    def __rsub__(self, o):
        if not is_num(o):
            return NotImplemented
        a, b = _coerce(o, self)
        return wrap(a - b)

    def __rmul__(self, o):
        if isinstance(o, (tuple, list)) and SEQ_REPEAT[0] is not None:
            return SEQ_REPEAT[0](o, self)
        if not is_num(o):
            return NotImplemented
        a, b = _coerce(o, self)
        return wrap(a * b)

    def _div(self, a, b):
        a, b = num_term(a), num_term(b)
        if P().branch(b == 0):
            raise ZeroDivisionError("division by zero")
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        if b.sort() == z3.IntSort():
            b = z3.ToReal(b)
        return wrap(a / b)

    def __truediv__(self, o):
        return self._div(self, o) if is_num(o) else NotImplemented

    def __rtruediv__(self, o):
        return self._div(o, self) if is_num(o) else NotImplemented

    def _floordiv(self, a, b):
        a, b = num_term(a), num_term(b)
        if P().branch(b == 0):
            raise ZeroDivisionError("division by zero")
        if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
            return pydivmod(a, b)
        a, b = _coerce(wrap(a), wrap(b))
        q = z3.ToReal(z3.ToInt(a / b))
        return q, a - b * q

    def __floordiv__(self, o):
        return wrap(self._floordiv(self, o)[0]) if is_num(o) else NotImplemented

    def __rfloordiv__(self, o):
        return wrap(self._floordiv(o, self)[0]) if is_num(o) else NotImplemented

    def __mod__(self, o):
        return wrap(self._floordiv(self, o)[1]) if is_num(o) else NotImplemented

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return wrap(self._floordiv(o, self)[1]) if is_num(o) else NotImplemented

    def __divmod__(self, o):
        return tuple(map(wrap, self._floordiv(self, o))) if is_num(o) else NotImplemented

    def __rdivmod__(self, o):
        return tuple(map(wrap, self._floordiv(o, self))) if is_num(o) else NotImplemented

    def __neg__(self):
        return wrap(-num_term(self))

    def __pos__(self):
        return self

    def __abs__(self):
        t = num_term(self)
        return wrap(z3.If(t >= 0, t, -t))

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("symbolic power")

    def _cmp(self, o, f):
        if not is_num(o):
            return NotImplemented
        a, b = _coerce(self, o)
        return wrap(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not is_num(o):
            return False if not is_sym(o) else NotImplemented
        a, b = _coerce(self, o)
        return wrap(a == b)

    def __ne__(self, o):
        if not is_num(o):
            return True if not is_sym(o) else NotImplemented
        a, b = _coerce(self, o)
        return wrap(a != b)

    def __bool__(self):
        return P().branch(num_term(self) != 0)

    def __repr__(self):
        return "<%s>" % z3.simplify(self.t)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SInt(SNum):
    __slots__ = ()


class SReal(SNum):
    __slots__ = ()


class SBool(SNum):
    __slots__ = ()

    def __bool__(self):
        return P().branch(self.t)

    def __and__(self, o):
        return wrap(z3.And(self.t, term(o))) if isinstance(o, (bool, SBool)) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.t, term(o))) if isinstance(o, (bool, SBool)) else NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return wrap(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return wrap(self.t == term(o))
        return SNum.__eq__(self, o)

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return wrap(self.t != term(o))
        return SNum.__ne__(self, o)


class SVal(Sym):
    """Value of an uninterpreted sort (opaque data); subclasses add the abstract interface."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SVal) and o.t.sort() == self.t.sort():
            return wrap(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(z3.Not(term(r)))

    def __bool__(self):
        raise Unsupported("truth value of an opaque value")

    def __repr__(self):
        return "<%s>" % self.t

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def rewrap(self, t):
        return type(self)(t)


class Ind(Sym):
    """An object of an indexed family; its identity is an integer term."""
    family = None

    def __init__(self, idx):
        object.__setattr__(self, "idx", idx if z3.is_expr(idx) else z3.IntVal(idx))

    def rewrap(self, idx):
        return type(self)(idx)

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if isinstance(o, Ind) and o.family == self.family:
            return wrap(self.idx == o.idx)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(z3.Not(term(r)))

    truthy = False                      # True: an object that is never empty or zero

    def __bool__(self):
        """of a value of the user nothing is known: it can be 0 or empty"""
        if self.truthy:
            return True
        return P().branch(z3.Function("true:%s" % self.family, z3.IntSort(), z3.BoolSort())(self.idx))

    def __repr__(self):
        return "<%s#%s>" % (self.family, z3.simplify(self.idx))


class LazyRead(Unsupported):
    def __init__(self, key, loc):
        Unsupported.__init__(self, "read of %s before it is assigned in the loop" % (loc,))
        self.key, self.loc = key, loc


class Poison(Sym):
    """Value the loop summary knows nothing about."""
    def __init__(self, why="", lazy=None):
        object.__setattr__(self, "why", why)
        object.__setattr__(self, "lazy", lazy)

    def _no(self, *a, **k):
        if self.lazy is not None:
            raise LazyRead(*self.lazy)
        raise Unsupported("read of a value that the loop summary cannot describe (%s)" % self.why)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = __lt__ = __le__ = _no
    __gt__ = __ge__ = __bool__ = __call__ = __getitem__ = __setitem__ = __contains__ = _no

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._no()

    def __repr__(self):
        return "<poison %s>" % self.why


class ZT(Sym):
    """A raw z3 term (ghost state such as arrays)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<%s>" % self.t

    def __bool__(self):
        raise Unsupported("truth of ghost term")


# ---------------------------------------------------------------- sequence segments
class Item(object):
    def __init__(self, v):
        self.v = v


class Rep(object):
    """concatenation over j in [0,count) of seg(j) (a list of segments)"""
    def __init__(self, count, seg):
        self.count = count if z3.is_expr(count) else z3.IntVal(count)
        self.seg = seg


class Guard(object):
    def __init__(self, cond, segs):
        self.cond, self.segs = cond, segs


def span(count, fn):
    return Rep(count, lambda j: [Item(fn(j))])


def seg_subst(s, sub):
    if isinstance(s, Item):
        return Item(v_subst(s.v, sub))
    if isinstance(s, Guard):
        return Guard(z3.substitute(s.cond, *sub), [seg_subst(x, sub) for x in s.segs])
    if isinstance(s, Rep):
        def fn(j, s=s):
            # protect j against capture: substitute on a fresh constant first
            h = z3.FreshConst(z3.IntSort(), "sj")
            return [seg_subst(seg_subst(x, sub), [(h, j)]) for x in s.seg(h)]
        return Rep(z3.substitute(s.count, *sub), fn)
    raise Unsupported("segment")


def v_subst(v, sub):
    """Substitute z3 constants inside a value."""
    if isinstance(v, (SInt, SReal, SBool)):
        return wrap(z3.substitute(v.t, *sub))
    if isinstance(v, SVal):
        return v.rewrap(z3.substitute(v.t, *sub))
    if isinstance(v, ZT):
        return ZT(z3.substitute(v.t, *sub))
    if isinstance(v, Ind):
        return v.rewrap(z3.substitute(v.idx, *sub))
    if type(v) is tuple:
        return tuple(v_subst(x, sub) for x in v)
    if isinstance(v, SSeq):
        return SSeq([seg_subst(s, sub) for s in v.segs])
    if hasattr(type(v), "vc_subst"):
        return v.vc_subst(sub)
    if is_closure(v):
        old = closure_values(v)
        new = tuple(rebind(x) if id(x) in TAGS else v_subst(x, sub) for x in old)
        return v if all(x is y for x, y in zip(old, new)) else closure_with(v, new)
    return v


TAGS = {}


def rebind(x):
    """the current path's counterpart of an object captured on an earlier, replayed path"""
    t = TAGS.get(id(x))
    if t is None or t[0] is not x or Path.cur is None:
        return x
    heap = P().heap
    if t[1] < len(heap) and type(heap[t[1]].ref).__qualname__ == type(x).__qualname__:
        return heap[t[1]].ref
    return x


# ---- functions defined in the verified code and bound methods are values: code plus captured values
def is_closure(v):
    if type(v) is types.FunctionType:
        if not v.__closure__ or "__vc__" not in v.__globals__:
            return False
        try:
            for c in v.__closure__:
                c.cell_contents
        except ValueError:
            return False
        return True
    return type(v) is types.MethodType


def closure_values(v):
    if type(v) is types.MethodType:
        return (v.__self__,)
    return tuple(c.cell_contents for c in v.__closure__)


def closure_with(v, values):
    if type(v) is types.MethodType:
        return types.MethodType(v.__func__, values[0])
    f = types.FunctionType(v.__code__, v.__globals__, v.__name__, v.__defaults__, tuple(types.CellType(x) for x in values))
    f.__kwdefaults__ = v.__kwdefaults__
    f.__dict__.update(v.__dict__)
    return f


def closure_code(v):
    return v.__func__ if type(v) is types.MethodType else v.__code__


def _consts_of(e, acc, seen):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.decl().name()] = x
        todo.extend(x.children())


def seg_consts(s, acc):
    if isinstance(s, Item):
        v_consts(s.v, acc)
    elif isinstance(s, Guard):
        _consts_of(s.cond, acc, set())
        for x in s.segs:
            seg_consts(x, acc)
    else:
        _consts_of(s.count, acc, set())
        h = z3.FreshConst(z3.IntSort(), "cj")
        a2 = {}
        for x in s.seg(h):
            seg_consts(x, a2)
        a2.pop(h.decl().name(), None)
        acc.update(a2)


def v_consts(v, acc=None):
    """Names of the uninterpreted constants occurring in a value."""
    if acc is None:
        acc = {}
    if isinstance(v, (SInt, SReal, SBool, SVal, ZT)):
        _consts_of(v.t, acc, set())
    elif isinstance(v, Ind):
        _consts_of(v.idx, acc, set())
    elif type(v) is tuple:
        for x in v:
            v_consts(x, acc)
    elif isinstance(v, SSeq):
        for s in v.segs:
            seg_consts(s, acc)
    elif hasattr(type(v), "vc_consts"):
        v.vc_consts(acc)
    elif is_closure(v):
        for x in closure_values(v):
            if not is_closure(x):
                v_consts(x, acc)
    return acc


def v_kind(v):
    import numpy
    if isinstance(v, (bool, SBool, numpy.bool_)):
        return "bool"
    if isinstance(v, (SInt, int, numpy.integer)):
        return "int"
    if isinstance(v, (SReal, float, numpy.floating)):
        return "real"
    if isinstance(v, SVal):
        return ("val", type(v), v.t.sort())
    if isinstance(v, ZT):
        return ("zt", v.t.sort())
    if isinstance(v, Ind):
        return ("ind", type(v))
    if isinstance(v, SSeq):
        return "seq"
    if type(v) is tuple:
        return ("tuple",) + tuple(v_kind(x) for x in v)
    if v is None:
        return "none"
    if isinstance(v, Poison):
        return "poison"
    if isinstance(v, str):
        return ("const", v)
    if hasattr(type(v), "vc_kind"):
        return v.vc_kind()
    if is_closure(v) and type(v) is types.MethodType or is_closure(v) and any(is_sym(x) or is_closure(x) for x in closure_values(v)):
        return ("closure", closure_code(v)) + tuple(v_kind(x) for x in closure_values(v))
    return ("ref", id(v))


def v_fresh(kind, base):
    p = P()
    if kind == "bool":
        return SBool(p.fresh(base, z3.BoolSort()))
    if kind == "int":
        return SInt(p.fresh(base, z3.IntSort()))
    if kind == "real":
        return SReal(p.fresh(base, z3.RealSort()))
    if isinstance(kind, tuple):
        if kind[0] == "val":
            return kind[1](p.fresh(base, kind[2]))
        if kind[0] == "zt":
            return ZT(p.fresh(base, kind[1]))
        if kind[0] == "ind":
            return kind[1](p.fresh(base, z3.IntSort()))
        if kind[0] == "tuple":
            return tuple(v_fresh(k, base) for k in kind[1:])
        if kind[0] == "sarr":
            return kind[1](kind, base)
    return None


def v_eq(a, b):
    """z3 Bool (or python bool) for 'the two values are the same'."""
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    if a is b:
        return True
    if is_num(a) and is_num(b):
        ka, kb = v_kind(a), v_kind(b)
        if ka == "bool" and kb == "bool":
            return term(a) == term(b)
        x, y = _coerce(a, b)
        return x == y
    if isinstance(a, SVal) and isinstance(b, SVal):
        return a.t == b.t if a.t.sort() == b.t.sort() else False
    if isinstance(a, ZT) and isinstance(b, ZT):
        return a.t == b.t
    if isinstance(a, Ind) and isinstance(b, Ind):
        return a.idx == b.idx if a.family == b.family else False
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        r = []
        for x, y in zip(a, b):
            e = v_eq(x, y)
            if e is False:
                return False
            if e is not True:
                r.append(e)
        return z3.And(*r) if r else True
    if hasattr(type(a), "vc_eq"):
        return a.vc_eq(b)
    if is_sym(a) or is_sym(b):
        return False
    if is_closure(a) and is_closure(b):
        if closure_code(a) is not closure_code(b) or type(a) is not type(b):
            return False
        return v_eq(closure_values(a), closure_values(b))
    if type(a) is type(b):
        try:
            return bool(a == b)
        except Exception:
            return False
    return False


def syn_same(a, b):
    """syntactic identity of two scalar values (or tuples of them)"""
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b) and not isinstance(a, Poison):
        e = v_eq(a, b)
        return e is True or (z3.is_expr(e) and z3.is_true(z3.simplify(e)))
    if type(a) is type(b) and isinstance(a, (int, float, str, bool)):
        return a == b
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return all(syn_same(x, y) for x, y in zip(a, b))
    return False


class CannotMerge(Exception):
    pass


def v_merge(alts):
    """alts: [(cond, value)] exhaustive; -> one value with ite, or CannotMerge."""
    out = []
    for c, v in alts:
        for i, (c2, v2) in enumerate(out):
            if v is v2 or syn_same(v, v2):
                out[i] = (z3.Or(c2, c), v2)
                break
        else:
            out.append((c, v))
    alts = out
    v0 = alts[0][1]
    if len(alts) == 1 or all(x[1] is v0 for x in alts):
        return v0
    kinds = [v_kind(v) for _, v in alts]
    if all(k == kinds[0] for k in kinds) or all(k in ("int", "real", "bool") for k in kinds):
        k = kinds[0]
        if any(x == "real" for x in kinds) and k in ("int", "real"):
            ts = [num_term(v) for _, v in alts]
            ts = [z3.ToReal(t) if t.sort() == z3.IntSort() else t for t in ts]
            r = ts[-1]
            for (c, _), t in reversed(list(zip(alts[:-1], ts[:-1]))):
                r = z3.If(c, t, r)
            return wrap(r)
        if not all(x == k for x in kinds):
            raise CannotMerge()
        if k in ("bool", "int", "real"):
            r = term(alts[-1][1])
            for c, v in reversed(alts[:-1]):
                r = z3.If(c, term(v), r)
            return wrap(r)
        if isinstance(k, tuple) and k[0] in ("val", "zt"):
            r = alts[-1][1].t
            for c, v in reversed(alts[:-1]):
                r = z3.If(c, v.t, r)
            return v0.rewrap(r) if k[0] == "val" else ZT(r)
        if isinstance(k, tuple) and k[0] == "ind":
            r = alts[-1][1].idx
            for c, v in reversed(alts[:-1]):
                r = z3.If(c, v.idx, r)
            return v0.rewrap(r)
        if isinstance(k, tuple) and k[0] == "tuple":
            return tuple(v_merge([(c, v[i]) for c, v in alts]) for i in range(len(v0)))
        if k == "none" or (isinstance(k, tuple) and k[0] == "const"):
            return v0
        if isinstance(k, tuple) and k[0] == "ref":
            return v0
        if k == "seq":
            out = []
            for c, v in alts:
                out.append(Guard(c, v.segs))
            return SSeq(out)
        if isinstance(k, tuple) and k[0] == "closure":
            vals = [closure_values(v) for _, v in alts]
            return closure_with(v0, tuple(v_merge([(c, x[i]) for (c, _), x in zip(alts, vals)]) for i in range(len(vals[0]))))
        if hasattr(type(v0), "vc_merge"):
            return v0.vc_merge(alts)
    raise CannotMerge()


class SSeq(object):
    """Immutable symbolic sequence: a list of segments."""
    def __init__(self, segs):
        self.segs = segs


def seg_len(s):
    if isinstance(s, Item):
        return z3.IntVal(1)
    if isinstance(s, Guard):
        t = z3.IntVal(0)
        for x in s.segs:
            t = t + seg_len(x)
        return z3.If(s.cond, t, z3.IntVal(0))
    h = z3.FreshConst(z3.IntSort(), "lj")
    inner = z3.IntVal(0)
    for x in s.seg(h):
        inner = inner + seg_len(x)
    inner = z3.simplify(inner)
    acc = {}
    _consts_of(inner, acc, set())
    if h.decl().name() in acc:
        raise Unsupported("length of a repetition with varying segment size")
    return s.count * inner


def segs_len(segs):
    t = z3.IntVal(0)
    for s in segs:
        t = t + seg_len(s)
    return z3.simplify(t)


_NOT_PROVED = set()      # (answering "no" again is always safe)


def prove_bool(c):
    """Is c valid on the current path? (no obligation recorded)"""
    if c is True or c is False:
        return c
    p = P()
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return not p.feasible()
    hyps = p.hyps()
    key = (c.sexpr(), len(hyps), tuple(h.hash() for h in hyps))
    if key in _NOT_PROVED:
        return False
    r, _, _ = check_valid(hyps, c, TIMEOUT_BOOL)
    if r == "unknown":
        _NOT_PROVED.add(key)
    return r == "proved"


class assuming(object):
    """Temporarily assume c on the current path."""
    def __init__(self, *cs):
        self.cs = cs

    def __enter__(self):
        p = P()
        self.n = len(p.pc)
        self.f = len(p.facts)
        self.a = len(p.axioms)
        p.solver.push()
        self.dead = False
        for c in self.cs:
            try:
                p.assume(c)
            except PathEnd:
                self.dead = True
        return self

    def __exit__(self, *a):
        p = P()
        del p.pc[self.n:]
        del p.facts[self.f:]
        p.solver.pop()
        for c in p.axioms[self.a:]:
            if not _has_quant(c):
                p.solver.add(c)
        return False


def _norm(segs):
    """Drop empty pieces, resolve decided guards."""
    out = []
    for s in segs:
        if isinstance(s, Guard):
            c = z3.simplify(s.cond)
            if z3.is_true(c):
                out.extend(_norm(s.segs))
                continue
            if z3.is_false(c) or not s.segs:
                continue
        if isinstance(s, Rep):
            c = z3.simplify(s.count)
            if z3.is_int_value(c):
                for j in range(max(0, c.as_long())) if c.as_long() <= 64 else []:
                    out.extend(_norm(s.seg(z3.IntVal(j))))
                if c.as_long() <= 64:
                    continue
        out.append(s)
    return out


def _has_seq(v):
    return isinstance(v, SSeq) or type(v) is tuple and any(_has_seq(x) for x in v)


def _values_equal(a, b, depth, why):
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        return seqs_equal(a.segs, b.segs, depth + 1, why)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b) and _has_seq(a):
        return all(_values_equal(x, y, depth, why) for x, y in zip(a, b))
    if not prove_bool(v_eq(a, b)):
        if why is not None:
            why.append("%s != %s" % (show(a), show(b)))
        return False
    return True


def seqs_equal(A, B, depth=0, why=None):
    """Structural proof that two segment lists denote the same sequence (on the current path)."""
    A, B = _norm(A), _norm(B)
    while A or B:
        if any(isinstance(s, Rep) and z3.is_int_value(z3.simplify(s.count)) for s in A[:1] + B[:1]):
            A, B = _norm(A), _norm(B)
            continue
        # resolve a leading guard by case split
        for X in (A, B):
            if X and isinstance(X[0], Guard):
                g = X[0]
                if prove_bool(g.cond):
                    A2 = (list(g.segs) + A[1:]) if X is A else A
                    B2 = (list(g.segs) + B[1:]) if X is B else B
                    return seqs_equal(A2, B2, depth, why)
                if prove_bool(z3.Not(g.cond)):
                    return seqs_equal(A[1:] if X is A else A, B[1:] if X is B else B, depth, why)
                for c, inner in ((g.cond, list(g.segs)), (z3.Not(g.cond), [])):
                    with assuming(c) as a:
                        if a.dead:
                            continue
                        A2 = (inner + A[1:]) if X is A else A
                        B2 = (inner + B[1:]) if X is B else B
                        if not seqs_equal(A2, B2, depth, why):
                            return False
                return True
        if not A or not B:
            rest = A or B
            for s in rest:
                if isinstance(s, Rep) and prove_bool(s.count <= 0):
                    continue
                if why is not None:
                    why.append("extra %s" % show_segs([s]))
                return False
            return True
        a, b = A[0], B[0]
        if isinstance(a, Item) and isinstance(b, Item):
            if not _values_equal(a.v, b.v, depth, why):
                return False
            A, B = A[1:], B[1:]
            continue
        if isinstance(a, Rep) and isinstance(b, Rep):
            if prove_bool(z3.Or(a.count == b.count, z3.And(a.count <= 0, b.count <= 0))):
                j = z3.FreshConst(z3.IntSort(), "j")
                with assuming(j >= 0, j < a.count) as asm:
                    if not asm.dead and P().feasible():
                        if not seqs_equal(a.seg(j), b.seg(j), depth + 1, why):
                            return False
                A, B = A[1:], B[1:]
                continue
            # peel: a longer than b by a provable amount
            if prove_bool(a.count >= b.count) and prove_bool(b.count >= 0):
                A = [Rep(b.count, a.seg), Rep(a.count - b.count, _shift(a.seg, b.count))] + A[1:]
                continue
            if prove_bool(b.count >= a.count) and prove_bool(a.count >= 0):
                B = [Rep(a.count, b.seg), Rep(b.count - a.count, _shift(b.seg, a.count))] + B[1:]
                continue
        for X, Y in ((A, B), (B, A)):
            if isinstance(X[0], Rep):
                r = X[0]
                if prove_bool(r.count <= 0):
                    X.pop(0)
                    break
                if prove_bool(r.count >= 1):
                    X[0:1] = list(r.seg(z3.IntVal(0))) + [Rep(r.count - 1, _shift(r.seg, z3.IntVal(1)))]
                    break
        else:
            if why is not None:
                why.append("%s != %s" % (show_segs(A[:1]), show_segs(B[:1])))
            return False
    return True


def _shift(seg, off):
    return lambda j: seg(j + off)


def show(v):
    if isinstance(v, SSeq):
        return "[" + show_segs(v.segs) + "]"
    if type(v) is tuple:
        return "(" + ", ".join(show(x) for x in v) + ")"
    try:
        return repr(v)[:300]
    except BaseException as e:
        return "<%s>" % type(v).__name__


def show_segs(segs):
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(show(s.v))
        elif isinstance(s, Guard):
            out.append("if %s: {%s}" % (s.cond, show_segs(s.segs)))
        else:
            j = z3.Int("j")
            out.append("for j<%s: {%s}" % (z3.simplify(s.count), show_segs(s.seg(j))))
    return "; ".join(out)
