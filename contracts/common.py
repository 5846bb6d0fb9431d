"""Loading the instrumented packages and the abstract values shared by the contracts."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:] = [p for p in sys.path if p not in (REPO,)]

from pyvc import transform
transform.install(REPO)
import numpy as np
import z3
from pyvc.core import *
from pyvc import core, engine
from pyvc.engine import *
from pyvc.engine import rt, VList, VTuple, VIter, VDict, track, Cell, _z
from pyvc import models
from pyvc.unit import unit

import mdp
import bimdp
import mdp.parallel
import bimdp.parallel

models.install_package_models()

DSort = z3.DeclareSort("Data")
TSort = z3.DeclareSort("DType")
ASort = z3.DeclareSort("Arg")

f_rows = z3.Function("rows", DSort, z3.IntSort())
f_cols = z3.Function("cols", DSort, z3.IntSort())
f_ndim = z3.Function("ndim", DSort, z3.IntSort())
f_dtype = z3.Function("dtype", DSort, TSort)
f_cast = z3.Function("cast", DSort, TSort, DSort)


class DType(SVal):
    """abstract numpy dtype"""
    _vc_ghost = True

    def __bool__(self):
        return True

    @property
    def name(self):
        return "<dtype>"

    @property
    def char(self):
        raise Unsupported("dtype.char")

    def _vc_isa(self, cls):
        return cls in (np.dtype, object)


class Data(SVal):
    """abstract data array (contents opaque; rank, shape, dtype, cast axiomatised)"""
    def _vc_isa(self, cls):
        return cls in (np.ndarray, object)

    def _vc_type(self):
        return np.ndarray

    def _vc_hasattr(self, n):
        return hasattr(np.ndarray, n)

    @property
    def ndim(self):
        return wrap(f_ndim(self.t))

    @property
    def shape(self):
        P().axiom(z3.And(f_rows(self.t) >= 0, f_cols(self.t) >= 0))
        return (wrap(f_rows(self.t)), wrap(f_cols(self.t)))

    @property
    def dtype(self):
        return DType(f_dtype(self.t))

    def astype(self, t):
        c = f_cast(self.t, t.t)
        P().axiom(z3.And(f_dtype(c) == t.t, f_rows(c) == f_rows(self.t), f_cols(c) == f_cols(self.t),
                          f_ndim(c) == f_ndim(self.t)))
        return Data(c)

    def vc_len(self):
        return self.shape[0]


DEFAULT_DTYPE = DType(z3.Const("float64_dtype", TSort))


@rt.handler(np.dtype)
def _dtype(*a, **k):
    if a and isinstance(a[0], DType):
        return a[0]
    if a and a[0] is None:
        return DEFAULT_DTYPE     # numpy.dtype(None) is the default (double) type
    if a and is_sym(a[0]):
        raise Unsupported("dtype(%r)" % (a[0],))
    return NotImplemented


models.trusted("numpy.dtype is idempotent; x.astype(t) has dtype t and the same rank and shape")


def cast_to(x, t):
    """spec: data x as it must arrive at an implementation of dtype t"""
    return z3.If(f_dtype(x.t) == t.t, x.t, f_cast(x.t, t.t))


def new_data(name="x"):
    return Data(P().fresh(name, DSort))


def new_dtype(name="t"):
    return DType(P().fresh(name, TSort))


class Fn(Ind):
    """a callable of an indexed family; calls are recorded in the ghost trace"""
    def __init__(self, idx, kind=None, trace=None, ret=None):
        Ind.__init__(self, idx)
        object.__setattr__(self, "kind", kind)
        object.__setattr__(self, "trace", trace)
        object.__setattr__(self, "ret", ret)
        object.__setattr__(self, "family", kind)

    def rewrap(self, idx):
        return Fn(idx, self.kind, self.trace, self.ret)

    def __call__(self, *a, **k):
        self.trace.append((self.kind, wrap(self.idx)) + tuple(a) + tuple(sorted(k.items())))
        return self.ret(self.idx, *a, **k) if self.ret else None


def outcome(f, *a, **k):
    """run f; -> ('ok', value) or ('exc', exception)"""
    try:
        return "ok", f(*a, **k)
    except z3.Z3Exception as e:
        raise Unsupported("verifier: %s" % (e,))
    except Exception as e:
        return "exc", e


def fields(obj, *names):
    return tuple(obj.__dict__.get(n, engine.MISSING) for n in names)


def opt_int(name, lo=None):
    """None or a symbolic integer"""
    if rt.case(name + "_is_none"):
        return None
    return rt.fresh_int(name, lo)


def skeleton(segs):
    """the shape of a symbolic list: its elements replaced by 0"""
    out = []
    for s in core._norm(segs):
        if isinstance(s, Item):
            out.append(Item(0))
        elif isinstance(s, Guard):
            out.append(Guard(s.cond, skeleton(s.segs)))
        else:
            out.append(Rep(s.count, (lambda f: lambda j: skeleton(f(j)))(s.seg)))
    return out


def some_element(v, segs, path=()):
    """an arbitrary element of a symbolic list -> (indices, value)"""
    segs = core._norm(segs)
    if not segs:
        return path, None
    k = 0 if len(segs) == 1 else v.choose(list(range(len(segs))))
    s = segs[k]
    if isinstance(s, Item):
        return path, s.v
    if isinstance(s, Guard):
        v.assume(s.cond)
        return some_element(v, s.segs, path)
    j = v.fresh_int("pos", 0).t
    v.assume(j < s.count)
    return some_element(v, s.seg(j), path + (j,))


class Patched(object):
    """attributes of a module or class replaced for the duration of a unit"""
    def __init__(self, target, **names):
        self.target, self.names = target, names

    def __enter__(self):
        # names of the builtins can be shadowed in a module
        self.old = {k: self.target.__dict__.get(k, engine.MISSING) for k in self.names}
        for k, f in self.names.items():
            setattr(self.target, k, f)
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            if f is engine.MISSING:
                delattr(self.target, k)
            else:
                setattr(self.target, k, f)
