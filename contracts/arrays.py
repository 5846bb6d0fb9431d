"""Symbolic arrays in contracts."""
from .common import *
from pyvc import sarr
from pyvc.sarr import *
from pyvc.engine import prefix_sum

I_, R_ = z3.IntSort(), z3.RealSort()


def oblige_arr(v, name, a, fn, shape):
    """array a has the given shape and elements fn(i, ...)"""
    if not isinstance(a, SArr) or a.ndim != len(shape):
        return v.oblige(name, False)
    cs = [dim_eq(x, y) for x, y in zip(a.shape, shape)]
    idx = [P().fresh("e", I_) for _ in shape]
    rng = z3.And(*[z3.And(i >= 0, i < num_term(s)) for i, s in zip(idx, shape)])
    got, want = a.at(*idx), num_term(wrap(fn(*idx)))
    g = canon(render(sarr._padd(poly(real(wrap(got))), poly(real(wrap(want))), -1), R))
    return v.oblige(name, z3.And(*(cs + [z3.Implies(rng, g == 0)])))


def ints(name, n=1):
    return z3.Function(P().fresh_name(name), *([I_] * (n + 1)))


def in_range(c, n, lo, hi):
    j = z3.Int("cj")
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(c(j) >= lo, c(j) < hi)))


def bounded(a, n):
    """trusted by construction: all elements of the integer array a lie in [0, n)"""
    object.__setattr__(a, "bound", n)
    return a
