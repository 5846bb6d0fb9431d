"""C08 on concrete switchboards: routing against the connection list."""
import numpy as np
import mdp
from mdp.hinet import Switchboard, MeanInverseSwitchboard, SwitchboardException, ChannelSwitchboard
from bimdp.hinet import BiSwitchboard, ChannelBiSwitchboard
from .base import *


def connections(rng, d):
    k = rng.choice(["perm", "perm", "any", "any", "repeat", "short", "long", "dup"])
    if k == "perm":
        c = list(range(d))
        rng.shuffle(c)
    elif k == "any":
        c = [rng.randrange(d) for _ in range(rng.randint(1, 2 * d))]
    elif k == "repeat":
        c = [rng.randrange(d) for _ in range(d)]
    elif k == "short":
        c = rng.sample(range(d), rng.randint(1, d))
    elif k == "dup":
        c = list(range(d))
        rng.shuffle(c)
        c[rng.randrange(d)] = c[rng.randrange(d)]
    else:
        c = [rng.randrange(d) for _ in range(3 * d + 1)]
    return c


def form(rng, c):
    return rng.choice([list, tuple, np.array, lambda v: np.array(v, dtype="int32")])(c)


def signal(rng, m, d):
    t = rng.choice(["d", "d", "f", "i", "D"])
    x = np.array([[rng.uniform(-5, 5) for _ in range(d)] for _ in range(m)])
    if t == "i":
        return np.round(x * 10).astype("i")
    if t == "D":
        return x + 1j * x[::-1]
    return x.astype(t)


@scenario("routing", n=3000, thorough=20)
def routing(rng, note):
    d = rng.randint(1, 7)
    c = connections(rng, d)
    m = rng.randint(1, 4)
    x = signal(rng, m, d)
    s = Switchboard(input_dim=d, connections=form(rng, c))
    note(d=d, c=c, x=x)
    check(s.input_dim == d and s.output_dim == len(c), "dimensions %r -> %r", s.input_dim, s.output_dim)
    keep = x.copy()
    y = s.execute(x)
    want = np.array([[x[r][j] for j in c] for r in range(m)])
    check(y.shape == want.shape and np.array_equal(y, want), "executed to %r instead of %r", y, want)
    check(y.dtype == x.dtype, "dtype %r", y.dtype)
    check(np.array_equal(x, keep), "the input was changed")
    perm = sorted(c) == list(range(d))
    check(s.is_invertible() == perm, "reported invertible %r for %r", s.is_invertible(), c)
    if perm:
        check(np.array_equal(s.inverse(y), x), "inverse %r instead of %r", s.inverse(y), x)
    else:
        raises(mdp.NodeException, s.inverse, y)


@scenario("rejected", n=600, thorough=10)
def rejected(rng, note):
    d = rng.randint(1, 6)
    c = connections(rng, d)
    bad = rng.choice(["large", "negative", "empty", "equal"])
    if bad == "empty":
        c = []
    else:
        c[rng.randrange(len(c))] = {"large": d + rng.randint(0, 5), "negative": -rng.randint(1, d + 2), "equal": d}[bad]
    cls = rng.choice([Switchboard, MeanInverseSwitchboard, BiSwitchboard])
    note(d=d, c=c)
    raises(SwitchboardException, cls, input_dim=d, connections=form(rng, c))


@scenario("mean", n=3000, thorough=20)
def mean(rng, note):
    d = rng.randint(1, 7)
    c = connections(rng, d)
    m = rng.randint(1, 4)
    s = MeanInverseSwitchboard(input_dim=d, connections=form(rng, c))
    y = signal(rng, m, len(c))
    note(d=d, c=c, y=y)
    check(s.is_invertible(), "not invertible")
    keep = y.copy()
    x = s.inverse(y)
    want = np.zeros((m, d), dtype=complex)
    for i in range(d):
        src = [j for j in range(len(c)) if c[j] == i]
        for r in range(m):
            want[r, i] = sum(complex(y[r, j]) for j in src) / len(src) if src else 0
    check(x.shape == want.shape and np.allclose(x, want, rtol=1e-5, atol=1e-5), "inverse %r instead of %r", x, want)
    check(np.array_equal(y, keep), "the data was changed")


@scenario("messages", n=2500, thorough=20)
def messages(rng, note):
    d = rng.randint(1, 5)
    c = connections(rng, d)
    s = BiSwitchboard(input_dim=d, connections=form(rng, c))
    perm = sorted(c) == list(range(d))
    fwd = not perm or rng.random() < .6
    win, con = (d, c) if fwd else (len(c), [c.index(i) for i in range(d)])
    msg, want = {}, {}
    for key in rng.sample(["a", "b", "other=>c", "long_name", "z"], rng.randint(0, 4)):
        k = rng.choice(["match", "match", "match3", "wrong", "flat", "obj", "list"])
        m = rng.randint(1, 3)
        if k == "match":
            v = signal(rng, m, win)
        elif k == "match3":
            v = np.arange(m * win * 2.).reshape(m, win, 2)
        elif k == "wrong":
            v = signal(rng, m, win + rng.randint(1, 2))
        elif k == "flat":
            v = np.arange(float(win))
        else:
            v = rng.choice([None, "text", 3, True]) if k == "obj" else [1] * win
        msg[key] = v
        want[key] = v[:, con] if k in ("match", "match3") else v
    keep = dict((k, v.copy() if isinstance(v, np.ndarray) else v) for k, v in msg.items())
    x = None if rng.random() < .3 else signal(rng, rng.randint(1, 3), win)
    note(d=d, c=c, fwd=fwd, msg=msg, x=x)
    f = s.execute if fwd else s.inverse
    if x is None and (not msg or not fwd):
        raise Skip()
    r = f(x, dict(msg)) if msg else f(x)
    y, out = r if isinstance(r, tuple) else (r, {})
    check(sorted(out or {}) == sorted(want), "message keys %r instead of %r", sorted(out or {}), sorted(want))
    for k, v in want.items():
        if isinstance(v, np.ndarray):
            check(np.array_equal(out[k], v), "message entry %s is %r instead of %r", k, out[k], v)
            check(np.array_equal(msg[k], keep[k]), "message array %s was changed", k)
        else:
            check(out[k] == v, "message entry %s is %r instead of %r", k, out[k], v)
    if x is None:
        check(y is None, "output without data: %r", y)
    else:
        check(np.array_equal(y, x[:, con]), "data routed to %r instead of %r", y, x[:, con])
