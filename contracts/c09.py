"""C09: rectangular switchboards tile the input grid exactly as their geometry says."""
from .common import *
from .arrays import *
from mdp.hinet import switchboard as S

MOD = "mdp.hinet.switchboard:"


def pos(v, *names):
    return [v.fresh_int(n, 1) for n in names]


@unit("CoordinateTranslator", [MOD + "CoordinateTranslator." + f for f in (
    "__init__", "image_to_array", "array_to_image", "image_to_index", "array_to_index", "index_to_array", "index_to_image")], max_time=400)
def translator(v):
    w, h = pos(v, "w", "h")
    t = S.CoordinateTranslator(w, h)
    op = v.choose(["image", "array", "iimage", "iarray", "swap"])
    if op == "swap":
        x, y = v.fresh_int("x"), v.fresh_int("y")
        v.oblige_eq("image to array exchanges the coordinates", VList(list(t.image_to_array(x, y))), VList([y, x]))
        v.oblige_eq("array to image exchanges the coordinates", VList(list(t.array_to_image(y, x))), VList([x, y]))
        return
    if op in ("image", "array"):
        x, y = v.fresh_int("x"), v.fresh_int("y")
        ok = z3.And(x.t >= 0, x.t < w.t, y.t >= 0, y.t < h.t)
        kind, i = outcome(t.image_to_index, x, y) if op == "image" else outcome(t.array_to_index, y, x)
        if kind == "exc":
            v.oblige("refused only outside the grid", z3.Not(ok))
            return
        v.oblige("refused outside the grid", ok)
        v.oblige("flat index", i.t == y.t * w.t + x.t)
        rows_lemma(v, y, h, w)
        v.oblige("the index lies in the grid", z3.And(i.t >= 0, i.t < w.t * h.t))
        cell_lemma(v, x, y, w)
        kind, r = outcome(t.index_to_image if op == "image" else t.index_to_array, i)
        v.oblige("the index is accepted", kind == "ok")
        if kind == "ok":
            v.oblige_eq("converting back is exactly inverse", VList(list(r)), VList([x, y] if op == "image" else [y, x]))
        return
    i = v.fresh_int("i")
    ok = z3.And(i.t >= 0, i.t < w.t * h.t)
    kind, r = outcome(t.index_to_image if op == "iimage" else t.index_to_array, i)
    if kind == "exc":
        v.oblige("refused only outside the grid", z3.Not(ok))
        return
    v.oblige("refused outside the grid", ok)
    x, y = r if op == "iimage" else (r[1], r[0])
    v.oblige("division with remainder", z3.And(x.t >= 0, x.t < w.t, y.t * w.t + x.t == i.t))
    v.oblige("row inside the grid", z3.And(y.t >= 0))
    rows_lemma2(v, y, h, w)
    v.oblige("row inside the grid", y.t < h.t)
    kind, j = outcome(t.image_to_index, x, y) if op == "iimage" else outcome(t.array_to_index, y, x)
    v.oblige("the coordinates are accepted", kind == "ok")
    if kind == "ok":
        v.oblige("converting back is exactly inverse", j.t == i.t)


@unit("lemma: products of ordered numbers", [])
def lemma(v):
    a, b, s = v.fresh_int("a").t, v.fresh_int("b").t, v.fresh_int("s").t
    v.oblige("a <= b implies a*s <= b*s", z3.Implies(z3.And(a <= b, s >= 0), (b - a) * s >= 0))
    v.oblige("distribution", (b - a) * s == b * s - a * s)


def mono(a, b, s):
    """instance of the lemma: a <= b and s >= 0 imply a*s <= b*s"""
    a, b, s = [num_term(q) for q in (a, b, s)]
    P().axiom(z3.Implies(z3.And(a <= b, s >= 0), a * s <= b * s))


def rows_lemma(v, y, h, w):
    """y <= h-1 implies y*w <= (h-1)*w"""
    mono(y, wrap(h.t - 1), w)
    mono(wrap(z3.IntVal(0)), y, w)
    P().axiom((h.t - 1) * w.t == h.t * w.t - w.t)
    P().axiom(h.t * w.t == w.t * h.t)


def rows_lemma2(v, y, h, w):
    """y >= h implies y*w >= h*w"""
    mono(h, y, w)
    P().axiom(h.t * w.t == w.t * h.t)


def cell_lemma(v, x, y, w):
    """0 <= x < w: the quotient of y*w + x by w is y"""
    # (uniqueness of division with remainder: proved by z3 for the engine's definition of // and %)
    i = y.t * w.t + x.t
    q, r = wrap(i) // w, wrap(i) % w
    mono(wrap(q.t + 1), y, w)
    mono(wrap(y.t + 1), q, w)
    P().axiom((q.t + 1) * w.t == q.t * w.t + w.t)
    P().axiom((y.t + 1) * w.t == y.t * w.t + w.t)


class Log(object):
    """the connection array while it is filled: records every block written"""
    dtype = np.dtype("int32")

    def __init__(self, size):
        self.size = size
        self.writes = VList()

    def __setitem__(self, sl, val):
        if not isinstance(sl, slice) or sl.step is not None:
            raise Unsupported("writing single connections")
        self.writes.append((sl.start, sl.stop, SSeq(seq_segs(val))))


def logged(v, f):
    """run f with zeros returning logs, in-range coordinates and the base constructor as recorder"""
    logs, base = [], []
    old = rt.handlers[np.zeros]

    def zeros(shape, *a, **k):
        n = shape[0] if isinstance(shape, (list, tuple)) else shape
        logs.append(Log(n))
        track(logs[-1])
        return logs[-1]

    class Coord(object):
        """contract of CoordinateTranslator (proved above)"""
        def __init__(self, w, h):
            self.w, self.h = w, h

        def image_to_index(self, x, y):
            x, y, w, h = [num_term(q) for q in (x, y, self.w, self.h)]
            v.oblige("channel column inside the input", z3.And(x >= 0, x < w))
            v.oblige("channel row inside the input", z3.And(y >= 0, y < h))
            return wrap(y * w + x)

    def init(self, input_dim, connections, out_channel_dim, in_channel_dim=1):
        base.append((input_dim, connections, out_channel_dim, in_channel_dim))
    oldc, oldi = S.CoordinateTranslator, S.ChannelSwitchboard.__init__
    rt.handlers[np.zeros] = zeros
    S.CoordinateTranslator, S.ChannelSwitchboard.__init__ = Coord, init
    try:
        return outcome(f), logs, base
    finally:
        rt.handlers[np.zeros] = old
        S.CoordinateTranslator, S.ChannelSwitchboard.__init__ = oldc, oldi


def rect(v, ignore, x, y):
    ix, iy, fx, fy, sx, sy, d = pos(v, "ix", "iy", "fx", "fy", "sx", "sy", "d")
    v.assume(REL[x](ix.t, fx.t))
    v.assume(REL[y](iy.t, fy.t))
    (kind, o), logs, base = logged(v, lambda: S.Rectangular2dSwitchboard((ix, iy), (fx, fy), (sx, sy), d, ignore))
    fits = z3.And(fx.t <= ix.t, fy.t <= iy.t)

    def unused(i, f, s):
        return z3.Or((i - f) % s != 0, z3.And(s > f, i - f >= s))
    covered = z3.Not(z3.Or(unused(ix.t, fx.t, sx.t), unused(iy.t, fy.t, sy.t)))
    if kind == "exc":
        v.oblige("refused with a switchboard exception", isinstance(o, S.SwitchboardException))
        v.oblige("refused only when no field fits, or strict and a channel is uncovered",
                 z3.Not(fits) if ignore else z3.Or(z3.Not(fits), z3.Not(covered)))
        return
    v.oblige("refused when a field does not fit", fits)
    if not ignore:
        v.oblige("strict: refused when a channel is uncovered", covered)
    nx, ny = o.out_channels_xy
    for n, i, f, s in ((nx, ix, fx, sx), (ny, iy, fy, sy)):
        v.oblige("the largest number of fields that fits",
                 z3.And(n.t >= 1, (n.t - 1) * s.t + f.t <= i.t, n.t * s.t + f.t > i.t))
    v.oblige("one connection array, one base constructor call", len(logs) == 1 and len(base) == 1)
    input_dim, con, ocd, icd = base[0]
    v.oblige("the connections given to the base", con is logs[0])
    v.oblige_eq("input dimension", input_dim, d * ix * iy)
    v.oblige_eq("channel size of the output", ocd, d * fx * fy)
    v.oblige_eq("channel size of the input", icd, d)
    v.oblige_eq("number of connections", logs[0].size, nx * ny * fx * fy * d)

    def cell(Y, X, b, a):
        start = (((Y * nx.t + X) * fy.t + b) * fx.t + a) * d.t
        ch = (Y * sy.t + b) * ix.t + X * sx.t + a
        return Item((wrap(start), wrap(start + d.t), SSeq([span(d.t, lambda c: wrap(ch * d.t + c))])))
    want = VList.of([Rep(ny.t, lambda Y: [Rep(nx.t, lambda X: [Rep(fy.t, lambda b: [Rep(fx.t, lambda a: [cell(Y, X, b, a)])])])])])
    v.oblige_eq("the connections, block by block", logs[0].writes, want)


REL = {"<": lambda a, b: a < b, "=": lambda a, b: a == b, ">": lambda a, b: a > b}
for ignore in (False, True):
    for x in "=>":
        for y in "=>":
            unit("Rectangular2dSwitchboard (%s, input %s field, %s)" % ("cover ignored" if ignore else "strict", x, y),
                 [MOD + "Rectangular2dSwitchboard.__init__", MOD + "to_2tuple"], max_paths=20000, max_time=500)(
                     lambda v, a=(ignore, x, y): rect(v, *a))


@unit("ChannelSwitchboard", [MOD + "ChannelSwitchboard.__init__", MOD + "ChannelSwitchboard.get_out_channel_input",
                             MOD + "ChannelSwitchboard.get_out_channel_node"])
def channel(v):
    d, n, o, i = v.fresh_int("d", 0), v.fresh_int("n", 0), v.fresh_int("o", 1), v.fresh_int("i", 1)
    c = ints("c")
    con = SArr((n,), lambda j: c(j), I_)
    made = []

    def init(self, input_dim, connections, *a):
        """contract of Switchboard.__init__ (C08)"""
        self.connections, self._input_dim, self._output_dim = connections, input_dim, wrap(num_term(connections.shape[0]))
        made.append((self, input_dim, connections))
    old = S.Switchboard.__init__
    S.Switchboard.__init__ = init
    try:
        kind, s = outcome(S.ChannelSwitchboard, d, con, o, i)
        if kind == "exc":
            v.oblige("refused with a switchboard exception", isinstance(s, S.SwitchboardException))
            v.oblige("refused only when the channels do not divide the dimensions", z3.Or(n.t % o.t != 0, d.t % i.t != 0))
            return
        v.oblige("channels divide the dimensions", z3.And(n.t % o.t == 0, d.t % i.t == 0))
        v.oblige("output channels", num_term(s.output_channels) * o.t == n.t)
        v.oblige("input channels", num_term(s.input_channels) * i.t == d.t)
        k = v.fresh_int("k", 0)
        v.assume(k.t < num_term(s.output_channels))
        mono(k + 1, s.output_channels, o)
        P().axiom((k.t + 1) * o.t == k.t * o.t + o.t)
        oblige_arr(v, "connections of output channel k", s.get_out_channel_input(k), lambda j: c(k.t * o.t + j), (o,))
        del made[:]
        s.get_out_channel_node(k)
        v.oblige_eq("the channel node has the input dimension", made[0][1], d)
        oblige_arr(v, "the channel node routes output channel k", made[0][2], lambda j: c(k.t * o.t + j), (o,))
    finally:
        S.Switchboard.__init__ = old
