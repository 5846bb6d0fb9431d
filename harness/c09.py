"""C09 on concrete geometries."""
import numpy as np
import mdp
from mdp.hinet import (Rectangular2dSwitchboard, DoubleRect2dSwitchboard, ChannelSwitchboard, SwitchboardException)
from mdp.hinet.switchboard import CoordinateTranslator
from .base import *


def fields(n, f, s):
    return (n - f) // s + 1


def field_inputs(x0, y0, fx, fy, ix, d):
    return [(y * ix + x) * d + c for y in range(y0, y0 + fy) for x in range(x0, x0 + fx) for c in range(d)]


def scalar(rng, a, b):
    """a pair may be given as a tuple, a list or, when equal, one number"""
    if a == b and rng.random() < .5:
        return a
    return rng.choice([tuple, list])((a, b))


def queries(rng, sb, con, ocd, icd):
    n = len(con) // ocd
    check(sb.output_channels == n and sb.out_channel_dim == ocd, "output channels %r of %r", sb.output_channels, sb.out_channel_dim)
    check(sb.in_channel_dim == icd and sb.input_channels == sb.input_dim // icd, "input channels")
    k = rng.randrange(n)
    got = list(sb.get_out_channel_input(k))
    check(got == con[k * ocd:(k + 1) * ocd], "channel %d has inputs %r instead of %r", k, got, con[k * ocd:(k + 1) * ocd])
    node = sb.get_out_channel_node(k)
    x = np.arange(2. * sb.input_dim).reshape(2, -1)
    check(np.array_equal(node.execute(x), x[:, con[k * ocd:(k + 1) * ocd]]), "the channel node routes something else")
    ks = rng.choice([k, [k], [rng.randrange(n) for _ in range(rng.randint(1, 4))], list(range(n)), np.array([k])])
    used = sorted(set(c // icd for q in np.atleast_1d(ks) for c in con[q * ocd:(q + 1) * ocd]))
    got = list(sb.get_out_channels_input_channels(ks))
    check(got == used, "output channels %r use input channels %r, reported %r", ks, used, got)


@scenario("rectangular", n=2500, thorough=20)
def rectangular(rng, note):
    ix, iy = rng.randint(1, 9), rng.randint(1, 9)
    fx, fy = rng.randint(1, min(ix + 1, 5)), rng.randint(1, min(iy + 1, 5))
    sx, sy = rng.randint(1, 6), rng.randint(1, 6)
    if rng.random() < .5:
        # geometries that cover the input
        ix, iy = fx + rng.randint(0, 4) * sx, fy + rng.randint(0, 4) * sy
    d = rng.choice([1, 1, 2, 3])
    ignore = rng.random() < .5
    note(inp=(ix, iy), field=(fx, fy), spacing=(sx, sy), d=d, ignore=ignore)
    kw = dict(in_channels_xy=scalar(rng, ix, iy), field_channels_xy=scalar(rng, fx, fy),
              field_spacing_xy=scalar(rng, sx, sy), in_channel_dim=d, ignore_cover=ignore)
    fits = fx <= ix and fy <= iy
    want = None
    if fits:
        nx, ny = fields(ix, fx, sx), fields(iy, fy, sy)
        want = [c for Y in range(ny) for X in range(nx) for c in field_inputs(X * sx, Y * sy, fx, fy, ix, d)]
        covered = set(want) == set(range(ix * iy * d))
    if not fits or not (ignore or covered):
        raises(SwitchboardException, Rectangular2dSwitchboard, **kw)
        return
    sb = Rectangular2dSwitchboard(**kw)
    check(tuple(sb.out_channels_xy) == (nx, ny), "%r output channels instead of %r", sb.out_channels_xy, (nx, ny))
    check(sb.input_dim == ix * iy * d and sb.output_dim == len(want), "dimensions %r -> %r", sb.input_dim, sb.output_dim)
    check(list(sb.connections) == want, "connections %r instead of %r", list(sb.connections), want)
    queries(rng, sb, want, fx * fy * d, d)


@scenario("double rectangular", n=600, thorough=20)
def double(rng, note):
    fx, fy = 2 * rng.randint(1, 2), 2 * rng.randint(1, 2)
    nx, ny = rng.randint(1, 4), rng.randint(1, 4)
    ix, iy = nx * fx, ny * fy
    d = rng.choice([1, 1, 2, 3])
    note(inp=(ix, iy), field=(fx, fy), d=d)
    sb = DoubleRect2dSwitchboard(in_channels_xy=scalar(rng, ix, iy), field_channels_xy=scalar(rng, fx, fy), in_channel_dim=d)
    want = [c for Y in range(ny) for X in range(nx) for c in field_inputs(X * fx, Y * fy, fx, fy, ix, d)]
    want += [c for Y in range(ny - 1) for X in range(nx - 1)
             for c in field_inputs(X * fx + fx // 2, Y * fy + fy // 2, fx, fy, ix, d)]
    check(list(sb.connections) == want, "connections %r instead of %r", list(sb.connections), want)
    queries(rng, sb, want, fx * fy * d, d)


@scenario("coordinates", n=500, thorough=20)
def coordinates(rng, note):
    w, h = rng.randint(1, 7), rng.randint(1, 7)
    t = CoordinateTranslator(w, h)
    note(w=w, h=h)
    for i in range(-2, w * h + 2):
        if 0 <= i < w * h:
            x, y = t.index_to_image(i)
            check((x, y) == (i % w, i // w), "index %d at %r", i, (x, y))
            check(tuple(t.index_to_array(i)) == (y, x), "index %d in the array at %r", i, t.index_to_array(i))
            check(t.image_to_index(x, y) == i and t.array_to_index(y, x) == i, "back to another index")
            check(tuple(t.image_to_array(x, y)) == (y, x) and tuple(t.array_to_image(y, x)) == (x, y), "exchange")
        else:
            raises(Exception, t.index_to_image, i)
            raises(Exception, t.index_to_array, i)
    for x, y in ((-1, 0), (w, 0), (0, -1), (0, h)):
        raises(Exception, t.image_to_index, x, y)
        raises(Exception, t.array_to_index, y, x)


@scenario("channels", n=1000, thorough=20)
def channels(rng, note):
    icd, ocd = rng.randint(1, 3), rng.randint(1, 4)
    d, n = icd * rng.randint(1, 4), ocd * rng.randint(1, 4)
    con = [rng.randrange(d) for _ in range(n)]
    note(d=d, con=con, ocd=ocd, icd=icd)
    sb = ChannelSwitchboard(input_dim=d, connections=con, out_channel_dim=ocd, in_channel_dim=icd)
    queries(rng, sb, con, ocd, icd)
    if icd > 1:
        raises(SwitchboardException, ChannelSwitchboard, d + 1, con, ocd, icd)
    if ocd > 1:
        raises(SwitchboardException, ChannelSwitchboard, d, con + [0], ocd, icd)
