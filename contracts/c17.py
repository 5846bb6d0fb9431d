"""C17: the message protocol of bi-nodes.

Message names are abstract (an integer each, literals like "target" are distinct constants); f_addr(k): the name carries a
node id, f_own(k): the id of this node, f_base(k): the name without the id.  A message is a finite map name -> value.
"""
from .common import *
import inspect

B = sys.modules["bimdp.binode"]
MOD = "bimdp.binode:"
I_ = z3.IntSort()
f_addr = z3.Function("addressed", I_, z3.BoolSort())
f_own = z3.Function("addressed_to_this_node", I_, z3.BoolSort())
f_pos = z3.Function("position", I_, I_)
f_base = z3.Function("name_without_id", I_, I_)
f_multi = z3.Function("more_than_one_separator", I_, z3.BoolSort())
LITERALS = {}


def upd(f, i, x):
    return lambda j: z3.If(j == i, x, f(j))


def kidx(k):
    if isinstance(k, MKey):
        return k.idx
    if type(k) is str:
        return z3.IntVal(-1 - LITERALS.setdefault(k, len(LITERALS)))
    raise Unsupported("message key %r" % (k,))


class Id(object):
    """the id in front of the separator"""
    _vc_ghost = True

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if o is P().globals["own id"]:
            return wrap(f_own(self.k))
        return NotImplemented

    def __ne__(self, o):
        if o is P().globals["own id"]:
            return wrap(z3.Not(f_own(self.k)))
        return NotImplemented

    __hash__ = None


class OwnId(object):
    _vc_ghost = True

    def __eq__(self, o):
        if isinstance(o, Id):
            return wrap(f_own(o.k))
        return self is o

    __hash__ = None


class MKey(Ind):
    """a name in a message"""
    family = "message name"

    def _vc_isa(self, cls):
        return cls in (str, object)

    def find(self, sep):
        rt.oblige("the separator is looked for", sep == B.MSG_ID_SEP)
        return wrap(z3.If(f_addr(self.idx), z3.If(f_pos(self.idx) > 1, f_pos(self.idx), 1), z3.If(f_pos(self.idx) > 0, 0, -1)))

    def split(self, sep, n=-1):
        rt.oblige("separator", sep == B.MSG_ID_SEP)
        rt.oblige("the name is addressed", f_addr(self.idx))
        if n != 1 and P().branch(f_multi(self.idx)):
            return [Id(self.idx), MKey(f_base(self.idx)), MKey(f_base(f_base(self.idx)))]
        return [Id(self.idx), MKey(f_base(self.idx))]

    def partition(self, sep):
        i, k = self.split(sep, 1)
        return i, sep, k


class Val(Ind):
    family = "message value"

    def _vc_isa(self, cls):
        return cls is object

    def _vc_type(self):
        return Val


class Map(object):
    """a message (or the named arguments)"""
    _vc_ghost = True

    def __init__(self, v=None, name="msg", listed=False):
        if v is not None and not listed:
            fh, fv = z3.Function(P().fresh_name(name + "_has"), I_, z3.BoolSort()), z3.Function(P().fresh_name(name + "_val"), I_, I_)
            self.has, self.val, self.order = (lambda q: fh(q)), (lambda q: fv(q)), None
            return
        if v is None:
            self.has = lambda q: z3.BoolVal(False)
            self.val = lambda q: z3.IntVal(0)
            self.order = None
            return
        fh, fv = z3.Function(P().fresh_name(name + "_has"), I_, z3.BoolSort()), z3.Function(P().fresh_name(name + "_val"), I_, I_)
        self.n = v.fresh_int(name + "_size", 0).t
        self.pos, self.key = z3.Function(P().fresh_name("pos"), I_, I_), z3.Function(P().fresh_name("key"), I_, I_)
        i = z3.Int("ki")
        v.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(fh(self.key(i)), self.pos(self.key(i)) == i))))
        v.assume(z3.ForAll([i], fh(i) == z3.And(self.pos(i) >= 0, self.pos(i) < self.n, self.key(self.pos(i)) == i)))
        self.has, self.val, self.order = (lambda q: fh(q)), (lambda q: fv(q)), fh

    def vc_contains(self, k):
        return wrap(self.has(kidx(k)))

    def __contains__(self, k):
        return P().branch(self.has(kidx(k)))

    def __bool__(self):
        ne = rt.fresh_bool("nonempty").t
        w, q = rt.fresh_int("some_name").t, z3.Int("nq")
        rt.assume(wrap(z3.Implies(ne, self.has(w))))
        rt.assume(z3.ForAll([q], z3.Implies(self.has(q), ne)))
        return P().branch(ne)

    def changed(self):
        self.order = None

    def __getitem__(self, k):
        if not P().branch(self.has(kidx(k))):
            raise KeyError(k)
        return Val(self.val(kidx(k)))

    def get(self, k, default=None):
        return Val(self.val(kidx(k))) if P().branch(self.has(kidx(k))) else default

    def __setitem__(self, k, x):
        self.changed()
        k = kidx(k)
        if isinstance(x, Map):
            self.special = (k, x)
            x = Val(z3.IntVal(-7))
        if not isinstance(x, Val):
            raise Unsupported("message value %r" % (x,))
        self.has, self.val = upd(self.has, k, z3.BoolVal(True)), upd(self.val, k, x.idx)

    def __delitem__(self, k):
        self.pop(k)

    def pop(self, k, *default):
        if not P().branch(self.has(kidx(k))):
            if default:
                return default[0]
            raise KeyError(k)
        r = Val(self.val(kidx(k)))
        self.changed()
        self.has = upd(self.has, kidx(k), z3.BoolVal(False))
        return r

    def update(self, o):
        if isinstance(o, dict) and len(o) == 0:
            return
        if isinstance(o, Map):
            self.changed()
            oh, ov, sh, sv = o.has, o.val, self.has, self.val
            self.has, self.val = (lambda q: z3.Or(oh(q), sh(q))), (lambda q: z3.If(oh(q), ov(q), sv(q)))
        else:
            raise Unsupported("update with %r" % (o,))

    def copy(self):
        m = Map()
        m.has, m.val = self.has, self.val
        return m

    def vc_segs(self):
        if self.order is None:
            raise Unsupported("iteration over a modified message")
        def element(i):
            P().axiom(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(h(self.key(i)), self.pos(self.key(i)) == i)))
            return [Item(MKey(self.key(i)))]
        h = self.order
        return [Rep(self.n, element)]

    def keys(self):
        return VIter(self.vc_segs())

    def __iter__(self):
        return iter(VIter(self.vc_segs()))

    def items(self):
        self.vc_segs()
        return VIter([Rep(self.n, lambda i: [Item((MKey(self.key(i)), Val(self.val(self.key(i)))))])])

    def state(self):
        return self.has, self.val


def same_map(v, name, m, has, val):
    """m (None is an empty message) has exactly these entries"""
    q = v.fresh_int("some_name").t
    if m is None or not isinstance(m, Map) and len(m) == 0:
        v.oblige(name + ": no entries", z3.Not(has(q)))
        return
    v.oblige(name + ": names", m.has(q) == has(q))
    v.oblige(name + ": values", z3.Implies(has(q), m.val(q) == val(q)))


class Method(object):
    """a bound method with abstract arguments"""
    _vc_ghost = True

    def __init__(self, name, args=None):
        self.name, self.args = name, args

    def __call__(self, *a, **k):
        return P().globals["call"](self, *a, **k)


class Args(object):
    """argument names of a method: f_arg(k); "msg" iff wants"""
    _vc_ghost = True

    def __init__(self, v):
        self.f = z3.Function(P().fresh_name("is_argument"), I_, z3.BoolSort())
        self.wants = self.f(kidx("msg"))

    def vc_contains(self, k):
        return wrap(self.f(kidx(k)))

    def __contains__(self, k):
        return P().branch(self.f(kidx(k)))


class OwnKeys(object):
    """the names addressed to this node, as (name, full name): distinct, all in the message"""
    def __init__(self, v, msg):
        self.m = v.fresh_int("n_own", 0).t
        self.b, self.fk = z3.Function(P().fresh_name("own_name"), I_, I_), z3.Function(P().fresh_name("full_name"), I_, I_)
        self.pb, self.pf = z3.Function(P().fresh_name("pos_name"), I_, I_), z3.Function(P().fresh_name("pos_full"), I_, I_)
        i = z3.Int("oi")
        ok = z3.And(i >= 0, i < self.m)
        v.assume(z3.ForAll([i], z3.Implies(ok, z3.And(msg.has(self.fk(i)), f_own(self.fk(i)), f_addr(self.fk(i)), self.pb(self.b(i)) == i, self.pf(self.fk(i)) == i))))
        def element(j):
            P().axiom(z3.Implies(z3.And(j >= 0, j < self.m), z3.And(h0(self.fk(j)), self.pb(self.b(j)) == j, self.pf(self.fk(j)) == j)))
            return MKey(self.b(j)), MKey(self.fk(j))
        h0 = msg.has
        self.list = VList.of([span(self.m, element)])

    def among(self, q, n=None):
        """q is one of the names"""
        p = self.pb(q)
        return z3.And(p >= 0, p < (self.m if n is None else n), self.b(p) == q)

    def full(self, q, n=None):
        """q is one of the full names"""
        p = self.pf(q)
        return z3.And(p >= 0, p < (self.m if n is None else n), self.fk(p) == q)


class Node(B.BiNode):
    pass


def bare(cls=Node, **d):
    n = cls.__new__(cls)
    track(n)
    own = P().globals.setdefault("own id", OwnId())
    n.__dict__.update(_node_id=own, _dtype=None)
    n.__dict__.update(d)
    return n


@unit("BiNode._get_msg_id_keys", [MOD + "BiNode._get_msg_id_keys"])
def id_keys(v):
    n = bare()
    msg = Map(v, listed=True)
    q = z3.Int("iq")
    v.assume(z3.ForAll([q], z3.Implies(f_own(q), f_addr(q))))
    h, w = msg.state()
    r = n._get_msg_id_keys(msg)
    v.oblige_eq("exactly the names addressed to this node", r, VList.of([Rep(msg.n, lambda j: [Guard(f_own(msg.key(j)), [Item((MKey(f_base(msg.key(j))), MKey(msg.key(j))))])])]))
    same_map(v, "the message is unchanged", msg, h, w)


@unit("BiNode._extract_message_key", [MOD + "BiNode._extract_message_key"])
def extract_key(v):
    msg = Map(v)
    own = OwnKeys(v, msg)
    k = v.fresh_int("wanted").t
    v.assume(z3.Not(f_addr(k)))
    h, w = msg.state()
    r = Node._extract_message_key(MKey(k), msg, own.list)
    found = v.case("addressed entry there")
    if found:
        v.assume(own.among(k))
        p = own.pb(k)
        v.oblige("the addressed entry wins", isinstance(r, Val))
        v.oblige_eq("its value", r, Val(w(own.fk(p))))
        same_map(v, "it is taken out of the message", msg, lambda q: z3.And(h(q), q != own.fk(p)), w)
        v.oblige_eq("and of the list", own.list, VList.of([span(p, lambda j: (MKey(own.b(j)), MKey(own.fk(j)))), span(own.m - p - 1, lambda j: (MKey(own.b(p + 1 + j)), MKey(own.fk(p + 1 + j))))]))
    else:
        v.assume(z3.Not(own.among(k)))
        same_map(v, "the message is unchanged", msg, h, w)
        v.oblige_eq("the list is unchanged", own.list, VList.of([span(own.m, lambda j: (MKey(own.b(j)), MKey(own.fk(j))))]))
        if r is None:
            v.oblige("no such entry", z3.Not(h(k)))
        else:
            v.oblige("there is such an entry", h(k))
            v.oblige_eq("its value", r, Val(w(k)))


class Taken(object):
    """the first k addressed names are taken out of the message, those of arguments are handed over"""
    def __init__(self, loop, locals_):
        self.args, self.msg, self.own, self.sig = P().globals["taken"]
        self.args = P().globals["arg_dict"]
        self.a0, self.m0 = self.args.state(), self.msg.state()
        self.objects = []

    def want(self, k):
        own, (ah, av), (mh, mv), f = self.own, self.a0, self.m0, self.sig.f
        return (lambda q: z3.Or(ah(q), z3.And(own.among(q, k), f(q))),
                lambda q: z3.If(z3.And(own.among(q, k), f(q)), mv(own.fk(own.pb(q))), av(q)),
                lambda q: z3.And(mh(q), z3.Not(own.full(q, k))), mv)

    def check(self, when, k):
        q = rt.fresh_int("some_name").t
        ah, av, mh, mv = self.want(k)
        rt.oblige("%s: arguments" % when, z3.And(self.args.has(q) == ah(q), z3.Implies(ah(q), self.args.val(q) == av(q))))
        rt.oblige("%s: message" % when, z3.And(self.msg.has(q) == mh(q), z3.Implies(mh(q), self.msg.val(q) == mv(q))))

    def havoc(self, k):
        ah, av, mh, mv = self.want(k)
        self.args.has, self.args.val, self.msg.has, self.msg.val = ah, av, mh, mv
        self.msg.changed()


def dict_(*a, **k):
    """dict() of pairs (name, value)"""
    if len(a) == 1 and not k and not isinstance(a[0], dict):
        m = P().globals["arg_dict"] = Map()
        msg = P().globals["taken"][1]
        if isinstance(a[0], Map):
            return a[0].copy()
        segs = engine.seq_segs(a[0])
        if len(segs) != 1 or not isinstance(segs[0], Rep):
            raise Unsupported("dict(%r)" % (segs,))
        j = z3.Int(P().fresh_name("dj"))
        cond, items = z3.BoolVal(True), segs[0].seg(j)
        while len(items) == 1 and isinstance(items[0], Guard):
            cond, items = z3.And(cond, items[0].cond), items[0].segs
        if len(items) != 1 or not isinstance(items[0], Item) or not isinstance(items[0].v, tuple):
            raise Unsupported("dict of %r" % (items,))
        key, val = items[0].v
        rt.oblige("one entry for each name", z3.Implies(z3.And(j >= 0, j < msg.n, cond), key.idx == msg.key(j)))
        at = lambda t, q: z3.substitute(t, (j, msg.pos(q)))
        m.has = lambda q: z3.And(msg.pos(q) >= 0, msg.pos(q) < msg.n, msg.key(msg.pos(q)) == q, at(cond, q))
        m.val = lambda q: at(val.idx, q)
        return m
    if not a and not k:
        m = P().globals["arg_dict"] = Map()
        return m
    return dict(*a, **k)


@unit("BiNode._extract_method_args", [MOD + "BiNode._extract_method_args"])
def method_args(v):
    msg = Map(v, listed=True)
    own = OwnKeys(v, msg)
    sig = Args(v)
    q = z3.Int("mq")
    # arguments are no addressed names, and the message has no entry with the name of the data argument or self
    v.assume(z3.ForAll([q], z3.Implies(sig.f(q), z3.Not(f_addr(q)))))
    P().globals["taken"] = (None, msg, own, sig)
    P().globals["arg_dict"] = None
    P().globals["mkdict"] = dict_
    rt.hoare = [lambda loop, locals_: Taken(loop, locals_) if P().globals["arg_dict"] is not None else None]
    meth = Method("m", sig)
    h, w = msg.state()
    with Patched(B, getargs=lambda m: (m.args, None, None, None, [], None, {}), dict=dict_):
        out, args = Node._extract_method_args(meth, msg, own.list)
    v.oblige("named arguments", args is P().globals["arg_dict"])
    mine = lambda q: z3.And(own.among(q), sig.f(q))
    v.assume(sig.wants if v.case("wants the message") else z3.Not(sig.wants))
    rest = lambda q: z3.And(h(q), z3.Not(own.full(q)))
    same_map(v, "the rest of the message", msg, rest, w)
    wanted = lambda q: z3.Or(z3.And(h(q), sig.f(q)), mine(q))
    value = lambda q: z3.If(mine(q), w(own.fk(own.pb(q))), w(q))
    if out is None:
        v.oblige("the message is handed over", sig.wants)
        v.oblige("itself", getattr(args, "special", (None, None))[1] is msg)
        k = v.fresh_int("some_name").t
        isit = k == kidx("msg")
        v.oblige("exactly the arguments", z3.Implies(z3.Not(isit), z3.And(args.has(k) == wanted(k), z3.Implies(wanted(k), args.val(k) == value(k)))))
        v.oblige("and the message", z3.And(args.has(kidx("msg")), args.val(kidx("msg")) == -7))
    else:
        v.oblige("the message goes on", out is msg)
        v.oblige("it was not asked for", z3.Not(sig.wants))
        same_map(v, "exactly the arguments", args, wanted, value)


class Name(Ind):
    """the name of a method requested in a message"""
    family = "method name"

    def __bool__(self):
        return True

    def __radd__(self, prefix):
        if prefix != "_":
            raise Unsupported("prefix %r" % (prefix,))
        return AttrName(self.idx)

    def vc_eq_str(self, s):
        return wrap(self.idx == kidx(s))

    def __eq__(self, o):
        if type(o) is str:
            return self.vc_eq_str(o)
        return Ind.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(z3.Not(r.t))

    __hash__ = Ind.__hash__


class AttrName(Ind):
    family = "attribute name"

    def __str__(self):
        return "<attribute>"

    __repr__ = __str__

    def __format__(self, s):
        return "<attribute>"


f_exists = z3.Function("attribute_exists", I_, z3.BoolSort())
f_callable = z3.Function("attribute_callable", I_, z3.BoolSort())


class NamedMethod(Ind):
    family = "method"


def getattr_(o, n, *default):
    if isinstance(n, AttrName):
        if P().branch(f_exists(n.idx)):
            return NamedMethod(n.idx)
        if default:
            return default[0]
        raise AttributeError("<attribute>")
    return getattr(o, n, *default)


def hasattr_(o, n):
    if isinstance(n, AttrName):
        return P().branch(f_exists(n.idx))
    return hasattr(o, n)


def callable_(o):
    if isinstance(o, NamedMethod):
        return P().branch(f_callable(o.idx))
    return callable(o)


@unit("BiNode._get_method", [MOD + "BiNode._get_method"])
def get_method(v):
    n = bare()
    inv = n.__dict__["_inverse"] = Method("inverse")
    default = Method("default")
    kind = v.choose(["none", "empty", "name"])
    name = {"none": None, "empty": "", "name": Name(v.fresh_int("name").t)}[kind]
    target = None if v.case("no target") else Val(v.fresh_int("target").t)
    with Patched(B, getattr=getattr_, hasattr=hasattr_, callable=callable_):
        k, r = outcome(n._get_method, name, default, target)
    if kind != "name":
        v.oblige("the default", k == "ok" and r[0] is default and r[1] is target)
        return
    isinv, good = name.idx == kidx("inverse"), z3.And(f_exists(name.idx), f_callable(name.idx))
    if k == "exc":
        v.oblige("a bi-node exception", type(r) is B.BiNodeException)
        v.oblige("there is no such method", z3.And(z3.Not(isinv), z3.Not(good)))
    elif r[0] is inv:
        v.oblige("the inverse was requested", isinv)
        v.oblige("the default target is back", r[1] is target if target is not None else (type(r[1]) is int and r[1] == -1))
    else:
        v.oblige("a method of this name", isinstance(r[0], NamedMethod))
        v.oblige("that exists", z3.And(z3.Not(isinv), good))
        v.oblige_eq("exactly that", r[0], NamedMethod(name.idx))
        v.oblige("the target is unchanged", r[1] is target)


@unit("BiNode._combine_result", [MOD + "BiNode._combine_result"])
def combine(v):
    form = v.choose(["y", "none", "two", "three"])
    y = None if v.case("no data") else Val(v.fresh_int("y").t)
    own = None
    if form in ("two", "three") and v.case("own message"):
        own = Map(v, "own")
    t = Val(v.fresh_int("own_target").t)
    result = {"y": Val(v.fresh_int("y").t), "none": None, "two": (y, own), "three": (y, own, t)}[form]
    msg = None if v.case("no message") else Map(v)
    target = None if v.case("no target") else Val(v.fresh_int("target").t)
    no = lambda q: z3.BoolVal(False), lambda q: z3.IntVal(0)
    mh, mv = msg.state() if msg is not None else no
    oh, ov = own.state() if own is not None else no
    r = Node._combine_result(result, msg, target)
    given = result[0] if isinstance(result, tuple) else result
    data, out, tt = r if isinstance(r, tuple) and len(r) == 3 else (r + (None,) if isinstance(r, tuple) else (r, None, None))
    v.oblige("the data of the node", data is given)
    v.oblige("the node's own target wins, then that of the message", tt is (t if form == "three" else target))
    same_map(v, "own entries win, the others are forwarded", out, lambda q: z3.Or(oh(q), mh(q)), lambda q: z3.If(oh(q), ov(q), mv(q)))
    v.oblige("no trailing None", not isinstance(r, tuple) or form in ("two", "three") or r[-1] is not None)


# ---------------------------------------------------------------- the template methods
class Log(object):
    pass


class Templ(Node):
    """every callee by its contract; what is called is recorded"""
    def _get_msg_id_keys(self, msg):
        self.log.append(("ids", msg))
        return self.ids

    def _extract_message_key(self, key, msg, ids):
        rt.oblige("the names of this message", msg is self.msg0 and ids is self.ids)
        self.log.append(("key", key))
        return {"target": self.t0, "method": self.mname}[key]

    def _get_method(self, name, default, target=None):
        rt.oblige("requested by the message", name is self.mname and target is self.t0)
        self.log.append(("method", default))
        if self.exists:
            return (default if self.mname in (None, self.dname, "") else self.inv if self.mname == "inverse" else self.other), self.t1
        raise B.BiNodeException("no such method")

    def _extract_method_args(self, method, msg, ids):
        rt.oblige("of this message", msg is self.msg0 and ids is self.ids)
        self.log.append(("args", method))
        return self.rest, {"a": self.arg}

    def _combine_result(self, result, msg, target):
        self.log.append(("combine", result, msg, target))
        return self.final

    def _pre_execution_checks(self, x):
        self.log.append(("check execute", x))
        if self.badx:
            raise mdp.NodeException("checks")

    def _pre_inversion_checks(self, x):
        self.log.append(("check inverse", x))
        if self.badx:
            raise mdp.NodeException("checks")

    def _check_input(self, x):
        self.log.append(("check input", x))
        if self.badx:
            raise mdp.NodeException("checks")

    def _check_train_args(self, x, *a, **k):
        self.log.append(("check args", x, a, k))
        if self.badargs:
            raise TypeError("args")

    def _refcast(self, x):
        self.log.append(("cast", x))
        return self.cast

    def is_trainable(self):
        return self.trainable

    def is_training(self):
        return self.__dict__["_training"]

    def get_remaining_train_phase(self):
        return self.g_phases - self._train_phase

    def has_multiple_training_phases(self):
        return self.g_multi

    def _get_train_seq(self):
        return Seq(self)

    _train_seq = property(_get_train_seq)

    def __str__(self):
        return "node"


class Seq(object):
    """the training sequence: methods of phase i"""
    _vc_ghost = True

    def __init__(self, n):
        self.n = n

    def __getitem__(self, i):
        rt.oblige("the current phase", i == self.n.g_phase0)
        return self.n.trainm, self.n.stopm


def template(v, dname, simple=False, **d):
    n = bare(Templ)
    mname = v.choose(([None] if simple else [None, ""]) + [dname, "inverse", "other"])
    n.__dict__.update(log=[], ids=VList(), msg0=Map(v), t0=Val(v.fresh_int("t").t) if simple or not v.case("no target") else None, mname=mname, dname=dname,
                      t1=Val(v.fresh_int("t1").t), exists=True, arg=Val(v.fresh_int("a").t), rest=None if v.case("asks for the message") else Map(v),
                      final=Val(v.fresh_int("final").t), badx=dname != "stop_training" and v.case("bad data"), badargs=False, cast=Data_("cast"), inv=Method("inverse"), other=Method("other"),
                      trainable=True, trainm=Method("train"), stopm=Method("stop"), _training=True, **d)
    if mname == "other" and v.case("no such method"):
        n.exists = False
    n.__dict__["_inverse"] = n.inv
    calls = []

    def call(m, *a, **k):
        calls.append((m, a, k))
        n.log.append(("call", m))
        return n.result
    P().globals["call"] = call
    return n, calls


class Data_(object):
    """opaque data"""
    def __init__(self, name):
        self.name = name


def kinds(n):
    return [e[0] for e in n.log]


@unit("BiNode.execute", [MOD + "BiNode.execute"])
def execute(v):
    n, calls = template(v, "execute")
    n.result = Val(v.fresh_int("result").t)
    ex = n.__dict__["_execute"] = Method("execute")
    x = None if v.case("no data") else Data_("x")
    nomsg = v.case("no message")
    sup = []
    with Patched(mdp.Node, execute=lambda self, x, *a, **k: (sup.append((x, a, k)), n.final)[1]):
        k, r = outcome(n.execute, x, None if nomsg else n.msg0) if not nomsg or v.case("explicit") else outcome(n.execute, x)
    if nomsg:
        if x is None:
            v.oblige("neither data nor message", k == "exc" and type(r) is B.BiNodeException and not sup and not n.log)
        else:
            v.oblige("as a node", k == "ok" and r is n.final and sup == [(x, (), {})] and not n.log)
        return
    v.oblige("not the method of Node", not sup)
    if not n.exists:
        v.oblige("no such method", k == "exc" and type(r) is B.BiNodeException and not calls)
        return
    m = {None: ex, "": ex, "execute": ex, "inverse": n.inv, "other": n.other}[n.mname]
    checked = {None: "check execute", "": "check execute", "execute": "check execute", "inverse": "check inverse", "other": None}[n.mname] if x is not None else None
    v.oblige("default method", ("method", ex) in n.log)
    v.oblige("both magic entries are taken first", kinds(n)[:4] in (["ids", "key", "key", "method"],) and {e[1] for e in n.log[1:3]} == {"target", "method"})
    if checked and n.badx:
        v.oblige("refused before anything is called", k == "exc" and type(r) is mdp.NodeException and not calls)
        return
    v.oblige("exactly this method is called once", k == "ok" and len(calls) == 1 and calls[0][0] is m)
    arrived = n.cast if checked else x
    v.oblige("with the (cast) data and the named arguments", calls[0][1] == (arrived,) and set(calls[0][2]) == {"a"} and calls[0][2]["a"] is n.arg)
    if checked:
        v.oblige("checked and cast before the call", (checked, x) in n.log and ("cast", x) in n.log and max(n.log.index((checked, x)), n.log.index(("cast", x))) < kinds(n).index("call"))
    else:
        v.oblige("no checks", not any(q.startswith("check") for q in kinds(n)))
    v.oblige("arguments of this method", ("args", m) in n.log)
    v.oblige("the results are combined", n.log[-1][0] == "combine" and n.log[-1][1] is n.result and n.log[-1][2] is n.rest and n.log[-1][3] is n.t1 and r is n.final)


@unit("BiNode.train", [MOD + "BiNode.train"])
def train(v):
    phase = v.fresh_int("phase", 0)
    n, calls = template(v, "train", True, _train_phase=phase, g_phase0=phase, g_multi=False)
    state = v.choose(["ok", "not trainable", "finished"])
    n.trainable, n._training = state != "not trainable", state != "finished"
    n.__dict__["_train_phase_started"] = started = v.case("started")
    x = None if v.case("no data") else Data_("x")
    n.badargs = x is not None and not n.badx and v.case("bad arguments")
    nomsg = v.case("no message")
    form = v.choose(["none", "y", "two", "two without data", "three"])
    final = {"none": None, "y": Val(v.fresh_int("y").t), "two": (Data_("y"), n.msg0), "two without data": (None, n.msg0), "three": (None, n.msg0, 1)}[form]
    none = form == "none"
    n.result = final if nomsg else None if none else Val(v.fresh_int("r").t)
    n.final = final
    k, r = outcome(n.train, x, n.msg0) if not nomsg else outcome(n.train, x)
    after = n.__dict__["_train_phase_started"]
    if not n.trainable:
        v.oblige("not trainable", k == "exc" and type(r) is mdp.IsNotTrainableException and not calls and after == started)
        return
    if not n._training:
        v.oblige("finished", k == "exc" and type(r) is mdp.TrainingFinishedException and not calls and after == started)
        return
    v.oblige_eq("the phase is the same", n._train_phase, phase)
    if nomsg and x is None:
        v.oblige("neither data nor message", k == "exc" and type(r) is B.BiNodeException and not calls and after == started)
        return
    if not nomsg and not n.exists:
        v.oblige("no such method", k == "exc" and type(r) is B.BiNodeException and not calls and after == started)
        return
    mname = None if nomsg else n.mname
    m = {None: n.trainm, "": n.trainm, "train": n.trainm, "inverse": n.inv, "other": n.other}[mname]
    training = m is n.trainm and x is not None
    if x is not None and m is not n.other and n.badx:
        v.oblige("refused before anything is called", k == "exc" and type(r) is mdp.NodeException and not calls and after == started)
        return
    if training and n.badargs:
        v.oblige("arguments refused before anything is called", k == "exc" and type(r) is B.BiNodeException and not calls and after == started)
        return
    v.oblige("exactly this method is called once", k == "ok" and len(calls) == 1 and calls[0][0] is m)
    arrived = n.cast if x is not None and m is not n.other else x
    v.oblige("with the (cast) data and the named arguments", calls[0][1] == (arrived,) and (calls[0][2] == {} if nomsg else set(calls[0][2]) == {"a"} and calls[0][2]["a"] is n.arg))
    if training:
        v.oblige("data and arguments are checked before the call", kinds(n).index("check input") < kinds(n).index("call") and kinds(n).index("check args") < kinds(n).index("call"))
        ca = n.log[kinds(n).index("check args")]
        v.oblige("these arguments", ca[1] is x and ca[2] == () and (ca[3] == {} if nomsg else set(ca[3]) == {"a"} and ca[3]["a"] is n.arg))
    v.oblige("started exactly when trained", after == (started or training))
    if none or form == "two without data":
        v.oblige("training of this data is over", r is None)
    else:
        v.oblige("the training continues with the result", r is final)
    if not nomsg and not none:
        c = [e for e in n.log if e[0] == "combine"]
        v.oblige("the results are combined", len(c) == 1 and c[0][1] is n.result and c[0][2] is n.rest and c[0][3] is n.t1)


@unit("BiNode.stop_training", [MOD + "BiNode.stop_training"])
def stop(v):
    phase, phases = v.fresh_int("phase", 0), v.fresh_int("phases", 1)
    n, calls = template(v, "stop_training", True, _train_phase=phase, g_phase0=phase, g_phases=phases, g_multi=v.case("several phases"))
    v.assume(phase < phases)
    n._training = v.case("training")
    n.__dict__["_train_phase_started"] = started = v.case("started")
    n.result = Val(v.fresh_int("r").t)
    P().globals["mkdict"] = Map
    nomsg = v.choose(["none", "empty", "message"])
    has_stored = v.case("stored result")
    smsg = None
    st = Val(v.fresh_int("stored_target").t)
    if has_stored:
        smsg = None if v.case("stored message None") else Map(v, "stored")
        sh, sv = smsg.state() if smsg is not None else (lambda q: z3.BoolVal(False), lambda q: z3.IntVal(0))

        class Stored(object):
            _vc_ghost = True

            def __getitem__(self, i):
                rt.oblige("the result of this phase", i == phase)
                return smsg, st
        n.__dict__["_stop_result"] = Stored() if n.g_multi else (smsg, st)
    else:
        n.__dict__["_stop_result"] = None
    if nomsg == "empty":
        k, r = outcome(n.stop_training, {})
    elif nomsg == "none":
        k, r = outcome(n.stop_training)
    else:
        q = v.fresh_int("an_entry").t
        v.assume(n.msg0.has(q))
        rh, rv = n.rest.state() if n.rest is not None else (lambda q: z3.BoolVal(False), lambda q: z3.IntVal(0))
        k, r = outcome(n.stop_training, n.msg0)
    if not n._training and k == "exc" and type(r) is mdp.TrainingFinishedException:
        v.oblige("finished", not calls)
        v.oblige_eq("nothing changes", n._train_phase, phase)
        return
    if not started and k == "exc" and type(r) is mdp.TrainingException:
        v.oblige("not trained", not calls)
        v.oblige_eq("nothing changes", n._train_phase, phase)
        return
    if nomsg == "message" and not n.exists:
        v.oblige("no such method", k == "exc" and type(r) is B.BiNodeException and not calls)
        v.oblige_eq("nothing changes", n._train_phase, phase)
        return
    v.oblige("a phase was open", started)
    m = n.stopm if nomsg != "message" or n.mname in (None, "", "stop_training") else n.inv if n.mname == "inverse" else n.other
    v.oblige("exactly this method is called once", k == "ok" and len(calls) == 1 and calls[0][0] is m and calls[0][1] == ())
    v.oblige("with the named arguments", calls[0][2] == {} if nomsg != "message" else set(calls[0][2]) == {"a"} and calls[0][2]["a"] is n.arg)
    v.oblige_eq("the phase is closed", n._train_phase, phase + 1)
    v.oblige_eq("the next one is not started", n.__dict__["_train_phase_started"], False)
    v.oblige("training goes on exactly if there are phases left", z3.BoolVal(bool(n.__dict__["_training"])) == (num_term(phases) > num_term(phase) + 1))
    c = n.log[-1]
    v.oblige("the results are combined", c[0] == "combine" and c[1] is n.result and r is n.final)
    t = n.t1 if nomsg == "message" else None
    if not has_stored:
        v.oblige("with the message and target given", c[3] is t and (c[2] is n.rest if nomsg == "message" else not c[2]))
    else:
        v.oblige("target: the given one wins", c[3] is (t if t is not None else st))
        if nomsg == "message":
            same_map(v, "the given message overrides the stored one", c[2], lambda q: z3.Or(rh(q), sh(q)), lambda q: z3.If(rh(q), rv(q), sv(q)))
        else:
            same_map(v, "the stored message", c[2], sh, sv)
        if smsg is not None:
            v.oblige("the stored message is not handed out", c[2] is not smsg)
            same_map(v, "nor changed", smsg, sh, sv)


@unit("BiNode ids", [MOD + "BiNode._request_node_id", MOD + "BiNode.node_id"])
def ids(v):
    n = bare(_node_id=None if v.case("no id") else v.choose(["", "a", "b"]))
    q = v.choose(["", "a", "b", "c"])
    v.oblige("the id", n.node_id is n._node_id)
    r = n._request_node_id(q)
    v.oblige("answers exactly its own id", (r is n) if n._node_id == q else r is None)


class CoNode(Node):
    def _bi_reset(self):
        self.g_resets = self.g_resets + 1


class Coroutine(object):
    _vc_ghost = True

    def __init__(self, calls, out):
        self.calls, self.out = calls, out

    def step(self, what, a):
        self.calls.append((self, what, a))
        kind, val = self.out()
        if kind == "end":
            raise StopIteration(*val)
        return val

    def send(self, a):
        return self.step("send", a)

    def __next__(self):
        return self.step("next", None)


@unit("coroutines", [MOD + "binode_coroutine", MOD + "BiNode.bi_reset"])
def coroutines(v):
    """any state of the coroutines of a node, one call, then a reset"""
    trace, made = [], []
    res = {}

    def out():
        kind = v.choose(["yield", "end", "return", "old style"])
        y = Val(v.fresh_int("y").t)
        res["want"] = {"yield": y, "end": None, "return": y, "old style": (y, 1)}[kind]
        res["kind"] = kind
        return ("yield", y) if kind == "yield" else ("end", {"end": (), "return": (y,), "old style": (y, 1)}[kind])

    class Cls(CoNode):
        pass

    def user_coroutine(self, *a):
        c = Coroutine(trace, out)
        made.append((c, self, a))
        return c

    infos = []

    def wrap_(f, info):
        infos.append(info)
        return f

    class M(object):
        @staticmethod
        def _function_infodict(f):
            return {"name": "_execute", "signature": "self, x, a", "defaults": ()}
        _wrap_function = staticmethod(wrap_)

    class Mdp(object):
        NodeMetaclass = M

        def __getattr__(self, n):
            return getattr(mdp, n)
    with Patched(B, mdp=Mdp()):
        init = B.binode_coroutine(["a", "b"], defaults=(7,))(user_coroutine)
    v.oblige("signatures", len(infos) == 2 and infos[0]["signature"] == "self, x, a, b" and infos[0]["defaults"] == (7,) and infos[1]["signature"] == "self, x, a" and infos[1]["name"] == "_execute")
    Cls._execute = init
    n = bare(Cls, g_resets=0, _coroutine_instances=None)
    other = Coroutine(trace, out)
    if v.case("another coroutine is running"):
        n.__dict__["_coroutine_instances"] = {"_train": other}
        n.__dict__["_train"] = "interface"
    x, a = Data_("x"), Data_("a")
    first = n._execute(x, a)
    v.oblige("started with the arguments", len(made) == 1 and made[0][1] is n and made[0][2] == (x, a) and [t[1] for t in trace] == ["next"])
    v.oblige("its value is the result", first is res["want"] if res["kind"] != "old style" else first == res["want"])
    running = res["kind"] == "yield"
    inst = n.__dict__["_coroutine_instances"] or {}
    v.oblige("running exactly if it yielded", ("_execute" in inst) == running and ("_execute" in n.__dict__) == running)
    v.oblige("other coroutines go on", ("_train" in inst) == ("_train" in n.__dict__))
    if v.case("second call"):
        y, b, c = Data_("y"), Data_("b"), Data_("c")
        second = n._execute(y, b, c) if running else n._execute(y, b)
        if running:
            v.oblige("resumed with the arguments", len(made) == 1 and trace[-1][0] is made[0][0] and trace[-1][1] == "send" and tuple(trace[-1][2]) == (y, b, c))
        else:
            v.oblige("a new one is started", len(made) == 2 and trace[-1][0] is made[1][0] and made[1][2] == (y, b))
        v.oblige("its value is the result", second is res["want"] if res["kind"] != "old style" else second == res["want"])
        running = res["kind"] == "yield"
        inst = n.__dict__["_coroutine_instances"] or {}
        v.oblige("running exactly if it yielded", ("_execute" in inst) == running and ("_execute" in n.__dict__) == running)
    n.bi_reset()
    v.oblige("after the reset no coroutine is running", not n.__dict__["_coroutine_instances"] and "_execute" not in n.__dict__ and "_train" not in n.__dict__)
    v.oblige_eq("the node is reset once", n.g_resets, 1)
