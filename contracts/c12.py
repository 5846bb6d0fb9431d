"""C12: graphs."""
from .common import *
from .arrays import *
from pyvc.engine import _z, seq_at, segs_len
from pyvc.core import seqs_equal
from mdp.graph import graph as G
from mdp.graph import Graph, GraphNode, GraphEdge, GraphException, GraphTopologicalException

MOD = "mdp.graph.graph:"
f_head = z3.Function("edge_head", I_, I_)
f_tail = z3.Function("edge_tail", I_, I_)


class GNode(Ind):
    """a node of the graph, seen from outside"""
    family = "gnode"
    truthy = True                       # a GraphNode has no length and no truth of its own

    def _vc_isa(self, cls):
        return cls in (GraphNode, object)


class IEdge(Ind):
    """an edge of the graph, seen from outside"""
    family = "gedge"

    def _vc_isa(self, cls):
        return cls in (GraphEdge, object)

    @property
    def head(self):
        return GNode(f_head(self.idx))

    @property
    def tail(self):
        return GNode(f_tail(self.idx))

    def get_head(self):
        return self.head

    def get_tail(self):
        return self.tail

    def get_ends(self):
        return (self.head, self.tail)


def edges(v, name):
    """an arbitrary list of distinct edges"""
    n = v.fresh_int("n_" + name, 0)
    f = ints(name)
    i, j = z3.Ints("ei ej")
    v.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n.t), f(i) != f(j))))
    return VList.of([span(n.t, lambda q: IEdge(f(q)))]), n, f


def same_list(v, name, a, segs):
    v.oblige(name + " is a list", isinstance(a, list))
    if isinstance(a, list):
        v.oblige_eq(name, a, VList.of(segs))


@unit("GraphNode", [MOD + "GraphNode." + m for m in (
    "__init__", "add_edge_in", "add_edge_out", "get_edges_in", "get_edges_out", "get_edges", "in_degree", "out_degree",
    "degree", "in_neighbors", "out_neighbors", "neighbors")] + [MOD + "GraphEdge." + m for m in ("__init__", "get_ends", "get_head", "get_tail")])
def graphnode(v):
    d = Data(P().fresh("data", DSort))
    nd = track(GraphNode(d))
    v.oblige("a new node holds its data", _z(v_eq(nd.data, d)))
    v.oblige("a new node has no edges", nd.ein == [] and nd.eout == [] and nd.ein is not nd.eout)
    ein, n, f = edges(v, "in")
    eout, m, g = edges(v, "out")
    nd.ein, nd.eout = ein, eout
    IN = [span(n.t, lambda q: IEdge(f(q)))]
    OUT = [span(m.t, lambda q: IEdge(g(q)))]
    k = v.choose(list(range(5)))
    if k == 0:
        e = IEdge(P().fresh("e", I_))
        nd.add_edge_in(e)
        same_list(v, "the edge was added to the incoming edges", nd.ein, IN + [Item(e)])
        same_list(v, "the outgoing edges did not change", nd.eout, OUT)
    elif k == 1:
        e = IEdge(P().fresh("e", I_))
        nd.add_edge_out(e)
        same_list(v, "the edge was added to the outgoing edges", nd.eout, OUT + [Item(e)])
        same_list(v, "the incoming edges did not change", nd.ein, IN)
    elif k == 2:
        a, b, c = nd.get_edges_in(), nd.get_edges_out(), nd.get_edges()
        same_list(v, "the incoming edges", a, IN)
        same_list(v, "the outgoing edges", b, OUT)
        same_list(v, "all edges", c, IN + OUT)
        v.oblige("copies", a is not nd.ein and b is not nd.eout and c is not nd.ein and c is not nd.eout)
        other = GNode(P().fresh("other", I_))
        same_list(v, "the edges from a node", nd.get_edges_in(from_=other),
                  [Rep(n.t, lambda q: [Guard(f_head(f(q)) == other.idx, [Item(IEdge(f(q)))])])])
        same_list(v, "the edges to a node", nd.get_edges_out(to_=other),
                  [Rep(m.t, lambda q: [Guard(f_tail(g(q)) == other.idx, [Item(IEdge(g(q)))])])])
    elif k == 3:
        v.oblige_eq("in degree", nd.in_degree(), n)
        v.oblige_eq("out degree", nd.out_degree(), m)
        v.oblige_eq("degree", nd.degree(), n + m)
    else:
        INN = [span(n.t, lambda q: GNode(f_head(f(q))))]
        OUTN = [span(m.t, lambda q: GNode(f_tail(g(q))))]
        same_list(v, "the neighbours through incoming edges are their heads", nd.in_neighbors(), INN)
        same_list(v, "the neighbours through outgoing edges are their tails", nd.out_neighbors(), OUTN)
        same_list(v, "all neighbours", nd.neighbors(), INN + OUTN)
        h, t = GNode(P().fresh("h", I_)), GNode(P().fresh("t", I_))
        e = track(GraphEdge(h, t, d))
        ends = e.get_ends()
        v.oblige("the ends of an edge", z3.And(_z(v_eq(e.get_head(), h)), _z(v_eq(e.get_tail(), t)), _z(v_eq(e.data, d)),
                                               _z(v_eq(ends[0], h)), _z(v_eq(ends[1], t))))
    if k >= 2:
        same_list(v, "queries do not change the incoming edges", nd.ein, IN)
        same_list(v, "queries do not change the outgoing edges", nd.eout, OUT)


def around(v, name, x, cls):
    """a list of distinct elements that holds x somewhere -> list, the segments before and after x"""
    a, b = v.fresh_int("before_" + name, 0).t, v.fresh_int("after_" + name, 0).t
    f, g = ints(name + "_before"), ints(name + "_after")
    i = z3.Int("ai")
    v.assume(z3.ForAll([i], z3.And(f(i) != x.idx, g(i) != x.idx)))
    A = [span(a, lambda q: cls(f(q)))]
    B = [span(b, lambda q: cls(g(q)))]
    return VList.of(A + [Item(x)] + B), A, B


@unit("GraphNode.remove_edge_in/out", [MOD + "GraphNode.remove_edge_in", MOD + "GraphNode.remove_edge_out"])
def remove_edge_in(v):
    e = IEdge(P().fresh("e", I_))
    nd = track(GraphNode())
    nd.ein, A, B = around(v, "in", e, IEdge)
    nd.eout, C, D = around(v, "out", e, IEdge)
    if v.case("in"):
        nd.remove_edge_in(e)
        same_list(v, "exactly the edge was removed from the incoming edges", nd.ein, A + B)
        same_list(v, "the outgoing edges did not change", nd.eout, C + [Item(e)] + D)
    else:
        nd.remove_edge_out(e)
        same_list(v, "exactly the edge was removed from the outgoing edges", nd.eout, C + D)
        same_list(v, "the incoming edges did not change", nd.ein, A + [Item(e)] + B)


def make(v):
    g = track(Graph())
    nn, ne = v.fresh_int("n_nodes", 0), v.fresh_int("n_edges", 0)
    fn, fe = ints("node"), ints("edge")
    N = [span(nn.t, lambda q: GNode(fn(q)))]
    E = [span(ne.t, lambda q: IEdge(fe(q)))]
    g.nodes, g.edges = VList.of(N), VList.of(E)
    return g, N, E


def full_node(v, name):
    nd = track(GraphNode())
    nd.ein, a, fa = edges(v, name + "_in")
    nd.eout, b, fb = edges(v, name + "_out")
    return nd, [span(a.t, lambda q: IEdge(fa(q)))], [span(b.t, lambda q: IEdge(fb(q)))]


@unit("Graph.add_node/add_nodes", [MOD + "Graph.__init__", MOD + "Graph.add_node", MOD + "Graph.add_nodes"])
def add_node(v):
    g0 = track(Graph())
    v.oblige("a new graph is empty", g0.nodes == [] and g0.edges == [] and g0.nodes is not g0.edges)
    g, N, E = make(v)
    how = v.choose(["one", "count", "data"])
    if how == "one":
        d = Data(P().fresh("d", DSort))
        r = g.add_node(d)
        v.oblige("the new node", type(r) is GraphNode and r.ein == [] and r.eout == [] and _z(v_eq(r.data, d)))
        same_list(v, "the node was added to the nodes", g.nodes, N + [Item(r)])
    else:
        f = z3.Function(P().fresh_name("datum"), I_, DSort)
        k = v.fresh_int("k", 0)
        g.__class__ = AGraph
        added = P().globals["added"] = VList()
        P().globals["new nodes"] = Cell(0)
        base = P().globals["first new node"] = P().fresh("new", I_)
        r = g.add_nodes(k if how == "count" else VList.of([span(k.t, lambda q: Data(f(q)))]))
        same_list(v, "one node is added per datum, in order", added,
                  [span(k.t, (lambda q: ("node", None)) if how == "count" else (lambda q: ("node", Data(f(q)))))])
        same_list(v, "the new nodes are returned in order", r, [span(k.t, lambda q: GNode(base + q))])
    same_list(v, "the edges did not change", g.edges, E)


@unit("Graph.add_edge", [MOD + "Graph.add_edge"])
def add_edge(v):
    g, N, E = make(v)
    h, hi, ho = full_node(v, "h")
    t, ti, to = (h, hi, ho) if v.case("a loop") else full_node(v, "t")
    d = Data(P().fresh("d", DSort))
    e = g.add_edge(h, t, d)
    v.oblige("the new edge", type(e) is GraphEdge and e.head is h and e.tail is t and _z(v_eq(e.data, d)))
    same_list(v, "the edge is listed in the graph", g.edges, E + [Item(e)])
    same_list(v, "the edge leaves its head", h.eout, ho + [Item(e)])
    same_list(v, "the edge enters its tail", t.ein, ti + [Item(e)])
    if h is not t:
        same_list(v, "nothing else enters the head", h.ein, hi)
        same_list(v, "nothing else leaves the tail", t.eout, to)
    same_list(v, "the nodes did not change", g.nodes, N)


class HEdge(IEdge):
    """an edge between two concrete node objects"""
    ends = None

    @property
    def head(self):
        return P().globals["ends"][0]

    @property
    def tail(self):
        return P().globals["ends"][1]

    def rewrap(self, idx):
        return IEdge(idx)


@unit("Graph.remove_edge", [MOD + "Graph.remove_edge"])
def remove_edge(v):
    g, N, E = make(v)
    e = HEdge(P().fresh("e", I_))
    h = track(GraphNode())
    loop = v.case("a loop")
    t = h if loop else track(GraphNode())
    P().globals["ends"] = (h, t)
    g.edges, A, B = around(v, "edges", e, IEdge)
    h.eout, ho, ho2 = around(v, "h_out", e, IEdge)
    t.ein, ti, ti2 = around(v, "t_in", e, IEdge)
    if not loop:
        h.ein, _, fa = edges(v, "h_in")
        hi = h.ein.segs()
        t.eout, _, fb = edges(v, "t_out")
        to = t.eout.segs()
    g.remove_edge(e)
    same_list(v, "the edge is no longer listed in the graph", g.edges, A + B)
    same_list(v, "the edge no longer leaves its head", h.eout, ho + ho2)
    same_list(v, "the edge no longer enters its tail", t.ein, ti + ti2)
    if not loop:
        same_list(v, "nothing else changed at the head", h.ein, hi)
        same_list(v, "nothing else changed at the tail", t.eout, to)
    same_list(v, "the nodes did not change", g.nodes, N)


class RGraph(Graph):
    """contract of remove_edge: the edge must be one of the graph's; it leaves all lists"""
    def remove_edge(self, edge):
        P().globals["removed"].append(edge)


class RNode(GNode):
    """the node to be removed; its edge lists are those left by the edges removed so far"""
    def _lists(self):
        IN, OUT, loops = P().globals["incident"]
        done = P().globals["removed"].segs()
        if seqs_equal(done, [], 0, []):
            return IN, OUT
        if seqs_equal(done, IN, 0, []):
            return [], loops(OUT)
        if seqs_equal(done, OUT, 0, []):
            return loops(IN), []
        raise Unsupported("edge lists in the middle of the removal")

    def get_edges_in(self, from_=None):
        return VList.of(self._lists()[0])

    def get_edges_out(self, to_=None):
        return VList.of(self._lists()[1])

    def get_edges(self, neighbor=None):
        a, b = self._lists()
        return VList.of(a + b)

    @property
    def ein(self):
        return VList.of(self._lists()[0])

    @property
    def eout(self):
        return VList.of(self._lists()[1])


@unit("Graph.remove_node", [MOD + "Graph.remove_node"])
def remove_node(v):
    g, N, E = make(v)
    g.__class__ = RGraph
    removed = P().globals["removed"] = VList()
    x = RNode(P().fresh("x", I_))
    a, b = v.fresh_int("n_in", 0), v.fresh_int("n_out", 0)
    fi, fo = ints("in"), ints("out")
    i, j = z3.Ints("ii ij")
    # the node's edges: well-formed (the entering edges have it as tail, the leaving ones as head)
    v.assume(z3.ForAll([i], z3.And(f_tail(fi(i)) == x.idx, f_head(fo(i)) == x.idx)))

    # the entering/leaving edges that are no loops
    a2, b2 = v.fresh_int("n_in_without_loops", 0), v.fresh_int("n_out_without_loops", 0)
    v.assume(z3.And(a2.t <= a.t, b2.t <= b.t))
    gi, go = ints("in_without_loops"), ints("out_without_loops")

    def loops(segs):
        return [span(a2.t, lambda q: IEdge(gi(q)))] if segs is IN else [span(b2.t, lambda q: IEdge(go(q)))]
    IN = [span(a.t, lambda q: IEdge(fi(q)))]
    OUT = [span(b.t, lambda q: IEdge(fo(q)))]
    P().globals["incident"] = (IN, OUT, loops)
    if v.case("a node of the graph"):
        g.nodes, A, B = around(v, "nodes", x, GNode)
        kind, r = outcome(g.remove_node, x)
        v.oblige("a node of the graph can be removed", kind == "ok")
        v.oblige("every edge touching the node is removed, once",
                 seqs_equal(removed.segs(), IN + loops(OUT), 0, []) or seqs_equal(removed.segs(), OUT + loops(IN), 0, []))
        same_list(v, "exactly the node was removed", g.nodes, A + B)
    else:
        n, f = v.fresh_int("n_nodes", 0), ints("other")
        v.assume(z3.ForAll([i], f(i) != x.idx))
        N = [span(n.t, lambda q: GNode(f(q)))]
        g.nodes = VList.of(N)
        kind, r = outcome(g.remove_node, x)
        v.oblige("a node that is not in the graph is refused", kind == "exc" and isinstance(r, GraphException))
        same_list(v, "no edge was removed", removed, [])
        same_list(v, "the nodes did not change", g.nodes, N)


class AGraph(Graph):
    """contracts of add_node (a new node is listed) and add_edge (a new edge from head to tail is listed)"""
    def add_node(self, data=None):
        tr = P().globals["added"]
        c = P().globals["new nodes"]
        r = GNode(P().globals["first new node"] + num_term(c.v))
        c.v = c.v + 1
        tr.append(("node", data))
        return r

    def add_edge(self, head, tail, data=None):
        P().globals["added"].append((head, tail))
        return (head, tail)


@unit("Graph.add_full_connectivity", [MOD + "Graph.add_full_connectivity"])
def full(v):
    g, N, E = make(v)
    g.__class__ = AGraph
    added = P().globals["added"] = VList()
    a, b = v.fresh_int("n_from", 0).t, v.fresh_int("n_to", 0).t
    f, h = ints("from"), ints("to")
    r = g.add_full_connectivity(VList.of([span(a, lambda q: GNode(f(q)))]), VList.of([span(b, lambda q: GNode(h(q)))]))
    same_list(v, "one edge from each of the first nodes to each of the second", added,
              [Rep(a, lambda i: [span(b, lambda j: (GNode(f(i)), GNode(h(j))))])])
    v.oblige("a list of lists", isinstance(r, list))
    if isinstance(r, list):
        v.oblige_eq("one list per node", wrap(segs_len(r.segs())), wrap(a))


# ------------------------------------------------------------------------------------------ traversals
f_deg = z3.Function("neighbours", I_, I_)
f_nb = z3.Function("neighbour", I_, I_, I_)
f_closed = z3.Function("closed", I_, z3.BoolSort())
f_pot = z3.Function("potential", I_, I_)


class State(object):
    """result list, frontier, visited set and the ghost functions of a traversal"""
    FUNS = dict(L=1, S=1, vis=0, inL=0, pos=1, par=1, pidx=1, d=1)

    def __init__(self, **kw):
        self.__dict__.update(kw)

    @staticmethod
    def fresh():
        s = State()
        for n, isint in State.FUNS.items():
            setattr(s, n, z3.Function(P().fresh_name(n), I_, I_ if isint else z3.BoolSort()))
        s.nL, s.nS = P().fresh("nL", I_), P().fresh("nS", I_)
        return s

    def but(self, **kw):
        r = State(**self.__dict__)
        r.__dict__.update(kw)
        return r


def lst(a):
    """current contents of a list of nodes -> length, function"""
    segs = core._norm(a.segs())

    def at(j):
        off, r = z3.IntVal(0), z3.IntVal(-1)
        cases = []
        for s in segs:
            if isinstance(s, Item):
                n, val = z3.IntVal(1), s.v.idx
            else:
                n, val = s.count, s.seg(j - off)[0].v.idx
            cases.append((off, n, val))
            off = off + n
        for off, n, val in reversed(cases):
            r = z3.If(z3.And(off <= j, j < off + n), val, r)
        return z3.simplify(r)
    return segs_len(segs), at


class Search(object):
    """loop invariant of the traversals; `first` is the index at which the frontier is read (0: queue, else stack)"""
    def __init__(self, root, bfs, trace):
        self.root, self.bfs, self.trace = root, bfs, trace
        self.inner = None

    def formulas(self, s, mid=None):
        """[(name, number of variables, body)]; mid = (node, k): while the first k neighbours of node are added"""
        root, bfs = self.root, self.bfs
        F = [("sizes", 0, lambda: z3.And(s.nL >= 0, s.nS >= 0)),
             ("the root is visited", 0, lambda: s.vis(root)),
             ("visited nodes are listed", 1, lambda x: z3.Implies(s.vis(x), z3.If(
                 s.inL(x), z3.And(0 <= s.pos(x), s.pos(x) < s.nL, s.L(s.pos(x)) == x),
                 z3.And(0 <= s.pos(x), s.pos(x) < s.nS, s.S(s.pos(x)) == x)))),
             ("listed nodes are visited, once", 1, lambda i: z3.Implies(
                 z3.And(0 <= i, i < s.nL), z3.And(s.vis(s.L(i)), s.inL(s.L(i)), s.pos(s.L(i)) == i))),
             ("waiting nodes are visited, once", 1, lambda i: z3.Implies(
                 z3.And(0 <= i, i < s.nS), z3.And(s.vis(s.S(i)), z3.Not(s.inL(s.S(i))), s.pos(s.S(i)) == i))),
             ("only reachable nodes", 1, lambda x: z3.Implies(s.vis(x), f_closed(x))),
             ("a parent comes first", 1, lambda x: z3.Implies(
                 z3.And(s.vis(x), x != root),
                 z3.And(s.vis(s.par(x)), s.inL(s.par(x)), 0 <= s.pidx(x), s.pidx(x) < f_deg(s.par(x)),
                        f_nb(s.par(x), s.pidx(x)) == x, z3.Implies(s.inL(x), s.pos(s.par(x)) < s.pos(x))))),
             ("the root comes first", 0, lambda: z3.If(s.nL > 0, s.L(0) == root, z3.And(s.nS == 1, s.S(0) == root)))]
        if mid is None:
            F.append(("neighbours of listed nodes are visited", 2, lambda x, i: z3.Implies(
                z3.And(s.vis(x), s.inL(x), 0 <= i, i < f_deg(x)), s.vis(f_nb(x, i)))))
        else:
            node, k = mid
            F.append(("neighbours of the nodes listed before are visited", 2, lambda x, i: z3.Implies(
                z3.And(s.vis(x), s.inL(x), x != node, 0 <= i, i < f_deg(x)), s.vis(f_nb(x, i)))))
            F.append(("the neighbours looked at are visited", 1, lambda i: z3.Implies(z3.And(0 <= i, i < k), s.vis(f_nb(node, i)))))
            F.append(("the node is listed last", 0, lambda: z3.And(s.nL > 0, s.L(s.nL - 1) == node)))
        if bfs:
            F += [("distance of the root", 0, lambda: s.d(root) == 0),
                  ("distances grow by one", 1, lambda x: z3.Implies(z3.And(s.vis(x), x != root), s.d(x) == s.d(s.par(x)) + 1)),
                  ("the distance is a lower bound", 1, lambda x: z3.Implies(s.vis(x), f_pot(x) <= s.d(x))),
                  ("listed by distance", 2, lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j < s.nL), s.d(s.L(i)) <= s.d(s.L(j)))),
                  ("waiting by distance", 2, lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j < s.nS), s.d(s.S(i)) <= s.d(s.S(j)))),
                  ("listed before waiting", 2, lambda i, j: z3.Implies(z3.And(0 <= i, i < s.nL, 0 <= j, j < s.nS), s.d(s.L(i)) <= s.d(s.S(j))))]
            if mid is None:
                F += [("waiting nodes are close", 2, lambda i, j: z3.Implies(z3.And(0 <= i, i < s.nS, 0 <= j, j < s.nS), s.d(s.S(j)) <= s.d(s.S(i)) + 1)),
                      ("no shortcuts", 2, lambda x, i: z3.Implies(z3.And(s.vis(x), s.inL(x), 0 <= i, i < f_deg(x)), s.d(f_nb(x, i)) <= s.d(x) + 1))]
            else:
                F += [("waiting nodes are close to the node", 1, lambda j: z3.Implies(z3.And(0 <= j, j < s.nS), s.d(s.S(j)) <= s.d(node) + 1)),
                      ("no shortcuts from the nodes listed before", 2, lambda x, i: z3.Implies(
                          z3.And(s.vis(x), s.inL(x), x != node, 0 <= i, i < f_deg(x)), s.d(f_nb(x, i)) <= s.d(x) + 1)),
                      ("no shortcuts from the node", 1, lambda i: z3.Implies(z3.And(0 <= i, i < k), s.d(f_nb(node, i)) <= s.d(node) + 1))]
        return F

    def prove(self, when, s, mid=None):
        for name, n, body in self.formulas(s, mid):
            vs = [P().fresh("any", I_) for _ in range(n)]
            rt.oblige("%s: %s" % (when, name), body(*vs))

    def suppose(self, s, mid=None):
        for name, n, body in self.formulas(s, mid):
            vs = [z3.FreshConst(I_, "q") for _ in range(n)]
            P().assume(z3.ForAll(vs, body(*vs)) if n else body(), quantified=n > 0)

    # -- matching the loops of the code: the first one works on a dictionary and two lists
    def __call__(self, loop, locals_):
        if isinstance(loop, engine.WhileLoop) and not hasattr(self, "result"):
            dicts = [x for x in locals_.values() if isinstance(x, VDict)]
            lists = [x for x in locals_.values() if isinstance(x, VList)]
            if len(dicts) == 1 and len(lists) == 2 and sorted(len(l.segs()) for l in lists) == [0, 1]:
                self.visited = dicts[0]
                self.result, self.frontier = sorted(lists, key=lambda l: len(l.segs()))
                self.s = State(vis=lambda x: x == self.root, inL=lambda x: z3.BoolVal(False), pos=lambda x: z3.IntVal(0),
                               par=lambda x: x, pidx=lambda x: x, d=lambda x: z3.IntVal(0))
                return Outer(self)
        if isinstance(loop, engine.ForLoop) and hasattr(self, "result") and self.inner is None:
            self.inner = Inner(self)
            return self.inner
        return None

    def now(self, s):
        """the ghost state s with the current contents of the containers"""
        nL, L = lst(self.result)
        nS, S = lst(self.frontier)
        return s.but(nL=nL, L=L, nS=nS, S=S, vis=self.visited._mem.has)

    def put(self, s, lists):
        for a, n, f in lists:
            a.set_segs([span(n, lambda j, f=f: GNode(f(j)))])
        self.visited._mem = engine.Mem(s.vis, lambda x: None, self.visited._mem.wrapkey)


class Outer(object):
    def __init__(self, se):
        self.se = se
        self.objects = [se.result, se.frontier, se.visited] + ([se.trace] if se.trace is not None else [])

    def check(self, when, k):
        se = self.se
        se.prove(when, se.now(se.s))
        if se.trace is not None:
            rt.oblige_eq("%s: the visit function saw the listed nodes in order" % when, se.trace, se.result)

    def havoc(self, k):
        se = self.se
        se.s = s = State.fresh()
        se.put(s, [(se.result, s.nL, s.L), (se.frontier, s.nS, s.S)] + ([(se.trace, s.nL, s.L)] if se.trace is not None else []))
        se.suppose(s)
        se.inner = None


class Inner(object):
    """the neighbours of one node"""
    def __init__(self, se):
        self.se = se
        self.objects = [se.frontier, se.visited]
        s = se.s
        nL, L = lst(se.result)
        node = self.node = z3.simplify(L(nL - 1))
        old = s
        # the node has moved from the frontier to the end of the result
        shift = (lambda x: old.pos(x) - 1) if se.bfs else old.pos
        se.s = s.but(inL=lambda x: z3.Or(x == node, old.inL(x)),
                     pos=lambda x: z3.If(x == node, old.nL, z3.If(old.inL(x), old.pos(x), shift(x))))

    def check(self, when, k):
        se, s = self.se, self.se.s
        if when == "preserved":
            # a newly visited node is appended to the frontier; its parent is the node
            h = self.head
            s = s.but(pos=lambda x: z3.If(h.vis(x), h.pos(x), h.nS), inL=lambda x: z3.And(h.vis(x), h.inL(x)),
                      par=lambda x: z3.If(h.vis(x), h.par(x), self.node), pidx=lambda x: z3.If(h.vis(x), h.pidx(x), k - 1),
                      d=lambda x: z3.If(h.vis(x), h.d(x), h.d(self.node) + 1))
        se.prove("neighbours, " + when, se.now(s), (self.node, k))

    def havoc(self, k):
        se = self.se
        nL, L = lst(se.result)
        s = State.fresh().but(nL=nL, L=L)
        se.put(s, [(se.frontier, s.nS, s.S)])
        se.suppose(s, (self.node, k))
        se.s = self.head = s


class NeighboursOf(object):
    """an arbitrary neighbour function"""
    _vc_ghost = True

    def __call__(self, node):
        P().assume(f_deg(node.idx) >= 0)
        return VList.of([span(f_deg(node.idx), lambda i: GNode(f_nb(node.idx, i)))])


def traversal(v, name, bfs):
    root = GNode(P().fresh("root", I_))
    x, i = z3.Ints("tx ti")
    rng = lambda x, i: z3.And(0 <= i, i < f_deg(x))
    # an arbitrary set of nodes closed under neighbours that holds the root, and an arbitrary function that
    # grows by at most one along each edge (the distance from the root is the largest one)
    v.assume(z3.ForAll([x, i], z3.Implies(z3.And(f_closed(x), rng(x, i)), f_closed(f_nb(x, i)))))
    v.assume(f_closed(root.idx))
    v.assume(z3.ForAll([x, i], z3.Implies(rng(x, i), f_pot(f_nb(x, i)) <= f_pot(x) + 1)))
    v.assume(f_pot(root.idx) <= 0)
    trace = VList() if v.case("visit function") else None
    visit = None if trace is None else (lambda n: trace.append(n))
    se = Search(root.idx, bfs, trace)
    rt.hoare = [se]
    g, N, E = make(v)
    r = getattr(g, name)(NeighboursOf(), root, visit_fct=visit)
    v.oblige("a list is returned", isinstance(r, list))
    if not isinstance(r, list):
        return
    n, L = lst(r)
    a, b = v.fresh_int("a", 0).t, v.fresh_int("b", 0).t
    v.assume(z3.And(a < n, b < n))
    s = se.s
    v.oblige("no node is returned twice", z3.Implies(a != b, L(a) != L(b)))
    v.oblige("only reachable nodes are returned", f_closed(L(a)))
    v.oblige("the root is returned first", z3.And(n > 0, L(0) == root.idx))
    j = P().fresh("j", I_)
    v.assume(rng(L(a), j))
    w = f_nb(L(a), j)
    v.oblige("with a node its neighbours are returned, hence every reachable node", z3.And(0 <= s.pos(w), s.pos(w) < n, L(s.pos(w)) == w))
    p = s.par(L(a))
    v.oblige("every node but the root comes after a node that has it as neighbour", z3.Implies(
        a > 0, z3.And(0 <= s.pos(p), s.pos(p) < a, L(s.pos(p)) == p, rng(p, s.pidx(L(a))), f_nb(p, s.pidx(L(a))) == L(a))))
    if bfs:
        v.oblige("non-decreasing distance", z3.Implies(a <= b, s.d(L(a)) <= s.d(L(b))))
        v.oblige("the distance of the root", s.d(root.idx) == 0)
        v.oblige("a node is one step farther than its parent", z3.Implies(a > 0, s.d(L(a)) == s.d(p) + 1))
        v.oblige("no edge is a shortcut", s.d(w) <= s.d(L(a)) + 1)
        v.oblige("no function that grows by at most one along edges is larger than the distance", f_pot(L(a)) <= s.d(L(a)))
    if trace is not None:
        v.oblige_eq("the visit function saw the returned nodes in order", trace, r)
    same_list(v, "the nodes did not change", g.nodes, N)
    same_list(v, "the edges did not change", g.edges, E)


@unit("Graph._dfs", [MOD + "Graph._dfs"])
def dfs(v):
    traversal(v, "_dfs", False)


@unit("Graph._bfs", [MOD + "Graph._bfs"])
def bfs(v):
    traversal(v, "_bfs", True)


class QNode(GNode):
    """contracts of the neighbour queries"""
    def out_neighbors(self):
        return ("out", wrap(self.idx))

    def neighbors(self):
        return ("all", wrap(self.idx))


class WGraph(Graph):
    def _dfs(self, neighbors_fct, root, visit_fct=None):
        return P().globals["search"]("dfs", neighbors_fct, root, visit_fct)

    def _bfs(self, neighbors_fct, root, visit_fct=None):
        return P().globals["search"]("bfs", neighbors_fct, root, visit_fct)


@unit("Graph.dfs/bfs/undirected_dfs/undirected_bfs", [MOD + "Graph." + m for m in ("dfs", "bfs", "undirected_dfs", "undirected_bfs")])
def wrappers(v):
    g, N, E = make(v)
    g.__class__ = WGraph
    root, probe = QNode(P().fresh("root", I_)), QNode(P().fresh("probe", I_))
    calls = []

    def search(*a):
        calls.append(a)
        return "the result"
    P().globals["search"] = search
    visit = (lambda n: None) if v.case("visit function") else None
    name = v.choose(["dfs", "bfs", "undirected_dfs", "undirected_bfs"])
    r = getattr(g, name)(root) if visit is None else getattr(g, name)(root, visit_fct=visit)
    v.oblige("one search", len(calls) == 1 and r == "the result")
    kind, nb, rt_, vf = calls[0]
    # a depth-first search may not be replaced by a breadth-first search; both visit the same nodes
    v.oblige("the kind of search", kind == name[-3:])
    v.oblige("from the root", _z(v_eq(rt_, root)))
    v.oblige("the visit function is passed on", vf is visit)
    v.oblige("along the edges of that kind", _z(v_eq(nb(probe), ("all" if "un" in name else "out", wrap(probe.idx)))))


f_comp = z3.Function("component_of", I_, I_)
f_first = z3.Function("first_node_of_component", I_, I_)


class CGraph(Graph):
    """contract of undirected_dfs: exactly the nodes connected to the root, each reported to visit_fct once"""
    def undirected_dfs(self, root, visit_fct=None):
        spec = P().globals["components spec"]
        if visit_fct is not None:
            y, x = GNode(P().fresh("visited", I_)), P().fresh("x", I_)
            before = spec.visited._mem
            visit_fct(y)
            has = before.has if before is not None else (lambda q: z3.BoolVal(False))
            rt.oblige("the visit function marks the node it is called with", spec.visited._mem is not None
                      and spec.visited._mem.has(x) == z3.Or(x == y.idx, has(x)))
            spec.visited._mem = engine.Mem(lambda q: z3.Or(f_comp(q) == f_comp(root.idx), has(q)), lambda q: None, y.rewrap)
        return ("component", wrap(f_comp(root.idx)))

    def undirected_bfs(self, root, visit_fct=None):
        return CGraph.undirected_dfs(self, root, visit_fct)


class Components(object):
    """after k nodes exactly the components of the first k nodes are listed, and marked as visited"""
    def __init__(self, N):
        self.N = N
        self.started = False

    def __call__(self, loop, locals_):
        dicts = [x for x in locals_.values() if isinstance(x, VDict)]
        lists = [x for n, x in locals_.items() if isinstance(x, VList) and not x.segs()]
        if self.started or not isinstance(loop, engine.ForLoop) or len(dicts) != 1 or len(lists) != 1:
            return None
        self.started = True
        self.visited, self.list = dicts[0], lists[0]
        self.objects = [self.visited, self.list]
        P().globals["components spec"] = self
        return self

    def found(self, k):
        f = self.N
        return [Rep(k, lambda i: [Guard(f_first(f_comp(f(i))) == i, [Item(("component", wrap(f_comp(f(i)))))])])]

    def check(self, when, k):
        x = P().fresh("x", I_)
        m = self.visited._mem
        has = m.has(x) if m is not None else z3.BoolVal(False)
        # x is a node of the graph: its component has a first node
        i = P().fresh("i", I_)
        P().assume(z3.And(i >= 0, i < self.n, x == self.N(i)))
        rt.oblige("%s: marked are the nodes connected to one of the first nodes" % when, has == (f_first(f_comp(x)) < k))
        rt.oblige_eq("%s: listed are the components of the first nodes" % when, self.list, VList.of(self.found(k)))

    def havoc(self, k):
        self.visited._mem = engine.Mem(lambda x: f_first(f_comp(x)) < k, lambda x: None, GNode)
        self.list.set_segs(self.found(k))


class KGraph(Graph):
    def undirected_dfs(self, root, visit_fct=None):
        rt.oblige("from a node of the graph", _z(v_eq(root, GNode(P().globals["first"]))))
        return VList.of([span(P().globals["size"].t, lambda q: GNode(P().globals["comp"](q)))])

    undirected_bfs = undirected_dfs


@unit("Graph.is_weakly_connected", [MOD + "Graph.is_weakly_connected"])
def weakly(v):
    g, N, E = make(v)
    g.__class__ = KGraph
    n, f = v.fresh_int("n", 1), ints("node")
    g.nodes = VList.of([span(n.t, lambda q: GNode(f(q)))])
    P().globals["first"] = f(0)
    P().globals["size"] = s = v.fresh_int("size", 1)
    P().globals["comp"] = ints("component")
    v.oblige("weakly connected iff the component of a node has as many nodes as the graph",
             _z(v_eq(bool(g.is_weakly_connected()), bool(s == n))))


@unit("Graph.connected_components", [MOD + "Graph.connected_components"])
def components(v):
    g, N, E = make(v)
    g.__class__ = CGraph
    n, f = v.fresh_int("n", 0), ints("node")
    i = z3.Int("ci")
    v.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n.t), z3.And(
        0 <= f_first(f_comp(f(i))), f_first(f_comp(f(i))) <= i, f_comp(f(f_first(f_comp(f(i))))) == f_comp(f(i))))))
    N = [span(n.t, lambda q: GNode(f(q)))]
    g.nodes = VList.of(N)
    spec = Components(f)
    spec.n = n.t
    rt.hoare = [spec]
    r = g.connected_components()
    same_list(v, "one component per first node of a component", r, spec.found(n.t))
    same_list(v, "the nodes did not change", g.nodes, N)
    same_list(v, "the edges did not change", g.edges, E)


# ------------------------------------------------------------------------------------------ topological sort
# node x has indeg(x) entering and outdeg(x) leaving edges; the i-th edge leaving x enters f_nb(x, i) as its slot(x, i)-th
# entering edge; the j-th edge entering x comes from src(x, j) as its osl(x, j)-th leaving edge
f_in = z3.Function("indegree", I_, I_)
f_slot = z3.Function("slot", I_, I_, I_)
f_src = z3.Function("source", I_, I_, I_)
f_osl = z3.Function("out_slot", I_, I_, I_)
f_isnode = z3.Function("is_node", I_, z3.BoolSort())
f_rank = z3.Function("rank", I_, I_)
Bits = z3.ArraySort(I_, z3.BoolSort())
f_card = z3.Function("number_of_open_slots", Bits, I_, I_)
f_wit = z3.Function("an_open_slot", Bits, I_, I_)


class TNode(GNode):
    def in_degree(self):
        return wrap(f_in(self.idx))

    def out_degree(self):
        return wrap(f_deg(self.idx))

    def out_neighbors(self):
        return VList.of([span(f_deg(self.idx), lambda i: TNode(f_nb(self.idx, i)))])


def structure(v, n, N):
    """the graph is well-formed (the invariant of all operations), and facts on cardinalities"""
    x, i, j = z3.Ints("sx si sj")
    A = z3.Const("sA", Bits)
    out = lambda x, i: z3.And(f_isnode(x), 0 <= i, i < f_deg(x))
    inn = lambda x, j: z3.And(f_isnode(x), 0 <= j, j < f_in(x))
    v.assume(z3.ForAll([x], z3.And(f_in(x) >= 0, f_deg(x) >= 0)))
    v.assume(z3.ForAll([x, i], z3.Implies(out(x, i), z3.And(
        inn(f_nb(x, i), f_slot(x, i)), f_src(f_nb(x, i), f_slot(x, i)) == x, f_osl(f_nb(x, i), f_slot(x, i)) == i))))
    v.assume(z3.ForAll([x, j], z3.Implies(inn(x, j), z3.And(
        out(f_src(x, j), f_osl(x, j)), f_nb(f_src(x, j), f_osl(x, j)) == x, f_slot(f_src(x, j), f_osl(x, j)) == j))))
    v.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f_isnode(N(i)))))
    v.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), N(i) != N(j))))
    # cardinality of {q < n: A[q]}
    v.assume(z3.ForAll([A, i], f_card(A, i) >= 0, patterns=[f_card(A, i)]))
    v.assume(z3.ForAll([A, i], z3.Implies(f_card(A, i) > 0, z3.And(
        0 <= f_wit(A, i), f_wit(A, i) < i, z3.Select(A, f_wit(A, i)))), patterns=[f_card(A, i)]))
    v.assume(z3.ForAll([A, i, j], z3.Implies(z3.And(0 <= j, j < i, z3.Select(A, j)), f_card(A, i) > 0),
                       patterns=[z3.MultiPattern(f_card(A, i), z3.Select(A, j))]))
    v.assume(z3.ForAll([i], z3.Implies(i >= 0, f_card(z3.K(I_, z3.BoolVal(True)), i) == i)))


def close_slot(A, j, n):
    """the cardinality after removing an element, and: a set with an element is not empty"""
    P().assume(z3.Implies(z3.And(0 <= j, j < n, z3.Select(A, j)), z3.And(
        f_card(A, n) > 0, f_card(z3.Store(A, j, z3.BoolVal(False)), n) == f_card(A, n) - 1)))


class TState(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    @staticmethod
    def fresh():
        new = lambda nm, *so: z3.Function(P().fresh_name(nm), *so)
        B = z3.BoolSort()
        return TState(L=new("L", I_, I_), Q=new("Q", I_, I_), nL=P().fresh("nL", I_), nQ=P().fresh("nQ", I_), inL=new("inL", I_, B),
                      listed=new("listed", I_, B), pos=new("pos", I_, I_), R=new("R", I_, Bits))

    def but(self, **kw):
        r = TState(**self.__dict__)
        r.__dict__.update(kw)
        return r


class Sort(object):
    """invariants of the loops of topological_sort"""
    def __init__(self, n, N):
        self.n, self.N = n, N
        self.stage = 0
        self.inner = None

    def formulas(self, s, done, mid=None):
        """done(x): the initialisation has seen x; mid = (node, k)"""
        node, k = mid or (None, None)
        T = lambda x: s.listed(x)

        def open_(x, j):
            """the edge is not removed yet"""
            if mid is None:
                return z3.Not(s.inL(f_src(x, j)))
            return z3.And(z3.Or(f_src(x, j) == node, z3.Not(s.inL(f_src(x, j)))), z3.Not(z3.And(f_src(x, j) == node, f_osl(x, j) < k)))
        F = [("sizes", 0, lambda: z3.And(s.nL >= 0, s.nQ >= 0)),
             ("listed nodes are nodes, each listed once", 1, lambda i: z3.Implies(z3.And(0 <= i, i < s.nL), z3.And(
                 done(s.L(i)), s.listed(s.L(i)), s.inL(s.L(i)), s.pos(s.L(i)) == i))),
             ("waiting nodes are nodes, each waiting once", 1, lambda i: z3.Implies(z3.And(0 <= i, i < s.nQ), z3.And(
                 done(s.Q(i)), s.listed(s.Q(i)), z3.Not(s.inL(s.Q(i))), s.pos(s.Q(i)) == s.nL + i))),
             ("positions", 1, lambda x: z3.Implies(s.listed(x), z3.If(
                 s.inL(x), z3.And(0 <= s.pos(x), s.pos(x) < s.nL, s.L(s.pos(x)) == x),
                 z3.And(s.nL <= s.pos(x), s.pos(x) < s.nL + s.nQ, s.Q(s.pos(x) - s.nL) == x)))),
             ("only listed nodes are in the result", 1, lambda x: z3.Implies(s.inL(x), s.listed(x))),
             ("exactly the nodes with entering edges have a count", 1, lambda x: s.has(x) == z3.And(done(x), f_in(x) > 0)),
             ("the count is the number of remaining edges", 1, lambda x: z3.Implies(s.has(x), s.val(x) == f_card(s.R(x), f_in(x)))),
             ("the remaining edges", 2, lambda x, j: z3.Implies(z3.And(done(x), 0 <= j, j < f_in(x)), z3.Select(s.R(x), j) == open_(x, j))),
             ("exactly the nodes without remaining edges are listed or waiting", 1, lambda x: z3.Implies(
                 done(x), s.listed(x) == z3.If(f_in(x) == 0, z3.BoolVal(True), f_card(s.R(x), f_in(x)) == 0))),
             ("sources come first", 2, lambda x, j: z3.Implies(z3.And(s.listed(x), 0 <= j, j < f_in(x)), z3.And(
                 s.inL(f_src(x, j)), s.pos(f_src(x, j)) < s.pos(x))))]
        if mid is not None:
            F.append(("the node is listed last", 0, lambda: z3.And(s.nL > 0, s.L(s.nL - 1) == node)))
        return F

    def prove(self, when, s, done, mid=None, instances=()):
        for name, n, body in self.formulas(s, done, mid):
            vs = [P().fresh("any", I_) for _ in range(n)]
            rt.oblige("%s: %s" % (when, name), body(*vs))

    def suppose(self, s, done, mid=None):
        for name, n, body in self.formulas(s, done, mid):
            vs = [z3.FreshConst(I_, "q") for _ in range(n)]
            P().assume(z3.ForAll(vs, body(*vs)) if n else body(), quantified=n > 0)

    def now(self, s):
        nL, L = lst(self.result)
        nQ, Q = lst(self.queue)
        m = self.rem._mem
        return s.but(nL=nL, L=L, nQ=nQ, Q=Q, has=(m.has if m else (lambda x: z3.BoolVal(False))),
                     val=(lambda x: num_term(m.value(x))) if m else (lambda x: z3.IntVal(0)))

    def put(self, s, result=True):
        if result:
            self.result.set_segs([span(s.nL, lambda j: TNode(s.L(j)))])
        self.queue.set_segs([span(s.nQ, lambda j: TNode(s.Q(j)))])
        s.has = z3.Function(P().fresh_name("has"), I_, z3.BoolSort())
        s.val = z3.Function(P().fresh_name("val"), I_, I_)
        self.rem._mem = engine.Mem(s.has, lambda x: wrap(s.val(x)), TNode)

    def __call__(self, loop, locals_):
        isfor = isinstance(loop, engine.ForLoop)
        if self.stage == 0 and isfor:
            lists = [(nm, x) for nm, x in locals_.items() if isinstance(x, VList) and not x.segs()]
            dicts = [x for x in locals_.values() if isinstance(x, VDict)]
            if len(lists) != 2 or len(dicts) != 1:
                return None
            # the queue is filled first
            queue = [x for nm, x in lists if "queue" in nm or "todo" in nm or "ready" in nm]
            self.queue = queue[0] if len(queue) == 1 else lists[1][1]
            self.result = [x for nm, x in lists if x is not self.queue][0]
            self.rem = dicts[0]
            self.stage = 1
            return First(self)
        if self.stage == 1 and not isfor:
            self.stage = 2
            return Main(self)
        if self.stage == 2 and isfor and self.inner is None:
            self.inner = Sons(self)
            return self.inner
        return None


class First(object):
    """the nodes without entering edges wait, the others have their in-degree as count"""
    def __init__(self, so):
        self.so = so
        self.objects = [so.queue, so.rem]
        so.s = TState(inL=lambda x: z3.BoolVal(False), listed=lambda x: z3.BoolVal(False), pos=lambda x: z3.IntVal(0),
                      R=lambda x: z3.K(I_, z3.BoolVal(True)))
        self.at = z3.Function(P().fresh_name("index_of_node"), I_, I_)
        i = z3.Int("fi")
        P().assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < so.n), self.at(so.N(i)) == i)))

    def done(self, k):
        return lambda x: z3.And(0 <= self.at(x), self.at(x) < k, so_n(self.so, self.at(x)) == x)

    def check(self, when, k):
        so, s = self.so, self.so.s
        if when == "preserved":
            h, x0 = self.head, so.N(k - 1)
            s = s.but(listed=lambda x: z3.Or(h.listed(x), z3.And(x == x0, f_in(x0) == 0)), pos=lambda x: z3.If(h.listed(x), h.pos(x), h.nQ),
                      inL=lambda x: z3.BoolVal(False))
        so.prove("initialisation, " + when, so.now(s), self.done(k))

    def havoc(self, k):
        so = self.so
        s = TState.fresh().but(inL=lambda x: z3.BoolVal(False), R=lambda x: z3.K(I_, z3.BoolVal(True)), nL=z3.IntVal(0), L=lambda i: i)
        so.put(s, result=False)
        so.suppose(s, self.done(k))
        so.s = self.head = s


def so_n(so, i):
    return so.N(i)


class Main(object):
    def __init__(self, so):
        self.so = so
        self.objects = [so.result, so.queue, so.rem]

    def check(self, when, k):
        self.so.prove(when, self.so.now(self.so.s), f_isnode)

    def havoc(self, k):
        so = self.so
        so.s = s = TState.fresh()
        so.put(s)
        so.suppose(s, f_isnode)
        so.inner = None


class Sons(object):
    def __init__(self, so):
        self.so = so
        self.objects = [so.queue, so.rem]
        nL, L = lst(so.result)
        node = self.node = z3.simplify(L(nL - 1))
        old = so.s
        so.s = old.but(inL=lambda x: z3.Or(x == node, old.inL(x)))

    def check(self, when, k):
        so, s = self.so, self.so.s
        if when == "preserved":
            h, node = self.head, self.node
            son, j = f_nb(node, k - 1), f_slot(node, k - 1)
            close_slot(h.R(son), j, f_in(son))
            s = s.but(R=lambda x: z3.If(x == son, z3.Store(h.R(x), j, z3.BoolVal(False)), h.R(x)),
                      listed=lambda x: z3.Or(h.listed(x), z3.And(x == son, f_card(z3.Store(h.R(son), j, z3.BoolVal(False)), f_in(son)) == 0)),
                      pos=lambda x: z3.If(h.listed(x), h.pos(x), h.nL + h.nQ))
        so.prove("sons, " + when, so.now(s), f_isnode, (self.node, k))

    def havoc(self, k):
        so = self.so
        nL, L = lst(so.result)
        s = TState.fresh().but(nL=nL, L=L)
        so.put(s, result=False)
        so.suppose(s, f_isnode, (self.node, k))
        so.s = self.head = s


@unit("Graph.topological_sort", [MOD + "Graph.topological_sort"])
def toposort(v):
    g = track(Graph())
    n, N = v.fresh_int("n", 0), ints("node")
    structure(v, n.t, N)
    x, i = z3.Ints("tx ti")
    # exactly the listed nodes are nodes
    at = ints("node_index")
    v.assume(z3.ForAll([x], z3.Implies(f_isnode(x), z3.And(0 <= at(x), at(x) < n.t, N(at(x)) == x))))
    NODES = [span(n.t, lambda q: TNode(N(q)))]
    g.nodes = VList.of(NODES)
    so = Sort(n.t, N)
    rt.hoare = [so]
    kind, r = outcome(g.topological_sort)
    same_list(v, "the nodes did not change", g.nodes, NODES)
    s = so.s
    if kind == "ok":
        v.oblige("a list is returned", isinstance(r, list))
        m, L = lst(r)
        v.oblige_eq("as many nodes as the graph has", wrap(m), n)
        a, b = v.fresh_int("a", 0).t, v.fresh_int("b", 0).t
        v.assume(z3.And(a < m, b < m))
        v.oblige("nodes of the graph", f_isnode(L(a)))
        v.oblige("no node is returned twice, hence every node once", z3.Implies(a != b, L(a) != L(b)))
        j = P().fresh("j", I_)
        v.assume(z3.And(0 <= j, j < f_in(L(a))))
        u = f_src(L(a), j)
        v.oblige("the source of every edge comes before its target", z3.And(0 <= s.pos(u), s.pos(u) < a, L(s.pos(u)) == u))
        return
    v.oblige("the only exception is that of a cyclic graph", isinstance(r, GraphTopologicalException))
    m, L = lst(so.result)
    v.oblige("not all nodes were sorted", m != n.t)
    a, b = v.fresh_int("a", 0).t, v.fresh_int("b", 0).t
    v.assume(z3.And(a < m, b < m))
    v.oblige("the sorted nodes are different nodes", z3.And(f_isnode(L(a)), z3.Implies(a != b, L(a) != L(b))))
    # hence some node is missing. If the graph were acyclic (a rank that grows along each edge), take the missing one of least rank
    miss = P().fresh("missing", I_)
    j = z3.Int("rj")
    v.assume(z3.And(f_isnode(miss), z3.Not(s.inL(miss))))
    v.assume(z3.ForAll([x, j], z3.Implies(z3.And(f_isnode(x), 0 <= j, j < f_in(x)), f_rank(f_src(x, j)) < f_rank(x))))
    v.assume(z3.ForAll([x], z3.Implies(z3.And(f_isnode(x), z3.Not(s.inL(x))), f_rank(miss) <= f_rank(x))))
    w = f_wit(s.R(miss), f_in(miss))
    P().assume(f_card(s.R(miss), f_in(miss)) >= 0)
    v.oblige("the graph is cyclic: no missing node has a least rank", z3.And(
        0 <= w, w < f_in(miss), z3.Not(s.inL(f_src(miss, w))), z3.BoolVal(False)))
