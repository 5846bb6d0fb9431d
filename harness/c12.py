"""C12 on concrete graphs."""
import mdp
from mdp.graph import Graph, GraphException, GraphTopologicalException
from .base import *


def wf(g, nodes, edges):
    """the graph holds exactly these nodes and edges (in any order), every edge listed where it must be"""
    ids = lambda l: sorted(map(id, l))
    check(ids(g.nodes) == ids(nodes), "the nodes are %d instead of %d", len(g.nodes), len(nodes))
    check(ids(g.edges) == ids(edges), "the edges are %d instead of %d (or others)", len(g.edges), len(edges))
    for e, (h, t) in edges.items():
        check(e.head is h and e.tail is t and e.get_ends() == (h, t), "an edge's ends changed")
    for n in nodes:
        i, o = [e for e, (h, t) in edges.items() if t is n], [e for e, (h, t) in edges.items() if h is n]
        check(ids(n.ein) == ids(i), "a node's incoming edges are %d instead of %d (or others)", len(n.ein), len(i))
        check(ids(n.eout) == ids(o), "a node's outgoing edges are %d instead of %d (or others)", len(n.eout), len(o))
        check(n.in_degree() == len(i) and n.out_degree() == len(o) and n.degree() == len(i) + len(o), "degrees")
        check(ids(n.in_neighbors()) == ids([edges[e][0] for e in i]), "neighbours through incoming edges")
        check(ids(n.out_neighbors()) == ids([edges[e][1] for e in o]), "neighbours through outgoing edges")
        check(ids(n.get_edges()) == ids(i + o), "all edges of a node")
        for m in nodes:
            check(ids(n.get_edges_in(from_=m)) == ids([e for e in i if edges[e][0] is m]), "edges from a node")
            check(ids(n.get_edges_out(to_=m)) == ids([e for e in o if edges[e][1] is m]), "edges to a node")


def search(g, edges, note):
    """check all traversals from every node"""
    out = {n: [] for n in g.nodes}
    und = {n: [] for n in g.nodes}
    for e, (h, t) in edges.items():
        out[h].append(t)
        und[h].append(t)
        und[t].append(h)

    def dist(adj, root):
        d, todo = {root: 0}, [root]
        for n in todo:
            for m in adj[n]:
                if m not in d:
                    d[m] = d[n] + 1
                    todo.append(m)
        return d
    for root in g.nodes:
        for name, adj in (("dfs", out), ("bfs", out), ("undirected_dfs", und), ("undirected_bfs", und)):
            seen = []
            f = getattr(g, name)
            order = f(root, seen.append)
            check(order == f(root) or set(map(id, order)) == set(map(id, f(root))), "%s depends on the visit function", name)
            d = dist(adj, root)
            check(seen == order, "%s: the visit function saw other nodes than were returned", name)
            check(len(order) == len(set(order)) == len(d) and set(order) == set(d),
                  "%s visited %d nodes (%d distinct), %d are reachable", name, len(order), len(set(order)), len(d))
            check(order[0] is root, "%s: root first", name)
            for i, n in enumerate(order[1:], 1):
                check(any(n in adj[m] for m in order[:i]), "%s visits a node before any of its parents", name)
            if "bfs" in name:
                ds = [d[n] for n in order]
                check(ds == sorted(ds), "%s: distances %r", name, ds)
    comps = g.connected_components()
    flat = [n for c in comps for n in c]
    check(len(flat) == len(g.nodes) and set(flat) == set(g.nodes), "components hold %d nodes, the graph %d", len(flat), len(g.nodes))
    for c in comps:
        check(set(c) == set(dist(und, c[0])), "a component is not the set of connected nodes")
    if g.nodes:
        check(bool(g.is_weakly_connected()) == (len(comps) == 1), "weakly connected: %r with %d components", g.is_weakly_connected(), len(comps))


def acyclic(nodes, edges):
    left, es = set(nodes), list(edges.values())
    while left:
        free = [n for n in left if not any(t is n and h in left for h, t in es)]
        if not free:
            return False
        left -= set(free)
    return True


def topo(g, nodes, edges):
    before = [list(n.ein) for n in nodes], [list(n.eout) for n in nodes]
    if acyclic(nodes, edges):
        order = g.topological_sort()
        check(len(order) == len(nodes) and set(order) == set(nodes), "topological sort returned %d of %d nodes", len(order), len(nodes))
        pos = {n: i for i, n in enumerate(order)}
        for h, t in edges.values():
            check(pos[h] < pos[t], "an edge points backwards")
    else:
        raises(GraphTopologicalException, g.topological_sort)
    check(before == ([list(n.ein) for n in nodes], [list(n.eout) for n in nodes]), "sorting changed the graph")


@scenario("random histories", n=500, thorough=20)
def histories(rng, note):
    g = Graph()
    nodes, edges, ops = [], {}, []
    note(ops=ops)
    forward = rng.random() < .4
    for step in range(rng.randint(1, 25)):
        op = rng.choice(["node", "edge", "edge", "edge", "drop node", "drop edge", "nodes", "foreign", "full", "tree"])
        if op == "node":
            d = rng.choice([None, 0, "a", (1, 2)])
            n = g.add_node(d)
            check(n.data == d, "the datum of a new node")
            nodes.append(n)
            ops.append("add node")
        elif op == "nodes":
            what = rng.choice([0, 1, 2, 3, [], [1], ["x", None], (3, 4, 5)])
            r = g.add_nodes(what)
            data = [None] * what if isinstance(what, int) else list(what)
            check([n.data for n in r] == data, "add_nodes(%r): data %r", what, [n.data for n in r])
            check(all(a is b for a, b in zip(g.nodes[len(g.nodes) - len(r):], r)), "the new nodes come last, in order")
            nodes += r
            ops.append("add_nodes(%r)" % (what,))
        elif op == "edge" and nodes:
            i, j = rng.randrange(len(nodes)), rng.randrange(len(nodes))
            if forward:
                i, j = min(i, j), max(i, j)
                if i == j:
                    continue
            ops.append("edge %d -> %d" % (i, j))
            e = g.add_edge(nodes[i], nodes[j], data=step)
            check(e.data == step, "the datum of a new edge")
            edges[e] = (nodes[i], nodes[j])
        elif op == "drop node" and nodes and rng.random() < .6:
            i = rng.randrange(len(nodes))
            n = nodes.pop(i)
            ops.append("remove node %d" % i)
            g.remove_node(n)
            for e in [e for e, (h, t) in edges.items() if h is n or t is n]:
                del edges[e]
        elif op == "drop edge" and edges:
            e = rng.choice(list(edges))
            i, j = [nodes.index(x) for x in edges[e]]
            ops.append("remove edge %d -> %d" % (i, j))
            g.remove_edge(e)
            del edges[e]
        elif op == "foreign":
            other = Graph()
            x = other.add_node()
            ops.append("remove a foreign node")
            raises(GraphException, g.remove_node, x)
        elif op == "full" and len(nodes) >= 2 and len(edges) < 20 and not forward:
            a, b = rng.sample(nodes, rng.randint(1, 2)), rng.sample(nodes, rng.randint(1, 2))
            r = g.add_full_connectivity(a, b)
            ops.append("full connectivity %r %r" % ([nodes.index(x) for x in a], [nodes.index(x) for x in b]))
            check([[(e.head, e.tail) for e in l] for l in r] == [[(x, y) for y in b] for x in a], "the returned edges")
            for l in r:
                for e in l:
                    edges[e] = (e.head, e.tail)
        elif op == "tree" and len(nodes) < 12:
            def mk(depth):
                return [rng.randint(0, 9)] + [mk(depth - 1) if depth and rng.random() < .4 else rng.randint(0, 9) for _ in range(rng.randint(0, 2))]
            t = mk(2)
            t = tuple(t) if rng.random() < .5 else t
            ops.append("tree %r" % (t,))
            n0, e0 = list(g.nodes), set(g.edges)
            r = g.add_tree(t)
            want = []

            def walk(spec, got):
                check(len(spec) == len(got), "the returned tree has another shape")
                root = got[0]
                check(root.data == spec[0], "data in the tree")
                for s, q in zip(spec[1:], got[1:]):
                    if isinstance(s, (list, tuple)):
                        want.append((root, q[0]))
                        walk(s, q)
                    else:
                        want.append((root, q))
                        check(q.data == s, "data in the tree")
            walk(t, r)
            new = [e for e in g.edges if e not in e0]
            check(sorted((id(e.head), id(e.tail)) for e in new) == sorted((id(a), id(b)) for a, b in want), "the edges of the tree")
            nodes += [n for n in g.nodes if n not in n0]
            for e in new:
                edges[e] = (e.head, e.tail)
        wf(g, nodes, edges)
    search(g, edges, note)
    topo(g, nodes, edges)
    wf(g, nodes, edges)


@scenario("larger graphs", n=60, thorough=20)
def larger(rng, note):
    n, dag = rng.randint(5, 40), rng.random() < .7
    p = rng.choice([.5, 1, 2, 4])
    m = int(n * p)
    note(nodes=n, edges=m, forward_edges_only=dag, seed=rng.random())
    g = Graph()
    nodes = g.add_nodes(n)
    perm = list(range(n))
    rng.shuffle(perm)
    edges = {}
    for _ in range(m):
        i, j = rng.randrange(n), rng.randrange(n)
        if dag:
            if i == j:
                continue
            i, j = min(i, j), max(i, j)
        e = g.add_edge(nodes[perm[i]], nodes[perm[j]])
        edges[e] = (nodes[perm[i]], nodes[perm[j]])
    wf(g, nodes, edges)
    search(g, edges, note)
    topo(g, nodes, edges)
