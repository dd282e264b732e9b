# -*- coding: utf-8 -*-
"""C07  ordered directed graphs"""
import copy
from helpers import *
from networkx import NetworkXError
from daeso.graph.ograph import ODiGraph
from daeso.graph.daesograph import DaesoGraph

META = {
    "bounds": {"quick": "ordered graphs: every listed history of up to 3 operations (add node, add nodes, add edge, add edges, remove edge, remove node) after every history of two edges; Daeso graphs: 3 nodes and two edges, then every operation; all node names and attribute values symbolic",
               "thorough": "more histories, of up to 4 operations after two edges"},
    "outside": "longer histories; one attribute dictionary object handed to several calls",
    "assumptions": ["node names are compared with ==; hashes of symbolic names are constant, so insertion order and equality patterns are covered, hash order is not",
                    "the inherited NetworkX 1.9.1 methods are executed as part of the code under test"],
}


class Model(object):
    """nodes: [[name, attrs]]; edges of every node in insertion order"""

    def __init__(self, x):
        self.x = x
        self.nodes = []       # [name, attrs]
        self.out = []         # per node: [[index, attrs]]
        self.inn = []         # per node: [index]

    def find(self, n):
        for i, (m, a) in enumerate(self.nodes):
            if m is not None and self.x.flag_eq(m, n):
                return i
        return None

    def add_node(self, n, attrs):
        i = self.find(n)
        if i is None:
            self.nodes.append([n, dict(attrs)])
            self.out.append([])
            self.inn.append([])
            return len(self.nodes) - 1
        self.nodes[i][1].update(attrs)
        return i

    def edge(self, i, j):
        for e in self.out[i]:
            if e[0] == j:
                return e
        return None

    def add_edge(self, u, v, attrs):
        i = self.add_node(u, {})
        j = self.add_node(v, {})
        e = self.edge(i, j)
        if e is None:
            self.out[i].append([j, dict(attrs)])
            self.inn[j].append(i)
        else:
            e[1].update(attrs)

    def del_edge(self, i, j):
        self.out[i] = [e for e in self.out[i] if e[0] != j]
        self.inn[j] = [k for k in self.inn[j] if k != i]

    def del_node(self, i):
        self.nodes[i][0] = None
        self.out[i], self.inn[i] = [], []
        self.out = [[e for e in es if e[0] != i] for es in self.out]
        self.inn = [[k for k in ks if k != i] for ks in self.inn]


def attrs_same(x, got, want, msg):
    x.prove(sorted(got.keys()) == sorted(want.keys()), msg)
    for k in want:
        if isinstance(want[k], list):
            x.prove(same_seq(x, got[k], want[k]), msg)
        elif want[k] is None or got[k] is None:
            x.prove(got[k] is want[k], msg)
        else:
            x.prove(x.Eq(got[k], want[k]), msg)


def seq(x, got, want, msg):
    x.prove(same_seq(x, list(got), list(want)), msg)


def agree(x, g, m):
    live = [i for i in range(len(m.nodes)) if m.nodes[i][0] is not None]
    name = lambda i: m.nodes[i][0]
    names = [name(i) for i in live]
    for nodes in (g.nodes(), list(g)):
        x.prove(len(nodes) == len(names), "the nodes added")
        x.prove(x.And(*[member(x, n, names) for n in nodes]) if names else True, "the nodes added")
        x.prove(x.And(*[member(x, n, nodes) for n in names]) if names else True, "the nodes added")
    x.prove(len(g) == len(live) and g.number_of_nodes() == len(live), "number of nodes")
    es = [(name(i), name(e[0]), e[1]) for i in live for e in m.out[i]]
    got = g.edges(data=True)
    x.prove(len(got) == len(es) and g.number_of_edges() == len(es), "number of edges")
    for (u, v, d), (p, q, w) in zip(got, es):
        x.prove(x.And(x.Eq(u, p), x.Eq(v, q)), "edges in order of insertion per node")
        attrs_same(x, d, w, "edge attributes")
    x.observe(len(names), len(es))
    for i in live:
        n = name(i)
        seq(x, g.successors(n), [name(e[0]) for e in m.out[i]], "successors in order of insertion")
        seq(x, g.predecessors(n), [name(k) for k in m.inn[i]], "predecessors in order of insertion")
        seq(x, g[n], [name(e[0]) for e in m.out[i]], "adjacency in order of insertion")
        seq(x, [v for u, v in g.out_edges(n)], [name(e[0]) for e in m.out[i]], "outgoing edges in order of insertion")
        seq(x, [u for u, v in g.in_edges(n)], [name(k) for k in m.inn[i]], "incoming edges in order of insertion")
        attrs_same(x, g.node[n], m.nodes[i][1], "node attributes")
        for k in live:
            e = m.edge(i, k)
            x.prove(g.has_edge(n, name(k)) == (e is not None), "has_edge")
            x.prove(g.has_successor(n, name(k)) == g.has_predecessor(name(k), n), "both views agree")
        for e in m.out[i]:
            attrs_same(x, g.succ[n][name(e[0])], e[1], "attributes seen from the source")
            attrs_same(x, g.pred[name(e[0])][n], e[1], "attributes seen from the target")


def history(x, ops, start=0):
    x.canonical_tokens()
    g, m = ODiGraph(), Model(x)
    k = 2 * (len(ops) + start) + 4
    for i in range(start):
        u, v = x.token("U%d" % i, k), x.token("V%d" % i, k)
        g.add_edge(u, v)
        m.add_edge(u, v, {})
    for i, op in enumerate(ops):
        u = x.token("u%d" % i, k)
        w = x.int("w%d" % i)
        if op == "N":
            g.add_node(u)
            m.add_node(u, {})
        elif op == "n":
            g.add_node(u, {"a": w}, b=i)
            m.add_node(u, {"a": w, "b": i})
        elif op == "M":
            v = x.token("v%d" % i, k)
            g.add_nodes_from([u, v], a=w)
            for n in (u, v):
                m.add_node(n, {"a": w})
        elif op == "A":
            # attributes of one node are its own
            j = m.find(u)
            if j is not None:
                g.node[u]["a"] = w
                m.nodes[j][1]["a"] = w
        elif op in "Ee":
            v = x.token("v%d" % i, k)
            kw = {"a": w} if op == "e" else {}
            if op == "e":
                g.add_edge(u, v, {"c": i}, a=w)
                m.add_edge(u, v, {"a": w, "c": i})
            else:
                g.add_edge(u, v)
                m.add_edge(u, v, {})
        elif op == "F":
            v = x.token("v%d" % i, k)
            # what is given with an edge holds for it
            g.add_edges_from([(u, v), (v, u, {"a": w, "c": w})], b=i, c=i)
            m.add_edge(u, v, {"b": i, "c": i})
            m.add_edge(v, u, {"a": w, "b": i, "c": w})
        elif op == "R":
            v = x.token("v%d" % i, k)
            a, b = m.find(u), m.find(v)
            there = a is not None and b is not None and m.edge(a, b) is not None
            x.prove(raises(lambda: g.remove_edge(u, v), NetworkXError) != there,
                    "removing fails exactly for a missing edge")
            if there:
                m.del_edge(a, b)
        elif op == "X":
            a = m.find(u)
            x.prove(raises(lambda: g.remove_node(u), NetworkXError) == (a is None),
                    "removing fails exactly for a missing node")
            if a is not None:
                m.del_node(a)
    agree(x, g, m)


def from_data(x, n):
    x.canonical_tokens()
    m = Model(x)
    edges = []
    for i in range(n):
        u, v = x.token("u%d" % i, 2 * n), x.token("v%d" % i, 2 * n)
        edges.append((u, v))
        m.add_edge(u, v, {})
    g = ODiGraph(edges, name="N", day="D")
    x.prove(g.graph == {"name": "N", "day": "D"}, "graph attributes")
    agree(x, g, m)
    h = copy.deepcopy(g)
    agree(x, h, m)
    h.add_edge("new", edges[0][0])
    agree(x, g, m)
    agree(x, g.copy(), m)
    h = ODiGraph(g)
    x.prove(len(h) == len(g) and h.number_of_edges() == g.number_of_edges(), "graph made from a graph")
    for n in g:
        seq(x, h.successors(n), g.successors(n), "successors in a graph made from a graph")


# -- Daeso graphs

def daeso(x, op, edges):
    x.canonical_tokens()
    k = 3 + 2 * edges + 3
    g, m = DaesoGraph("id", ["t"]), Model(x)
    names = tokens(x, "n", 3, k)
    for i, n in enumerate(names):
        for o in names[:i]:
            x.assume(x.Not(x.Eq(n, o)))
        lab = x.token("label%d" % i, 3)
        g.add_node(n, lab, [lab])
        m.add_node(n, {"label": lab, "tokens": [lab]})
    for i in range(edges):
        u, v = x.choice("u%d" % i, 0, 2), x.choice("v%d" % i, 0, 2)
        lab = x.token("elabel%d" % i, 3)
        g.add_edge(names[u], names[v], lab)
        m.add_edge(names[u], names[v], {"label": lab})
    u, v = x.token("u", k), x.token("v", k)
    w, lab = x.int("w"), x.token("label", 3)
    a, b = m.find(u), m.find(v)
    known = a is not None and b is not None
    if op == "node":
        g.add_node(u, lab, [lab, lab], extra=w)
        m.add_node(u, {"label": lab, "tokens": [lab, lab], "extra": w})
    elif op == "node-default":
        g.add_node(u, lab, attr_dict={"extra": w})
        m.add_node(u, {"label": lab, "tokens": [], "extra": w})
        g.get_node_tokens(u).append(lab)
        m.nodes[m.find(u)][1]["tokens"] = [lab]
        g.add_node("another", lab)
        m.add_node("another", {"label": lab, "tokens": []})
    elif op == "edge":
        x.prove(raises(lambda: g.add_edge(u, v, lab, extra=w), ValueError) != known,
                "an edge needs two existing nodes")
        if known:
            m.add_edge(u, v, {"label": lab, "extra": w})
    elif op == "edge-dict":
        x.prove(raises(lambda: g.add_edge(u, v, attr_dict={"x": w}, extra=w), ValueError) != known,
                "an edge needs two existing nodes")
        if known:
            m.add_edge(u, v, {"label": None, "extra": w, "x": w})
    elif op == "edges":
        fine = raises(lambda: g.add_edges_from([(names[0], names[1], {"a": w, "b": w}), (u, v), (names[1], names[0], {"label": "own"})], lab,
                                                attr_dict={"b": 1}, extra=w), ValueError)
        x.prove(fine != known, "an edge needs two existing nodes")
        m.add_edge(names[0], names[1], {"label": lab, "extra": w, "a": w, "b": w})
        if known:
            m.add_edge(u, v, {"label": lab, "extra": w, "b": 1})
            m.add_edge(names[1], names[0], {"label": "own", "extra": w, "b": 1})
    elif op == "nodes":
        g.add_nodes_from([u, v])
    elif op == "tokens":
        if a is not None:
            g.set_node_tokens(u, [lab])
            x.prove(same_seq(x, g.get_node_tokens(u), [lab]), "tokens of a node")
            m.nodes[a][1]["tokens"] = [lab]
    elif op == "remove":
        x.prove(raises(lambda: g.remove_node(u), NetworkXError) == (a is None), "missing node")
        if a is not None:
            m.del_node(a)
    agree(x, g, m)


def jobs(tier):
    out = {}
    fresh = ["", "N", "n", "M", "E", "e", "F", "EE", "eF", "nM", "MA", "FA", "EN", "MEX", "EXE", "ERE", "EEE", "eXe", "FRE", "nXn"]
    after = ["N", "n", "e", "R", "X", "M", "F", "A"]
    two = ["RE", "XE", "RX", "XR"]
    if tier == "thorough":
        fresh += ["EEEE", "MEEX", "EEXE", "EERE", "FFR", "nEXn", "EMRE", "eeXe", "ReXN"]
        after += ["RR", "XX", "RN", "XN", "Me", "en", "FR", "FX"]
    for h in fresh:
        out["history-" + h] = (history, dict(ops=h))
    for h in after + two:
        out["after-two-edges-" + h] = (history, dict(ops=h, start=2))
    for n in (1, 2, 3):
        out["data-%d" % n] = (from_data, dict(n=n))
    for op in ("node", "node-default", "edge", "edge-dict", "edges", "nodes", "tokens", "remove"):
        for e in (0, 1, 2):
            if e == 2 and tier == "quick" and op not in ("edge", "remove"):
                continue
            out["daeso-%s-%d" % (op, e)] = (daeso, dict(op=op, edges=e))
    return out
