# -*- coding: utf-8 -*-
"""C08  terminals and terminal yield"""
from helpers import *
from daeso.graph.daesograph import DaesoGraph

META = {
    "bounds": {"quick": "every directed graph of up to 3 nodes (cycles and self loops included), every acyclic graph of 4 nodes and every tree of 5 nodes; every combination of both options and of the starting node; every combination of empty, punctuation and ordinary tokens for graphs of up to 3 nodes and trees (fixed tokens otherwise)",
               "thorough": "in addition every directed graph of 4 nodes without self loops"},
    "outside": "larger graphs; graphs without the nodes asked for",
    "assumptions": ["the tokens of a node are one of: none, empty, one punctuation mark, one word, word and punctuation mark, two punctuation marks"],
}

KINDS = [["word"], [","], [], ["word", "."], [",", "."], None]


class Lazy(list):
    """tokens whose kind is decided when the code first looks at them"""

    def __init__(self, x, name):
        self.x, self.name, self.kind = x, name, None

    def look(self):
        if self.kind is None:
            self.kind = self.x.choice(self.name, 0, 4)
        return KINDS[self.kind]

    def __len__(self):
        return len(self.look())

    def __nonzero__(self):
        return bool(self.look())

    def __iter__(self):
        return iter(self.look())

    def __getitem__(self, i):
        return self.look()[i]

    def __contains__(self, v):
        return v in self.look()

    def __eq__(self, o):
        return self.look() == o

    def __ne__(self, o):
        return self.look() != o


def punct(t):
    return bool(t) and all([w in ",." for w in t])


def check(x, n, edge, order, none=False, fixed=False):
    """edge(i, j): is there an edge; order: pairs in order of insertion"""
    g = DaesoGraph()
    toks = []
    for i in range(n):
        # fixed tokens: words, punctuation and nothing take turns
        t = None if none else KINDS[i % 3] if fixed else Lazy(x, "tokens%d" % i)
        toks.append(t)
        g.add_node("n%d" % i, "l")
        g.set_node_tokens("n%d" % i, t)
    succ = [[] for i in range(n)]
    for i, j in order:
        if edge(i, j):
            g.add_edge("n%d" % i, "n%d" % j)
            succ[i].append(j)
    with_punct, with_empty = x.flag("with_punct"), x.flag("with_empty")
    start = x.choice("start", 0, n - 1)

    def wanted(i):
        t = toks[i]
        if succ[i]:
            return False
        if not with_punct and t is not None and punct(t):
            return False
        if not with_empty and not t:
            return False
        return True

    nodes = set(["n%d" % i for i in range(n)])
    plain = set(["n%d" % i for i in range(n) if not succ[i]])
    x.prove(set(g.terminals()) == plain and len(g.terminals()) == len(plain),
            "terminals are the nodes without outgoing edges")
    non = g.non_terminals()
    x.prove(set(non) == nodes - plain and len(non) == len(nodes - plain),
            "non-terminals are the other nodes")
    for i in range(n):
        x.prove(bool(g.node_is_terminal("n%d" % i)) == (not succ[i]), "node_is_terminal")
        x.prove(bool(g.node_is_non_terminal("n%d" % i)) == bool(succ[i]), "node_is_non_terminal")

    # terminal yield
    seen, order = set(), []

    def visit(i):
        if i in seen:
            return
        seen.add(i)
        order.append(i)
        for j in succ[i]:
            visit(j)
    visit(start)
    for kw, want in ((dict(), [i for i in order if not succ[i]]),
                     (dict(with_punct=with_punct, with_empty=with_empty), [i for i in order if wanted(i)])):
        want = ["n%d" % i for i in want]
        got = g.terminal_yield("n%d" % start, **kw)
        x.observe(got)
        x.prove(got == want, "terminal yield: reachable terminals, once, left to right")
        g.root = "n%d" % start
        x.prove(g.terminal_yield(**kw) == want, "terminal yield of the root")
    got = g.terminals(with_punct=with_punct, with_empty=with_empty)
    want = ["n%d" % i for i in range(n) if wanted(i)]
    x.observe(sorted(got))
    x.prove(sorted(got) == want, "terminals without punctuation or empty nodes")


def any_graph(x, n, loops, first=None):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    table = {}
    for k, p in enumerate(pairs):
        table[p] = x.flag("edge%d-%d" % p) if first is None or k >= len(first) else first[k]
    check(x, n, lambda i, j: table[i, j], pairs, fixed=n > 3)


def dag(x, n, down):
    """edges from lower to higher numbers, inserted left to right or right to left"""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    if down:
        pairs.reverse()
    table = {}
    for p in pairs:
        table[p] = x.flag("edge%d-%d" % p)
    check(x, n, lambda i, j: table[i, j], pairs, fixed=True)


def tree(x, n, down):
    parent = [None] + [x.choice("parent%d" % i, 0, i - 1) for i in range(1, n)]
    pairs = [(parent[j], j) for j in range(1, n)]
    if down:
        pairs.reverse()
    check(x, n, lambda i, j: True, pairs)


def untokened(x):
    table = dict([(p, x.flag("edge%d-%d" % p)) for p in ((0, 1), (1, 0), (0, 2), (1, 2))])
    check(x, 3, lambda i, j: table[i, j], sorted(table), none=True)


def zero(x):
    """falsy node names are nodes like any other"""
    g = DaesoGraph(root="r")
    names = [0, "", "r", "a"]
    for n in names:
        g.add_node(n, "l", ["t"])
    child = x.choice("child", 0, 3)
    start = x.choice("start", 0, 3)
    other = x.choice("other", 0, 3)
    g.add_edge(names[start], names[child])
    g.add_edge("r", names[other])
    for n in names:
        want = set()
        todo = [n]
        done = []
        while todo:
            v = todo.pop()
            if v in done:
                continue
            done.append(v)
            if not g.successors(v):
                want.add(v)
            todo += g.successors(v)
        x.prove(set(g.terminal_yield(n)) == want, "terminal yield of a falsy node name")


def jobs(tier):
    out = {"one": (any_graph, dict(n=1, loops=True)), "two": (any_graph, dict(n=2, loops=True)),
           "untokened": (untokened, {}), "falsy": (zero, {})}
    for a in (False, True):
        for b in (False, True):
            for c in (False, True):
                out["three-%d%d%d" % (a, b, c)] = (any_graph, dict(n=3, loops=True, first=[a, b, c]))
                if tier == "thorough":
                    for d in (False, True):
                        for e in (False, True):
                            out["four-%d%d%d%d%d" % (a, b, c, d, e)] = (any_graph, dict(n=4, loops=False, first=[a, b, c, d, e]))
        out["dag-%d" % a] = (dag, dict(n=4, down=a))
        out["tree-%d" % a] = (tree, dict(n=4 if tier == "quick" else 5, down=a))
    return out
