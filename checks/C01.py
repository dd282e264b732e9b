# -*- coding: utf-8 -*-
"""C01  node alignments of graph pairs"""
from helpers import *
from networkx import NetworkXError
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphMatching, GraphMapping

META = {
    "bounds": {"quick": "every history of up to 3 additions and deletions, and every single edit of a state of up to 3 alignments; all names of source and target nodes (also shared between the two) and all relations symbolic; afterwards every query; every single edit of a state of 8 alignments of given nodes, with symbolic nodes and relations",
               "thorough": "histories of up to 4 edits; states of up to 4 alignments"},
    "outside": "longer histories that do not reduce to one edit of a small state",
    "assumptions": ["node names are compared with ==; hashes of symbolic names are constant"],
}


def make(cls):
    return cls(Pair(GraphBank("/nonexistent/s", "graphml"), GraphBank("/nonexistent/t", "graphml")),
               Pair(DaesoGraph("1"), DaesoGraph("2")))


class Model(object):
    """list of triples"""

    def __init__(self, x, matching):
        self.x, self.matching, self.items = x, matching, []

    def add(self, s, t, r):
        x, out, old = self.x, [], False
        for i, (a, b, c) in enumerate(self.items):
            ea, eb = x.flag_eq(a, s), x.flag_eq(b, t)
            if ea and eb or self.matching and (ea or eb):
                continue
            out.append((a, b, c))
        out.append((s, t, r))
        self.items = out

    def find(self, s, t):
        for i, (a, b, c) in enumerate(self.items):
            if self.x.flag_eq(a, s) and self.x.flag_eq(b, t):
                return i
        return None


def printed(x, matching):
    """a pair can be printed, and its text tells its alignments"""
    gp = make(GraphMatching if matching else GraphMapping)
    some = [("n%d" % i, "m%d" % i, "rel%d" % i) for i in range(3) if x.flag("align%d" % i)]
    for s, t, r in some:
        gp.add_align(Pair(s, t), r)
    text = str(gp)
    x.prove(all([v in text for triple in some for v in triple]), "text of a graph pair")
    x.observe(len(gp))


def agree(x, gp, model, used, filtered):
    items = model.items
    al = gp.alignments()
    n = len(items)
    x.observe(len(al))
    x.prove(len(gp) == n, "number of alignments")
    x.prove(len(al) == n, "length of the list of alignments")
    x.prove(len(list(gp.alignments_iter())) == n, "iteration over the alignments")
    for s, t, r in items:
        x.prove(x.Or(*[x.And(x.Eq(p.source, s), x.Eq(p.target, t), x.Eq(q, r)) for p, q in al]),
                "every alignment is listed with its relation")
    # no other nodes are left behind
    names = [s for s, t, r in items] + [t for s, t, r in items]
    nodes = gp.nodes()
    x.prove(x.And(*[member(x, v, names) for v in nodes]) if nodes else True,
            "only aligned nodes are kept")
    x.prove(x.Eq(n_types(x, names), len(nodes)), "every aligned node is kept")
    # every name a query can mention equals one of the names in play or none
    fresh = "nowhere"
    pool = []
    for v in names + used:
        if not any([x.flag_eq(v, w) for w in pool]):
            pool.append(v)
    pool.append(fresh)
    for u in pool:
        if model.matching:
            got = gp.get_aligned_target_node(u)
            if got is None:
                x.prove(x.Not(member(x, u, [s for s, t, r in items])), "partner of a source node is found")
            else:
                x.prove(x.Or(*[x.And(x.Eq(u, s), x.Eq(got, t)) for s, t, r in items])
                        if items else False, "partner of a source node")
            got = gp.get_aligned_source_node(u)
            if got is None:
                x.prove(x.Not(member(x, u, [t for s, t, r in items])), "partner of a target node is found")
            else:
                x.prove(x.Or(*[x.And(x.Eq(u, t), x.Eq(got, s)) for s, t, r in items])
                        if items else False, "partner of a target node")
        for v in pool:
            here = x.Or(*[x.And(x.Eq(u, s), x.Eq(v, t)) for s, t, r in items]) if items else False
            got = gp.get_align(Pair(u, v))
            if got is None:
                x.prove(x.Not(here), "relation of an alignment is found")
            else:
                x.prove(x.Or(*[x.And(x.Eq(u, s), x.Eq(v, t), x.Eq(got, r)) for s, t, r in items])
                        if items else False, "relation found is the one of the alignment")
    if not filtered:
        return
    w = [x.token("query-r%d" % i, 4) for i in range(filtered)]
    chosen = gp.alignments(relations=w)
    x.prove(x.Eq(len(chosen), count(x, [member(x, r, w) for s, t, r in items])), "number of alignments with a relation")
    for p, q in chosen:
        x.prove(x.And(member(x, q, w), x.Or(*[x.And(x.Eq(p.source, s), x.Eq(p.target, t), x.Eq(q, r))
                                         for s, t, r in items])), "alignments with a relation")
    x.prove(len(gp.alignments(relations=[])) == n, "no relations given: all alignments")


def edit(x, gp, model, kind, i, k):
    s, t = x.token("s%d" % i, k), x.token("t%d" % i, k)
    if kind == "a":
        r = x.token("r%d" % i, 3)
        gp.add_align(Pair(s, t), r)
        model.add(s, t, r)
    else:
        at = model.find(s, t)
        try:
            gp.del_align(Pair(s, t))
            gone = True
        except NetworkXError:
            gone = False
        x.prove(gone == (at is not None), "deleting fails exactly for a missing alignment")
        if at is not None:
            del model.items[at]
    return [s, t]


def history(x, matching, ops, state=0, filtered=0):
    used = []
    x.canonical_tokens()
    gp = make(GraphMatching if matching else GraphMapping)
    model = Model(x, matching)
    k = 2 * (len(ops) + state) + 2
    if state:
        src = tokens(x, "S", state, k)
        tgt = tokens(x, "T", state, k)
        for i in range(state):
            for j in range(i):
                if matching:
                    x.assume(x.Not(x.Eq(src[i], src[j])))
                    x.assume(x.Not(x.Eq(tgt[i], tgt[j])))
                else:
                    x.assume(x.Not(x.And(x.Eq(src[i], src[j]), x.Eq(tgt[i], tgt[j]))))
            r = x.token("R%d" % i, 3)
            gp.add_align(Pair(src[i], tgt[i]), r)
            model.items.append((src[i], tgt[i], r))
    for i, kind in enumerate(ops):
        used += edit(x, gp, model, kind, i, k)
    agree(x, gp, model, used, filtered)


def wide(x, matching, n, kind):
    """one edit of a state of n alignments between the same nodes in two orders"""
    names = [x.symbol(i) for i in range(n)]
    order = names[n // 2:][::-1] + names[:n // 2]
    rels = [x.symbol(i % 3) for i in range(n)]
    gp = make(GraphMatching if matching else GraphMapping)
    model = Model(x, matching)
    model.items = zip(names, order, rels)
    for s, t, r in model.items:
        gp.add_align(Pair(s, t), r)
    s, t, r = x.token("s", n + 1), x.token("t", n + 1), x.token("r", 4)
    if kind == "a":
        gp.add_align(Pair(s, t), r)
        model.add(s, t, r)
    else:
        at = model.find(s, t)
        bad = raises(lambda: gp.del_align(Pair(s, t)), NetworkXError)
        x.prove(bad == (at is None), "deleting fails exactly for a missing alignment")
        if at is not None:
            del model.items[at]
    got = gp.alignments()
    x.observe(len(got))
    x.prove(len(got) == len(gp) == len(list(gp.alignments_iter())) == len(model.items), "number of alignments")
    x.prove(x.And(*[x.Or(*[x.And(x.Eq(p.source, a), x.Eq(p.target, b), x.Eq(q, c)) for p, q in got])
                    for a, b, c in model.items]), "every alignment is listed with its relation")
    for a, b, c in model.items:
        x.prove(x.Eq(gp.get_align(Pair(a, b)), c), "relation found is the one of the alignment")
        if matching:
            x.prove(x.And(x.Eq(gp.get_aligned_target_node(a), b), x.Eq(gp.get_aligned_source_node(b), a)), "partners")
    w = [x.token("query", 4)]
    chosen = gp.alignments(relations=w)
    x.prove(x.Eq(len(chosen), count(x, [x.Eq(w[0], c) for a, b, c in model.items])), "number of alignments with a relation")
    x.prove(x.And(*[x.Eq(q, w[0]) for p, q in chosen]) if chosen else True, "alignments with a relation")


def jobs(tier):
    out = {}
    hist = ["", "a", "d", "aa", "ad", "aaa", "aad", "ada"]
    states = [(1, "a"), (1, "d"), (2, "a"), (2, "d"), (3, "a"), (3, "d")]
    if tier == "thorough":
        hist += ["aaaa", "aaad", "aada", "adaa", "aadd"]
        states += [(4, "a"), (4, "d"), (2, "aa"), (2, "ad"), (2, "da")]
    for m in (True, False):
        name = "matching" if m else "mapping"
        out[name + "-printed"] = (printed, dict(matching=m))
        for h in hist:
            out["%s-history-%s" % (name, h)] = (history, dict(matching=m, ops=h))
        for h, n in (("aa", 1), ("aa", 2), ("aaa", 1)):
            out["%s-filter-%s-%d" % (name, h, n)] = (history, dict(matching=m, ops=h, filtered=n))
        for kind in "ad":
            out["%s-wide-8-%s" % (name, kind)] = (wide, dict(matching=m, n=8, kind=kind))
        for n, h in states:
                out["%s-state-%d-%s" % (name, n, h)] = (history, dict(matching=m, ops=h, state=n))
    return out
