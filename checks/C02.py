# -*- coding: utf-8 -*-
"""C02  equality and deep copies of graph pairs"""
import copy
import xml.etree.cElementTree as et
from helpers import *
from networkx import NetworkXError
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank
from daeso.gb.graphstub import GraphStub
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphMatching, GraphMapping, GraphPairBase

META = {
    "bounds": {"quick": "equality: two graph pairs with up to 2 alignments each (all names and relations symbolic), symbolic graph ids, every combination of two bank files, 6 kinds of meta-data; copies: up to 2 alignments and one arbitrary edit on either side",
               "thorough": "up to 3 alignments"},
    "outside": "banks whose different paths lead to the same file; larger meta-data trees (see C35)",
    "assumptions": ["bank files do not exist, so that equality of banks is equality of paths"],
}


def meta(kind):
    """kinds of meta-data; kinds 0 and 1 are equal"""
    if kind == 0:
        return None
    e = et.Element("graph_meta_data")
    if kind in (2, 3):
        e.text = "abc"[kind - 2]
    elif kind == 4:
        e.set("k", "v")
    elif kind == 5:
        et.SubElement(e, "child").text = "c"
    return e


def meta_class(kind):
    return max(kind, 1)


def align(x, gp, name, n, k):
    """n alignments with distinct sources and distinct targets"""
    out = []
    for i in range(n):
        s, t, r = x.token("%ss%d" % (name, i), k), x.token("%st%d" % (name, i), k), x.token("%sr%d" % (name, i), 3)
        for a, b, c in out:
            if isinstance(gp, GraphMatching):
                x.assume(x.And(x.Not(x.Eq(a, s)), x.Not(x.Eq(b, t))))
            else:
                x.assume(x.Not(x.And(x.Eq(a, s), x.Eq(b, t))))
        gp.add_align(Pair(s, t), r)
        out.append((s, t, r))
    return out


def subset(x, a, b):
    return x.And(*[x.Or(*[x.And(x.Eq(s, u), x.Eq(t, v), x.Eq(r, w)) for u, v, w in b]) if b else False
                   for s, t, r in a]) if a else True


def same(x, a, b):
    return x.And(subset(x, a, b), subset(x, b, a))


def compare(x, gp, hp, equal):
    eq, ne, eq2, ne2 = bool(gp == hp), bool(gp != hp), bool(hp == gp), bool(hp != gp)
    x.observe(eq, ne)
    x.prove(x.Eq(equal, eq), "equal exactly when all parts are")
    x.prove(eq == eq2, "equality is symmetric")
    x.prove(ne == (not eq) and ne2 == (not eq2), "!= is the negation of ==")


def make(x, cls, name, banks, stub=False, m=None):
    g = GraphStub if stub else DaesoGraph
    ids = x.token(name + "-from", 3), x.token(name + "-to", 3)
    kw = {} if m is None else dict(meta_data=m)
    return cls(Pair(*banks), Pair(g(ids[0]), g(ids[1])), **kw), ids


def alignments_equal(x, cls, n, m):
    x.canonical_tokens()
    b = GraphBank("/nonexistent/a", "graphml")
    k = 2 * (n + m)
    gp = cls(Pair(b, b), Pair(DaesoGraph("1"), DaesoGraph("2")))
    hp = cls(Pair(b, b), Pair(DaesoGraph("1"), DaesoGraph("2")))
    a, c = align(x, gp, "a", n, k), align(x, hp, "b", m, k)
    compare(x, gp, hp, same(x, a, c))


def parts_equal(x, cls, stub):
    paths = ["/nonexistent/a", "/nonexistent/b"]
    bp = [x.pick("bank%d" % i, paths) for i in range(4)]
    banks = [GraphBank(p, "graphml") for p in bp]
    gp, i = make(x, cls, "a", banks[:2], stub)
    hp, j = make(x, cls, "b", banks[2:], stub)
    if cls is not GraphPairBase:
        gp.add_align(Pair("1", "2"), "r")
        hp.add_align(Pair("1", "2"), "r")
    compare(x, gp, hp, x.And(bp[:2] == bp[2:], x.Eq(i[0], j[0]), x.Eq(i[1], j[1])))
    x.prove(gp == gp and not gp != gp, "a pair equals itself")
    x.prove(not (gp == None) and gp != None and not (gp == "x"), "no pair equals something else")


def meta_equal(x, cls):
    b = GraphBank("/nonexistent/a", "graphml")
    k, l = x.choice("meta-a", 0, 5), x.choice("meta-b", 0, 5)
    kw = [{} if i == 0 else dict(meta_data=meta(i)) for i in (k, l)]
    gp = cls(Pair(b, b), Pair(DaesoGraph("1"), DaesoGraph("2")), **kw[0])
    hp = cls(Pair(b, b), Pair(DaesoGraph("1"), DaesoGraph("2")), **kw[1])
    x.prove(et.tostring(gp.get_meta_data()) == et.tostring(meta(meta_class(k))), "meta-data is kept")
    compare(x, gp, hp, meta_class(k) == meta_class(l))
    hp.set_meta_data(meta(meta_class(k)))
    compare(x, gp, hp, True)


def deep(x, cls, n, kind):
    x.canonical_tokens()
    k = 2 * n + 4
    banks = Pair(GraphBank("/nonexistent/a", "graphml"), GraphBank("/nonexistent/b", "graphml"))
    graphs = Pair(DaesoGraph("1"), DaesoGraph("2"))
    m = x.choice("meta", 1, 5)
    gp = cls(banks, graphs, meta_data=meta(m))
    before = align(x, gp, "a", n, k)
    cp = copy.deepcopy(gp)
    x.prove(cp.__class__ is gp.__class__, "a copy has the same type")
    x.prove(cp is not gp, "a copy is a new object")
    x.prove(cp == gp and not cp != gp, "a copy equals the original")
    x.prove(len(cp) == n, "a copy has as many alignments")
    for p, q in ((gp, cp), (cp, gp)):
        x.prove(p.get_source_graph() is q.get_source_graph() and
                p.get_target_graph() is q.get_target_graph(), "graphs are shared")
        x.prove(p.get_source_bank() is q.get_source_bank() and
                p.get_target_bank() is q.get_target_bank(), "banks are shared")
    edited, other = (cp, gp) if x.flag("edit the copy") else (gp, cp)
    text = et.tostring(meta(m))
    if kind == "add":
        s, t = x.token("s", k), x.token("t", k)
        edited.add_align(Pair(s, t), "new")
        x.prove(edited.get_align(Pair(s, t)) == "new", "the edit takes place")
        x.prove(not edited == other, "an edited copy differs")
    elif kind == "del":
        i = x.choice("victim", 0, n - 1)
        edited.del_align(Pair(before[i][0], before[i][1]))
        x.prove(len(edited) == n - 1, "the edit takes place")
        x.prove(not edited == other, "an edited copy differs")
    elif kind == "meta":
        et.SubElement(edited.get_meta_data(), "more")
        edited.get_meta_data().set("a", "b")
        edited.get_meta_data().text = "other"
        x.prove(not edited == other, "an edited copy differs")
    elif kind == "nodes":
        for v in other.nodes():
            edited.add_node(v, seen=True)
        x.prove(not [v for v in other.nodes() if other.node[v]], "node attributes are not shared")
    after = [(p.source, p.target, r) for p, r in other.alignments()]
    x.observe(after if n < 2 else len(after))
    x.prove(len(after) == n, "an edit does not show in the other pair")
    x.prove(same(x, before, after), "an edit does not show in the other pair")
    x.prove(et.tostring(other.get_meta_data()) == text, "meta-data is independent")


def base_copy(x):
    b = GraphBank("/nonexistent/a", "graphml")
    m = x.choice("meta", 1, 5)
    gp = GraphPairBase(Pair(b, b), Pair(DaesoGraph("1"), DaesoGraph("2")), meta_data=meta(m))
    cp = copy.deepcopy(gp)
    x.prove(cp == gp and cp is not gp, "a copy equals the original")
    et.SubElement(cp.get_meta_data(), "more")
    x.prove(not cp == gp, "meta-data is independent")
    x.prove(et.tostring(gp.get_meta_data()) == et.tostring(meta(m)), "meta-data is independent")


def roots(x, cls, n, none):
    k = 2 * n + 2
    graphs = Pair(DaesoGraph("1"), DaesoGraph("2"))
    if not none & 1:
        graphs.source.root = x.token("source root", k)
    if not none & 2:
        graphs.target.root = x.token("target root", k)
    b = GraphBank("/nonexistent/a", "graphml")
    gp = cls(Pair(b, b), graphs)
    al = align(x, gp, "a", n, k)
    if none:
        want = False
    else:
        want = x.Or(*[x.And(x.Eq(s, graphs.source.root), x.Eq(t, graphs.target.root))
                      for s, t, r in al]) if al else False
    got = bool(gp.roots_aligned())
    x.observe(got)
    x.prove(x.Eq(want, got), "roots are aligned exactly when the two roots are")


def jobs(tier):
    out = {}
    sizes = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)]
    if tier == "thorough":
        sizes += [(2, 3), (3, 3)]
    for cls in (GraphMatching, GraphMapping):
        c = cls.__name__[5:].lower()
        for n, m in sizes:
            if (n, m) == (2, 2) and cls is GraphMapping and tier == "quick":
                continue
            out["equal-%s-%d-%d" % (c, n, m)] = (alignments_equal, dict(cls=cls, n=n, m=m))
        out["parts-" + c] = (parts_equal, dict(cls=cls, stub=False))
        out["meta-" + c] = (meta_equal, dict(cls=cls))
        for kind in ("add", "del", "meta", "nodes"):
            for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
                out["copy-%s-%s-%d" % (c, kind, n)] = (deep, dict(cls=cls, n=n, kind=kind))
        out["copy-%s-add-0" % c] = (deep, dict(cls=cls, n=0, kind="add"))
        for n in (0, 1, 2):
            out["roots-%s-%d" % (c, n)] = (roots, dict(cls=cls, n=n, none=0))
        for none in (1, 2, 3):
            out["roots-%s-none%d" % (c, none)] = (roots, dict(cls=cls, n=1, none=none))
    out["parts-stub"] = (parts_equal, dict(cls=GraphMatching, stub=True))
    out["parts-base"] = (parts_equal, dict(cls=GraphPairBase, stub=False))
    out["meta-base"] = (meta_equal, dict(cls=GraphPairBase))
    out["copy-base"] = (base_copy, {})
    return out
