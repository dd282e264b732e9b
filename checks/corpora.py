# -*- coding: utf-8 -*-
"""symbolic parallel graph corpora for several checks"""
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphMatching
from daeso.pgc.corpus import ParallelGraphCorpus

BANKS = Pair(GraphBank("/nonexistent/s", "graphml"), GraphBank("/nonexistent/t", "graphml"))


def graph_pair(ids=("1", "2"), graphs=None, banks=BANKS):
    if graphs is None:
        graphs = Pair(DaesoGraph(ids[0]), DaesoGraph(ids[1]))
    return GraphMatching(banks, graphs)


def align(x, gp, name, n, k, relations):
    """n alignments of distinct source and target nodes with symbolic names;
    the relation is one of the given ones.  -> list of triples"""
    out = []
    for i in range(n):
        s, t = x.token("%s-s%d" % (name, i), k), x.token("%s-t%d" % (name, i), k)
        r = relation(x, "%s-r%d" % (name, i), relations)
        for a, b, c in out:
            x.assume(x.And(x.Not(x.Eq(a, s)), x.Not(x.Eq(b, t))))
        gp.add_align(Pair(s, t), r)
        out.append((s, t, r))
    return out


def relation(x, name, relations):
    r = x.token(name, len(relations) + 1)
    x.assume(x.Or(*[x.Eq(r, q) for q in relations]))
    return r


def triples(gp):
    return [(p.source, p.target, r) for p, r in gp.alignments()]


def has(x, s, t, al):
    return x.Or(*[x.And(x.Eq(s, a), x.Eq(t, b)) for a, b, c in al]) if al else False


def has3(x, s, t, r, al):
    return x.Or(*[x.And(x.Eq(s, a), x.Eq(t, b), x.Eq(r, c)) for a, b, c in al]) if al else False
