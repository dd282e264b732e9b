# -*- coding: utf-8 -*-
"""C11  tables of inter-annotator agreement"""
import sys
from helpers import *
from corpora import *
from daeso.gb.graphstub import GraphStub
from daeso.pgc import agreement as m
from daeso.pgc.corpus import LOAD_NONE, LOAD_SPARSE

META = {
    "first": ["table-2", "cross-2-1"],
    "bounds": {"quick": "tables of 2 to 4 annotators with arbitrary real scores; whole evaluations of 2 annotators with up to 2 alignments each and of 3 with up to 1 each, one graph pair, symbolic relations out of two; restriction to words with up to 2 alignments and any choice of inner nodes",
               "thorough": "tables of 5 annotators, 3 annotators with 2 alignments each"},
    "outside": "more annotators; rounding of floats; the layout of the printed tables",
    "assumptions": ["scores are real numbers (floats are treated as reals)",
                    "the names of the annotators are distinct and not 'mean' or 'SD'",
                    "reading a corpus file is replaced by handing out a prepared corpus (C04 and C05 are about reading)"],
}


def labels(n):
    return ["A%d" % (i + 1) for i in range(n)]


def table(x, n):
    """means and standard deviations of arbitrary scores"""
    ls = labels(n)
    t = m.AnalysesTable(list(ls))
    v = {}
    for r in ls:
        for c in ls:
            if r != c:
                t[r][c] = v[r, c] = x.real("%s-%s" % (r, c))
    t.calculate_statistics()
    x.prove(x.And(*[x.Eq(t[r][c], v[r, c]) for r, c in v]), "scores stay as they are")
    cols = dict([(c, [v[r, c] for r in ls if r != c]) for c in ls])
    cols["overall"] = v.values()
    for c in cols:
        values = cols[c]
        mean, sd = t["mean"][c], t["SD"][c]
        x.prove(x.Close(mean * len(values), x.Sum(values)), "mean of " + ("a column" if c != "overall" else "the table"))
        if len(values) == 1:
            x.prove(x.Eq(sd, 0), "standard deviation of a single value")
            continue
        dev = x.Sum([(u - mean) ** 2 for u in values])
        x.prove(x.Close(sd * sd, dev / (len(values) - 1)), "sample standard deviation")
        x.prove(x.Le(0, sd), "standard deviation is not negative")
    x.prove(set(t) == set(ls + ["mean", "SD"]), "rows")


class Reader(object):
    """stands for reading files: hands out prepared corpora"""

    def __init__(self, corpora):
        self.corpora = corpora

    def __enter__(self):
        corpora = self.corpora

        def read(corpus, inf, graph_loading=LOAD_SPARSE, *args, **kwargs):
            prepared = corpora[inf]
            for gp in prepared:
                if graph_loading == LOAD_NONE:
                    gp._graphs = Pair(GraphStub("1"), GraphStub("2"))
            corpus.extend(prepared)
            corpus.set_relations(prepared.get_relations())
        self.old = ParallelGraphCorpus.__dict__["read"]
        ParallelGraphCorpus.read = read

    def __exit__(self, *args):
        ParallelGraphCorpus.read = self.old


class Sink(object):
    def write(self, s):
        pass


def with_reader(corpora, f):
    out = sys.stdout
    sys.stdout = Sink()
    try:
        with Reader(corpora):
            return f()
    finally:
        sys.stdout = out


RELS = ["equals", "restates"]


def prepared(x, n, most, inner=None):
    """one corpus of one pair for every annotator; alignments are those of
    1-1, 2-2, .. with a relation or without"""
    out, al = {}, []
    for a in range(n):
        graphs = None
        if inner is not None:
            graphs = Pair(DaesoGraph("1"), DaesoGraph("2"))
            for side, g in zip("st", graphs):
                g.add_node("leaf", "x")
                for i in range(most):
                    g.add_node(str(i), "x")
                for i in range(most):
                    if (side, i) in inner:
                        g.add_edge(str(i), "leaf")
        gp = graph_pair(graphs=graphs)
        mine = {}
        for i in range(most):
            r = x.pick("annotator %d relation %d" % (a, i), [None] + RELS)
            if r is not None:
                gp.add_align(Pair(str(i), str(i)), r)
                mine[i] = r
        out["file%d" % a] = ParallelGraphCorpus([gp], m.AlignEval.relations)
        al.append(mine)
    return out, al


def fscore(true, pred, rel):
    if rel is None:
        true, pred = set(true), set(pred)
    else:
        true, pred = [set([i for i in s if s[i] == rel]) for s in (true, pred)]
    common = len(true & pred)
    p = common / float(len(pred)) if pred else 0.0
    r = common / float(len(true)) if true else 0.0
    return {"prec": p, "rec": r, "f": 2 * p * r / (p + r) if p + r else 0.0}


def near(a, b):
    return abs(a - b) <= 1e-9


def judge(x, ls, al, tables, align_eval):
    x.prove(set(tables) == set(list(m.AlignEval.relations) + [m.AlignEval.any_rel]), "a table for every relation")
    seen = []
    for rel in tables:
        for key in ("prec", "rec", "f"):
            t = tables[rel][key]
            values = []
            for i, a in enumerate(ls):
                for j, b in enumerate(ls):
                    if i != j:
                        want = fscore(al[i], al[j], None if rel == m.AlignEval.any_rel else rel)[key]
                        x.prove(near(t[a][b], want), "score of a pair of annotators")
                        values.append(want)
            x.prove(near(t["mean"]["overall"], sum(values) / len(values)), "overall mean")
            seen.append(t["mean"]["overall"])
    x.observe(seen)


def cross(x, n, most, named):
    files, al = prepared(x, n, most)
    ls = ["x", "c", "d", "b"][:n] if named else labels(n)
    fns = sorted(files)
    ev, tables = with_reader(files, lambda: m.run_eval(fns, ls if named else None))
    judge(x, ls, al, tables, ev)


def parts(x, n, most):
    """the steps of run_eval called one by one, as left by default"""
    inner = [(s, i) for s in "st" for i in range(most) if x.flag("%s%d is inner" % (s, i))]
    files, al = prepared(x, n, most, inner)

    def work():
        ev = m.cross_evaluate(sorted(files))
        return ev, m.tableize(ev)
    ev, tables = with_reader(files, work)
    judge(x, labels(n), al, tables, ev)


def words(x, n, most):
    inner = [(s, i) for s in "st" for i in range(most) if x.flag("%s%d is inner" % (s, i))]
    files, al = prepared(x, n, most, inner)
    ev, tables = with_reader(files, lambda: m.run_eval(sorted(files), labels(n), words_only=True))
    al = [dict([(i, d[i]) for i in d if ("s", i) not in inner and ("t", i) not in inner]) for d in al]
    judge(x, labels(n), al, tables, ev)


def jobs(tier):
    out = {}
    for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
        f = lambda x, n=n: table(x, n)
        f.opts = {"numbers": True}
        out["table-%d" % n] = (f, {})
    out["cross-2-1"] = (cross, dict(n=2, most=1, named=False))
    out["cross-2-2"] = (cross, dict(n=2, most=2, named=True))
    out["cross-3-1"] = (cross, dict(n=3, most=1, named=True))
    out["parts-2-1"] = (parts, dict(n=2, most=1))
    out["words-2-1"] = (words, dict(n=2, most=1))
    out["words-2-2"] = (words, dict(n=2, most=2))
    if tier == "thorough":
        out["cross-3-2"] = (cross, dict(n=3, most=2, named=False))
    return out
